from extract import Item
S = 'src/ringhopper/src/tag/scenario.rs'
MSG = (r'format!\((?:[^()"]|"[^"]*"|\([^()]*\))*\)|"[^"]*"\.(?:to_string|to_owned)\(\)', 'message()', 'message text is not under contract')
ISO = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] '
SPEC = r'''
global size_of usize == 8;
#[derive(Debug)]
pub struct Message;
#[verifier::external_body] fn message() -> Message { unimplemented!() }
#[derive(Debug)]
pub enum Error { InvalidTagData(Message) }
type RinghopperResult<T> = Result<T, Error>;
type Index = Option<u16>;
/// identifiers and packed values are opaque (proved in P08)
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ID;
impl ID { pub uninterp spec fn ix(self) -> Index; #[verifier::external_body] fn index(&self) -> (r: Index) ensures r == self.ix() { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ScenarioScriptNodeValue;
impl ScenarioScriptNodeValue { pub uninterp spec fn id(self) -> ID; #[verifier::external_body] fn to_id(self) -> (r: ID) ensures r == self.id() { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Flags { pub is_primitive: bool, pub is_global: bool, pub is_local_variable: bool }
#[derive(Clone, Copy)] pub enum ScenarioScriptValueType { Boolean, Real, Short, Long, Void, Other(u16) }
#[derive(Clone, Copy)] pub struct ScenarioScriptNode { pub _type: ScenarioScriptValueType, pub flags: Flags, pub next_node: ID, pub string_offset: u32, pub data: ScenarioScriptNodeValue }
#[verifier::external_body] pub struct Scenario;
#[verifier::external_body] pub struct Text;
pub enum Token { Open, Close, Word(Text) }
/// the text of a node, or an error (executed contracts)
pub uninterp spec fn text(s: Scenario, n: ScenarioScriptNode) -> RinghopperResult<Text>;
pub uninterp spec fn begins(t: Text) -> bool;
pub uninterp spec fn quoted(t: Text) -> Text;
pub uninterp spec fn said_bool(v: ScenarioScriptNodeValue) -> Text;
pub uninterp spec fn said_f32(v: ScenarioScriptNodeValue) -> Text;
pub uninterp spec fn said_i16(v: ScenarioScriptNodeValue) -> Text;
pub uninterp spec fn said_i32(v: ScenarioScriptNodeValue) -> Text;
#[verifier::external_body] fn get_string_data_for_node(s: &Scenario, n: &ScenarioScriptNode) -> (r: RinghopperResult<Text>) ensures r == text(*s, *n) { unimplemented!() }
#[verifier::external_body] fn is_begin(t: Text) -> (r: bool) ensures r == begins(t) { unimplemented!() }
#[verifier::external_body] fn sanitize(t: Text) -> (r: Text) ensures r == quoted(t) { unimplemented!() }
#[verifier::external_body] fn say_bool(v: ScenarioScriptNodeValue) -> (r: Text) ensures r == said_bool(v) { unimplemented!() }
#[verifier::external_body] fn say_f32(v: ScenarioScriptNodeValue) -> (r: Text) ensures r == said_f32(v) { unimplemented!() }
#[verifier::external_body] fn say_i16(v: ScenarioScriptNodeValue) -> (r: Text) ensures r == said_i16(v) { unimplemented!() }
#[verifier::external_body] fn say_i32(v: ScenarioScriptNodeValue) -> (r: Text) ensures r == said_i32(v) { unimplemented!() }
pub open spec fn kid(n: ScenarioScriptNode) -> Index { n.data.id().ix() }
pub open spec fn room(ns: Seq<ScenarioScriptNode>) -> nat { ns.len() + 32 }
/// the list of expressions at `at` ends within k of them, every reference leads to a node, and calls nest at most d deep
pub open spec fn line(ns: Seq<ScenarioScriptNode>, at: Index, d: nat, k: nat) -> bool decreases d, k {
    match at { None => true, Some(i) => i < ns.len() && k > 0 && line(ns, ns[i as int].next_node.ix(), d, (k - 1) as nat)
        && (!ns[i as int].flags.is_primitive ==> kid(ns[i as int]) is Some && d > 0 && line(ns, kid(ns[i as int]), (d - 1) as nat, room(ns))) } }
pub open spec fn call(ns: Seq<ScenarioScriptNode>, at: Index, d: int) -> bool { at is Some && d > 0 && line(ns, at, (d - 1) as nat, room(ns)) }
/// everything still to be looked at is fine
spec fn fine(ns: Seq<ScenarioScriptNode>, todo: Seq<(Index, usize)>) -> bool { forall|j: int| 0 <= j < todo.len() ==> (#[trigger] todo[j]).1 <= MAX_SCRIPT_DEPTH + 1 && call(ns, todo[j].0, MAX_SCRIPT_DEPTH + 2 - todo[j].1) }
/// the source of a list of expressions: a call is what it names in parentheses, anything else its word; Void says nothing
pub open spec fn source(s: Scenario, ns: Seq<ScenarioScriptNode>, at: Index, d: nat, k: nat, strip: bool) -> Seq<Token> decreases d, k, 1int {
    match at { Some(i) if i < ns.len() && k > 0 => expression(s, ns, ns[i as int], d, k, strip) + source(s, ns, ns[i as int].next_node.ix(), d, (k - 1) as nat, strip), _ => seq![] } }
pub open spec fn word(s: Scenario, n: ScenarioScriptNode) -> Seq<Token> {
    if n.flags.is_global || n.flags.is_local_variable { seq![Token::Word(quoted(text(s, n)->Ok_0))] } else { match n._type {
        ScenarioScriptValueType::Boolean => seq![Token::Word(said_bool(n.data))], ScenarioScriptValueType::Real => seq![Token::Word(said_f32(n.data))],
        ScenarioScriptValueType::Short => seq![Token::Word(said_i16(n.data))], ScenarioScriptValueType::Long => seq![Token::Word(said_i32(n.data))],
        ScenarioScriptValueType::Void => seq![], _ => seq![Token::Word(quoted(text(s, n)->Ok_0))] } } }
pub open spec fn expression(s: Scenario, ns: Seq<ScenarioScriptNode>, n: ScenarioScriptNode, d: nat, k: nat, strip: bool) -> Seq<Token> decreases d, k, 0int {
    if n.flags.is_primitive { word(s, n) } else if d == 0 || kid(n) is None || kid(n)->Some_0 >= ns.len() { seq![] } else { let c = ns[kid(n)->Some_0 as int];
        if strip && begins(text(s, c)->Ok_0) { source(s, ns, c.next_node.ix(), (d - 1) as nat, (room(ns) - 1) as nat, false) }
        else { seq![Token::Open] + source(s, ns, kid(n), (d - 1) as nat, room(ns), false) + seq![Token::Close] } } }
'''
UNITS = [dict(
    name='expressions', about='check_bad_scripts ends, and passes only if every list of expressions reachable from the root ends, stays inside the table and nests a bounded depth; then decompiling it never indexes outside the table, ends, and gives exactly the source of the expressions in order',
    trusted=True, spec=SPEC, lemmas='',
    items=[
        Item(S, 'const', 'MAX_SCRIPT_DEPTH'),
        Item(S, 'fn', 'check_bad_scripts', vis='', ret='r', attrs=ISO, rewrite=[MSG, (r'while let Some\(\(index, depth\)\) = todo\.pop\(\) \{', 'loop { let ghost all = todo@; let (index, depth) = match todo.pop() { Some(x) => x, None => break }; proof { assert(all =~= todo@.push((index, depth))); assert(fine(ns, todo@) && call(ns, index, MAX_SCRIPT_DEPTH + 2 - depth) ==> fine(ns, all)); }', '`while let` written as `loop`'),
                (r'let id: ID = node\.data\.into\(\);', 'let id: ID = node.data.to_id();', 'conversion as a function')],
            spec='requires extracted_nodes@.len() <= 65535 ensures r is Ok ==> call(extracted_nodes@, node.ix(), MAX_SCRIPT_DEPTH + 2)',
            start='let ghost ns = extracted_nodes@; let ghost root = node.ix();',
            loops=[dict(spec='''invariant_except_break true, invariant extracted_nodes@ == ns, iterated_nodes <= iteration_limit, iteration_limit == room(ns), node_count == ns.len(), fine(ns, todo@) ==> call(ns, root, MAX_SCRIPT_DEPTH + 2),
                    forall|j: int| 0 <= j < todo@.len() ==> (#[trigger] todo@[j]).1 <= MAX_SCRIPT_DEPTH + 1
                    ensures call(ns, root, MAX_SCRIPT_DEPTH + 2) decreases iteration_limit + 1 - iterated_nodes''', start='let ghost it0 = iterated_nodes;'),
                dict(spec='''invariant_except_break cur < ns.len() && *node == ns[cur], line(ns, Some(cur as u16), (MAX_SCRIPT_DEPTH + 1 - depth) as nat, (iteration_limit - steps) as nat) && fine(ns, todo@) ==> call(ns, root, MAX_SCRIPT_DEPTH + 2)
                    invariant depth <= MAX_SCRIPT_DEPTH, extracted_nodes@ == ns, ns.len() <= 65535, 0 <= cur, 0 <= steps <= iterated_nodes, it0 + steps == iterated_nodes, iterated_nodes <= iteration_limit, iteration_limit == room(ns), node_count == ns.len(), forall|j: int| 0 <= j < todo@.len() ==> (#[trigger] todo@[j]).1 <= MAX_SCRIPT_DEPTH + 1
                    ensures fine(ns, todo@) ==> call(ns, root, MAX_SCRIPT_DEPTH + 2), steps > 0 decreases iteration_limit + 1 - iterated_nodes''',
                    start='let ghost t0 = todo@; let ghost c0 = cur; let ghost s0 = steps; proof { steps = steps + 1; }', end='proof { cur = index as int; }')],
            at=[(r'todo\.push\(\(node\.index\(\), 0\)\);', 'after', 'proof { assert(todo@[0] == (root, 0usize)); }'), (r'let mut node = &extracted_nodes\[index\];', 'after', 'let ghost mut cur = index as int; let ghost mut steps = 0int;'),
                (r'let next_node_index', 'before', '''proof { let b = ns[c0]; if !b.flags.is_primitive { assert(todo@ == t0.push((kid(b), (depth + 1) as usize))); assert(forall|j: int| 0 <= j < t0.len() ==> #[trigger] t0[j] == todo@[j]); assert(todo@[t0.len() as int] == (kid(b), (depth + 1) as usize)); } else { assert(todo@ == t0); }
                    assert(fine(ns, todo@) ==> fine(ns, t0)); assert(fine(ns, todo@) && line(ns, b.next_node.ix(), (MAX_SCRIPT_DEPTH + 1 - depth) as nat, (iteration_limit - steps) as nat) ==> line(ns, Some(c0 as u16), (MAX_SCRIPT_DEPTH + 1 - depth) as nat, (iteration_limit - s0) as nat)); }''')]),
        Item(S, 'fn', 'decompile_script_block_to_tokens', vis='', ret='r', attrs=ISO, rewrite=[(r"tokens: &mut Vec<Cow<'a, str>>,\s*remove_redundant_begin: bool\s*", 'tokens: &mut Vec<Token>, remove_redundant_begin: bool, Ghost(d): Ghost<nat>, Ghost(k): Ghost<nat>', 'tokens without their text; ghost bounds'),
                (r"<'a>", '', 'lifetime'), (r"&'a Scenario", '&Scenario', 'lifetime'),
                (r'while let Some\(n\) = next_node\.map\(\|i\| &nodes\[i as usize\]\) \{', 'loop { let n = match next_node { Some(i) => &nodes[i as usize], None => break };', '`while let` over Option::map written as `loop`'),
                (r'decompile_token\(([^;]*?)\)\?;', r'decompile_token(\1, Ghost(d), Ghost(left))?;', 'ghost bounds')],
            spec='requires line(nodes@, block.ix(), d, k), nodes@.len() <= 65535 ensures r is Ok ==> final(tokens)@ == old(tokens)@ + source(*scenario, nodes@, block.ix(), d, k, remove_redundant_begin) decreases d, k, 1int',
            start='let ghost mut left = k; let ghost t0 = tokens@; let ghost all = source(*scenario, nodes@, block.ix(), d, k, remove_redundant_begin); proof { assert(tokens@ + all =~= t0 + all); }',
            loops=[dict(spec='''invariant_except_break true, invariant left <= k, line(nodes@, next_node, d, left), t0 + all == tokens@ + source(*scenario, nodes@, next_node, d, left, remove_redundant_begin)
                    ensures tokens@ == t0 + all decreases left''', start='let ghost t1 = tokens@; let ghost at = next_node; proof { if at is None { assert(tokens@ + Seq::<Token>::empty() =~= tokens@); } }',
                    end='proof { let e = expression(*scenario, nodes@, *n, d, left, remove_redundant_begin); let rest = source(*scenario, nodes@, next_node, d, (left - 1) as nat, remove_redundant_begin); assert(t1 + (e + rest) =~= (t1 + e) + rest); left = (left - 1) as nat; }')]),
        Item(S, 'fn', 'decompile_token', vis='', ret='r', attrs=ISO, rewrite=[(r"tokens: &mut Vec<Cow<'a, str>>,\s*remove_redundant_begin: bool\s*", 'tokens: &mut Vec<Token>, remove_redundant_begin: bool, Ghost(d): Ghost<nat>, Ghost(k): Ghost<nat>', 'tokens without their text; ghost bounds'),
                (r"<'a>", '', 'lifetime'), (r"&'a Scenario", '&Scenario', 'lifetime'), (r'ID::from\(node\.data\)', 'node.data.to_id()', 'conversion as a function'),
                (r'child_id\s*\.index\(\)\s*\.ok_or_else\(\|\| Error::InvalidTagData\("[^"]*"\.to_owned\(\)\)\)\?', '(match child_id.index() { Some(i) => i, None => return Err(Error::InvalidTagData(message())) })', 'Option::ok_or_else written out'),
                (r'get_string_data_for_node\(scenario, node_peek_node\)\? == "begin"', 'is_begin(get_string_data_for_node(scenario, node_peek_node)?)', 'comparison with text as a function'),
                (r'Cow::Borrowed\("\("\)', 'Token::Open', 'tokens without their text'), (r'Cow::Borrowed\("\)"\)', 'Token::Close', 'tokens without their text'),
                (r'decompile_script_block_to_tokens\(scenario, nodes, child_id, tokens, false\)\?;', 'decompile_script_block_to_tokens(scenario, nodes, child_id, tokens, false, Ghost((d - 1) as nat), Ghost(if strip_begin { (room(nodes@) - 1) as nat } else { room(nodes@) }))?;', 'ghost bounds'),
                (r'return Ok\(\(\)\)', '{ proof { assert(tokens@ =~= t0 + expression(*scenario, nodes@, *node, d, k, remove_redundant_begin)); } return Ok(()) }', 'ghost'),
                (r'tokens\.push\((sanitize\(.*?\))\);', r'tokens.push(Token::Word(\1));', 'tokens without their text'), (r'tokens\.push\(token\)', 'tokens.push(Token::Word(token))', 'tokens without their text'),
                (r'Cow::Borrowed\(if bool::from\(node\.data\) \{ "true" \} else \{ "false" \}\)', 'say_bool(node.data)', 'text of a number as a function'), (r'Cow::Owned\((\w+)::from\(node\.data\)\.to_string\(\)\)', r'say_\1(node.data)', 'text of a number as a function')],
            spec='''requires nodes@.len() <= 65535, k > 0, !node.flags.is_primitive ==> kid(*node) is Some && d > 0 && line(nodes@, kid(*node), (d - 1) as nat, room(nodes@))
                ensures r is Ok ==> final(tokens)@ == old(tokens)@ + expression(*scenario, nodes@, *node, d, k, remove_redundant_begin) decreases d, k, 0int''',
            start='let ghost t0 = tokens@;',
            at=[]),
    ])]
PAGES = r'''
global size_of usize == 8;
#[verifier::external_body] pub struct Text;
pub enum Token { Open, Close, Word(Text) }
pub uninterp spec fn said(t: Text, s: Seq<char>) -> bool;
impl Token {
    fn is_open(&self) -> (r: bool) ensures r == (*self is Open) { match self { Token::Open => true, _ => false } }
    fn is_close(&self) -> (r: bool) ensures r == (*self is Close) { match self { Token::Close => true, _ => false } }
    #[verifier::external_body] fn says(&self, s: &str) -> (r: bool) ensures r == says(*self, s@) { unimplemented!() }
}
pub open spec fn says(t: Token, s: Seq<char>) -> bool { t is Word && said(t->Word_0, s) }
/// what is written: tokens, or white space
pub enum Piece { Put(Token), Gap }
#[verifier::external_body] pub struct Page;
impl Page { pub uninterp spec fn view(&self) -> Seq<Piece>; pub uninterp spec fn bytes(&self) -> usize; }
#[verifier::opaque] pub open spec fn words(s: Seq<Piece>) -> Seq<Token> decreases s.len() { if s.len() == 0 { seq![] } else { let r = words(s.drop_last()); match s.last() { Piece::Put(t) => r.push(t), Piece::Gap => r } } }
#[verifier::opaque] pub open spec fn all(f: Seq<Page>) -> Seq<Token> decreases f.len() { if f.len() == 0 { seq![] } else { all(f.drop_last()) + words(f.last()@) } }
pub open spec fn one(t: Token) -> int { match t { Token::Open => 1, Token::Close => -1, Token::Word(_) => 0 } }
/// how deep the tokens end
#[verifier::opaque] pub open spec fn bal(s: Seq<Token>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bal(s.drop_last()) + one(s.last()) } }
pub open spec fn is_word(s: Seq<Piece>, j: int) -> bool { s[j] is Put && s[j]->Put_0 is Word }
/// two words never touch
pub open spec fn apart(s: Seq<Piece>) -> bool { forall|j: int| 0 <= j && j + 1 < s.len() ==> !(#[trigger] is_word(s, j) && is_word(s, j + 1)) }
pub open spec fn touching(f: Seq<Page>) -> bool { f.len() > 0 && f.last()@.len() > 0 && is_word(f.last()@, f.last()@.len() - 1) }
/// every page but the last is full and ends outside of all forms
spec fn tidy(f: Seq<Page>) -> bool { f.len() > 0 && in_order(f) }
#[verifier::opaque] spec fn in_order(f: Seq<Page>) -> bool { (forall|p: int| 0 <= p < f.len() ==> apart(#[trigger] f[p]@)) && (forall|p: int| 0 <= p < f.len() - 1 ==> bal(words((#[trigger] f[p])@)) == 0 && f[p].bytes() >= SCRIPT_SPLIT) }
#[verifier::external_body] fn blank_page() -> (r: Page) ensures r@ == Seq::<Piece>::empty() { unimplemented!() }
#[verifier::external_body] fn filled(f: &Vec<Page>) -> (r: usize) requires f@.len() > 0 ensures r == f@.last().bytes() { unimplemented!() }
#[verifier::external_body] fn blank(f: &Vec<Page>) -> (r: bool) requires f@.len() > 0 ensures r ==> f@.last()@.len() == 0 { unimplemented!() }
#[verifier::external_body] fn write_token(f: &mut Vec<Page>, t: &Token) requires old(f)@.len() > 0 ensures final(f)@.len() == old(f)@.len(), final(f)@.drop_last() == old(f)@.drop_last(), final(f)@.last()@ == old(f)@.last()@.push(Piece::Put(*t)) { unimplemented!() }
/// text of white space only
#[verifier::external_body] fn write_gap(f: &mut Vec<Page>, s: &str) requires old(f)@.len() > 0, s@ == "    "@ || s@ == " "@ || s@ == "\n"@ ensures final(f)@.len() == old(f)@.len(), final(f)@.drop_last() == old(f)@.drop_last(), final(f)@.last()@ == old(f)@.last()@.push(Piece::Gap) { unimplemented!() }
proof fn kept_tidy(a: Seq<Page>, b: Seq<Page>, x: Piece) requires tidy(a), b.len() == a.len(), b.drop_last() == a.drop_last(), b.last()@ == a.last()@.push(x), (x is Put && x->Put_0 is Word) ==> !touching(a)
    ensures tidy(b), all(b) == (match x { Piece::Put(t) => all(a).push(t), Piece::Gap => all(a) }), touching(b) == (x is Put && x->Put_0 is Word), bal(words(b.last()@)) == bal(words(a.last()@)) + (match x { Piece::Put(t) => one(t), Piece::Gap => 0 })
{
    reveal(words); reveal(all); reveal(bal); reveal(in_order); let (s, t) = (a.last()@, b.last()@); assert(t.drop_last() =~= s); assert(t.last() == x);
    match x { Piece::Put(k) => { assert(words(t) =~= words(s).push(k)); assert(words(t).drop_last() =~= words(s)); assert(all(b) =~= all(a).push(k)); }, Piece::Gap => { } }
    assert forall|j: int| 0 <= j && j + 1 < t.len() implies !(#[trigger] is_word(t, j) && is_word(t, j + 1)) by { if j + 1 < s.len() { assert(is_word(s, j) == is_word(t, j)); assert(is_word(s, j + 1) == is_word(t, j + 1)); } else { assert(is_word(s, j) == is_word(t, j)); } }
    assert forall|p: int| 0 <= p < b.len() implies apart(#[trigger] b[p]@) by { if p < b.len() - 1 { assert(b.drop_last()[p] == a.drop_last()[p]); assert(b.drop_last()[p] == b[p] && a.drop_last()[p] == a[p]); assert(apart(a[p]@)); } }
    assert forall|p: int| 0 <= p < b.len() - 1 implies bal(words((#[trigger] b[p])@)) == 0 && b[p].bytes() >= SCRIPT_SPLIT by { assert(b.drop_last()[p] == a.drop_last()[p]); assert(b.drop_last()[p] == b[p] && a.drop_last()[p] == a[p]); assert(a[p] == b[p]); }
}
fn put(f: &mut Vec<Page>, t: &Token) requires tidy(old(f)@), *t is Word ==> !touching(old(f)@) ensures tidy(final(f)@), all(final(f)@) == all(old(f)@).push(*t), touching(final(f)@) == (*t is Word), bal(words(final(f)@.last()@)) == bal(words(old(f)@.last()@)) + one(*t) {
    let ghost a = f@; write_token(f, t); proof { kept_tidy(a, f@, Piece::Put(*t)); } }
fn gap(f: &mut Vec<Page>, s: &str) requires tidy(old(f)@), s@ == "    "@ || s@ == " "@ || s@ == "\n"@ ensures tidy(final(f)@), all(final(f)@) == all(old(f)@), !touching(final(f)@), bal(words(final(f)@.last()@)) == bal(words(old(f)@.last()@)) {
    let ghost a = f@; write_gap(f, s); proof { kept_tidy(a, f@, Piece::Gap); } }
fn indent(f: &mut Vec<Page>, n: usize) requires tidy(old(f)@), !touching(old(f)@) ensures tidy(final(f)@), all(final(f)@) == all(old(f)@), !touching(final(f)@), bal(words(final(f)@.last()@)) == bal(words(old(f)@.last()@)) {
    let ghost a = f@; let mut i = 0usize; while i < n invariant i <= n, tidy(f@), all(f@) == all(a), !touching(f@), bal(words(f@.last()@)) == bal(words(a.last()@)) decreases n - i { gap(f, "    "); i += 1; } }
fn turn(f: &mut Vec<Page>) requires old(f)@.len() == 0 || (tidy(old(f)@) && bal(words(old(f)@.last()@)) == 0 && old(f)@.last().bytes() >= SCRIPT_SPLIT)
    ensures tidy(final(f)@), all(final(f)@) == all(old(f)@), !touching(final(f)@), bal(words(final(f)@.last()@)) == 0
{ let ghost a = f@; f.push(blank_page()); proof { reveal(words); reveal(all); reveal(bal); reveal(in_order); let b = f@; assert(b.drop_last() =~= a); assert(words(b.last()@) =~= Seq::<Token>::empty()); assert(all(b) =~= all(a));
    assert forall|p: int| 0 <= p < b.len() - 1 implies bal(words((#[trigger] b[p])@)) == 0 && b[p].bytes() >= SCRIPT_SPLIT by { assert(b[p] == a[p]); } 
    assert forall|p: int| 0 <= p < b.len() implies apart(#[trigger] b[p]@) by { if p < a.len() { assert(b[p] == a[p]); assert(apart(a[p]@)); } } } }
/// parentheses match
#[verifier::opaque] pub open spec fn matched(t: Seq<Token>) -> bool { bal(t) == 0 && forall|i: int| 0 <= i <= t.len() ==> bal(#[trigger] t.take(i)) >= 0 }
/// what follows `(script` and `(global` outside of all forms are words, up to the parameters
pub open spec fn shaped(t: Seq<Token>, i: int) -> bool {
    (says(t[i + 1], "script"@) ==> t[i + 2] is Word && (if says(t[i + 2], "static"@) || says(t[i + 2], "stub"@) { t[i + 3] is Word && !(t[i + 4] is Close) } else { !(t[i + 3] is Close) }))
    && (says(t[i + 1], "global"@) ==> t[i + 2] is Word && t[i + 3] is Word) }
#[verifier::opaque] pub open spec fn forms(t: Seq<Token>) -> bool { forall|i: int| 0 <= i && i + 5 < t.len() && bal(t.take(i)) == 0 && t[i] is Open ==> #[trigger] shaped(t, i) }
proof fn step(t: Seq<Token>, i: int) requires 0 <= i < t.len() ensures bal(t.take(i + 1)) == bal(t.take(i)) + one(t[i]), t.take(i + 1) == t.take(i).push(t[i]) { reveal(bal); assert(t.take(i + 1) =~= t.take(i).push(t[i])); assert(t.take(i + 1).drop_last() =~= t.take(i)); }
proof fn ends(t: Seq<Token>) requires matched(t) ensures t.take(t.len() as int) == t, bal(t) == 0, bal(t.take(0)) == 0, t.take(0) == Seq::<Token>::empty() { reveal(matched); reveal(bal); assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::<Token>::empty()); }
proof fn above(t: Seq<Token>, i: int) requires matched(t), 0 <= i <= t.len() ensures bal(t.take(i)) >= 0 { reveal(matched); }
proof fn shape(t: Seq<Token>, i: int) requires forms(t), 0 <= i, i + 5 < t.len(), bal(t.take(i)) == 0, t[i] is Open ensures shaped(t, i) { reveal(forms); }
proof fn most(t: Seq<Token>) ensures bal(t) <= t.len() decreases t.len() { reveal(bal); if t.len() > 0 { most(t.drop_last()); } }
'''
UNITS += [dict(
    name='pages', about='format_tokens: for any list of tokens with matching parentheses, the pages hold exactly the tokens in order, no two words touch, every page but the last is full and ends outside of all forms, and nothing is out of bounds or underflows',
    trusted=True, spec=PAGES, lemmas='',
    items=[Item(S, 'const', 'SCRIPT_SPLIT'),
        Item(S, 'fn', 'format_tokens', vis='', ret='r', attrs=ISO, rewrite=[
            (r'tokens: &\[Cow<str>\]\) -> Vec<String>', 'tokens: &[Token]) -> Vec<Page>', 'tokens and pages without their text'), (r'let mut files = Vec::new\(\);\s*let mut result;', 'let mut files: Vec<Page> = Vec::new();', 'the current page is the last one'),
            (r'files\.push\(String::with_capacity\(RESERVED_CAPACITY\)\);\s*result = files\.last_mut\(\)\.unwrap\(\);', 'turn(&mut files);', 'a new page as a function'),
            (r'let mut end = None;', 'let mut end: Option<usize> = None;', 'type written out'), (r'for _ in 0\.\.depth \{\s*\*result \+= "    ";\s*\}', 'indent(&mut files, depth);', 'repeated white space as a function'),
            (r'result\.len\(\)', 'filled(&files)', 'the current page is the last one'), (r'result\.is_empty\(\)', 'blank(&files)', 'the current page is the last one'),
            (r'\*result \+= ("[^"]*");', r'{ proof { assert("    "@ == "    "@); } gap(&mut files, \1); }', 'white space as a function'), (r'\*result \+= (\w+);', r'put(&mut files, \1);', 'a token as a function'),
            (r'(\w+(?:\[\w+\])?) == "\("', r'\1.is_open()', 'comparison with text as a function'), (r'(\w+(?:\[\w+\])?) == "\)"', r'\1.is_close()', 'comparison with text as a function'),
            (r'(\w+) != "\("', r'!\1.is_open()', 'comparison with text as a function'), (r'(\w+) != "\)"', r'!\1.is_close()', 'comparison with text as a function'), (r'(\w+) == "(script|static|stub|global)"', r'\1.says("\2")', 'comparison with text as a function'),
            (r'for q in token_index\.\.\(token_index \+ 24\)\.min\(token_count\) \{', 'let ahead = if token_index + 24 < token_count { token_index + 24 } else { token_count }; let mut next_q = token_index; while next_q < ahead { let q = next_q; next_q += 1; proof { step(tokens@, q as int); }', '`for` written as `while`; min written out'),
            (r'for i in token_index\.\.=end_of_one_liner \{', 'let mut next_i = token_index; while next_i <= end_of_one_liner { let i = next_i; next_i += 1; proof { step(tokens@, i as int); }', '`for` written as `while`'),
            (r'debug_assert_ne!\(depth, usize::MAX\)', 'assert(depth != usize::MAX)', 'a debug assertion is an obligation'), (r'debug_assert_ne!\(depth, 0\)', 'assert(depth != 0)', 'a debug assertion is an obligation')],
            spec='''requires matched(tokens@), forms(tokens@), tokens@.len() <= 0x7FFF_FFFF_FFFF_FFFF ensures tidy(r@), all(r@) == tokens@, bal(words(r@.last()@)) == 0''', start='proof { ends(tokens@); reveal(all); }',
            loops=[dict(spec='''invariant token_index <= token_count, token_count == tokens@.len(), tidy(files@), all(files@) == tokens@.take(token_index as int), bal(tokens@.take(token_index as int)) == depth, bal(words(files@.last()@)) == depth, !touching(files@), depth <= token_index decreases token_count - token_index''',
                    start='let ghost i0 = token_index as int; let ghost d0 = depth as int; proof { step(tokens@, i0); most(tokens@.take(i0 + 1)); above(tokens@, i0 + 1); }',
                    after=''),
                dict(spec='''invariant_except_break end is None, next_q > token_index ==> !(tokens@[token_index as int] is Close), depth_inner > 0, invariant token_index <= next_q <= ahead <= token_count, depth_inner + d0 == bal(tokens@.take(next_q as int)), depth_inner <= next_q - token_index + 1
                    ensures match end { Some(q) => token_index <= q < token_count && bal(tokens@.take(q + 1)) == d0, None => (ahead > token_index ==> !(tokens@[token_index as int] is Close)) && next_q == ahead && depth_inner > 0 && depth_inner + d0 == bal(tokens@.take(ahead as int)) } decreases ahead - next_q'''),
                dict(spec='''invariant token_index <= next_i <= end_of_one_liner + 1, end_of_one_liner < token_count, tidy(files@), all(files@) == tokens@.take(next_i as int), bal(words(files@.last()@)) == bal(tokens@.take(next_i as int)), *last_token == tokens@[next_i - 1], touching(files@) == (*last_token is Word) decreases end_of_one_liner + 1 - next_i''')],
            at=[(r'if end_of_one_liner\.is_none\(\) \{', 'after', '''proof { let t = tokens@; assert(i0 + 24 < t.len()); step(t, i0 + 1); step(t, i0 + 2); step(t, i0 + 3); step(t, i0 + 4); if d0 == 0 { shape(t, i0); } assert(!(t[i0 + 1] is Close)) ; }'''),
                (r'if let Some\(end_of_one_liner\) = end_of_one_liner', 'before', 'proof { match end_of_one_liner { Some(e) => { assert(token_index <= e < token_count); assert(bal(tokens@.take(e + 1)) == depth); }, None => { assert(depth == d0 + 1); } } }')])])]
