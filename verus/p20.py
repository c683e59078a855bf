from extract import Item
P = 'src/ringhopper/src/tag/tree.rs'
SPEC = r'''
/// specification of a pattern: `*` stands for any text, `?` for any one character, anything else for itself
pub open spec fn glob(f: Seq<char>, w: Seq<char>) -> bool decreases f.len() + w.len() {
    if f.len() == 0 { w.len() == 0 }
    else if f[0] == '*' { glob(f.skip(1), w) || (w.len() > 0 && glob(f, w.skip(1))) }
    else { w.len() > 0 && (f[0] == '?' || f[0] == w[0]) && glob(f.skip(1), w.skip(1)) }
}
pub open spec fn utf8(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// bytes in a text
pub open spec fn size(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { utf8(s[0]) + size(s.skip(1)) } }
/// byte n of the text is the start of its character k (or its end)
pub open spec fn starts(s: Seq<char>, n: nat, k: int) -> bool { 0 <= k <= s.len() && size(s.take(k)) == n }
pub open spec fn plain(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> w[i] != '*' }

// assumed contracts of the standard library
#[verifier::external_body] fn first(s: &str) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { unimplemented!() }
#[verifier::external_body] fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] fn width(c: char) -> (r: usize) ensures r == utf8(c) { unimplemented!() }
/// `&s[n..]`, which panics unless a character starts at n
#[verifier::external_body] fn from(s: &str, n: usize) -> (r: &str) requires exists|k: int| starts(s@, n as nat, k) ensures forall|k: int| #[trigger] starts(s@, n as nat, k) ==> r@ == s@.skip(k) { unimplemented!() }
/// `s.find(|f| f != c)`
#[verifier::external_body] fn find_other(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { None => forall|i: int| 0 <= i < s@.len() ==> s@[i] == c,
        Some(n) => exists|k: int| #[trigger] starts(s@, n as nat, k) && k < s@.len() && s@[k] != c && (forall|i: int| 0 <= i < k ==> s@[i] == c) } { unimplemented!() }

#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub struct TagGroup { pub code: u32 }
#[verifier::external_body] pub struct TagPath;
impl TagPath {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn whole(&self) -> Seq<char>;
    pub uninterp spec fn kind(&self) -> TagGroup;
    /// a path has no `*` in it (proved in check P06)
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self.text(), plain(r@) { unimplemented!() }
    #[verifier::external_body] pub fn group(&self) -> (r: TagGroup) ensures r == self.kind() { unimplemented!() }
}
#[verifier::external_body] fn internal(p: &TagPath) -> (r: &str) ensures r@ == p.whole(), plain(r@) { unimplemented!() }
#[verifier::external_body] fn slice(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn blank() -> (r: &'static str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] fn same(a: TagGroup, b: TagGroup) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub enum TagReference { Null(TagGroup), Set(TagPath) }
pub struct TagFilter { pub filter: String, pub group: Option<TagGroup> }
pub open spec fn selects(f: TagFilter, p: TagPath) -> bool { match f.group { Some(g) => p.kind() == g && glob(f.filter@, p.text()), None => glob(f.filter@, p.whole()) } }

proof fn stars(f: Seq<char>, w: Seq<char>) requires f.len() > 1, f[0] == '*', f[1] == '*' ensures glob(f, w) == glob(f.skip(1), w) decreases w.len() {
    if w.len() > 0 { stars(f, w.skip(1)); assert(f.skip(1)[0] == '*'); }
}
proof fn run(f: Seq<char>, w: Seq<char>, k: int) requires 0 <= k < f.len(), forall|i: int| 0 <= i <= k ==> f[i] == '*' ensures glob(f, w) == glob(f.skip(k), w) decreases k {
    if k == 0 { assert(f.skip(0) =~= f); } else { stars(f, w); let g = f.skip(1);
        assert forall|i: int| 0 <= i <= k - 1 implies g[i] == '*' by { assert(g[i] == f[i + 1]); }
        run(g, w, k - 1); assert(g.skip(k - 1) =~= f.skip(k)); }
}
proof fn all(f: Seq<char>, w: Seq<char>) requires f.len() > 0, forall|i: int| 0 <= i < f.len() ==> f[i] == '*' ensures glob(f, w) decreases f.len(), w.len() {
    if w.len() > 0 { all(f, w.skip(1)); }
    else if f.len() > 1 { let g = f.skip(1); assert forall|i: int| 0 <= i < g.len() implies g[i] == '*' by { assert(g[i] == f[i + 1]); } all(g, w); }
}
proof fn size_run(f: Seq<char>, k: int) requires 0 <= k <= f.len(), forall|i: int| 0 <= i < k ==> f[i] == '*' ensures size(f.take(k)) == k decreases k {
    if k > 0 { let g = f.take(k).skip(1); let h = f.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies h[i] == '*' by { assert(h[i] == f[i + 1]); }
        size_run(h, k - 1); assert(g =~= h.take(k - 1)); assert(f.take(k)[0] == '*'); }
}
proof fn one(s: Seq<char>) requires s.len() > 0 ensures starts(s, utf8(s[0]), 1) { let t = s.take(1); assert(t[0] == s[0]); assert(t.skip(1).len() == 0); assert(size(t.skip(1)) == 0); }
'''
START = r'let ghost f0 = filter@; let ghost w0 = what@;'
LOOP = r'''invariant plain(what@), glob(filter@, what@) == glob(f0, w0), filter@.len() + what@.len() <= f0.len() + w0.len(), decreases filter@.len() + what@.len()'''
UNITS = [dict(
    name='filter', about='TagFilter: for patterns and texts of any length, matching decides exactly the pattern language, never slices inside a character, and ends; passes and reference_matches apply it to the path or the whole name',
    trusted=True, spec=SPEC, lemmas='',
    items=[
        Item(P, 'fn', 'filter_passes_raw', within=r'impl TagFilter\b', vis='', wrap=('impl TagFilter {\n', '\n}\n'), ret='r', attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ',
            rewrite=[(r'(\w+)\.chars\(\)\.next\(\)', r'first(\1)', 'assumed contract of str::chars().next()'),
                     (r'filter\.find\(\|(\w+)\| \1 != filter_first\)', 'find_other(filter, filter_first)', 'assumed contract of str::find'),
                     (r'&(\w+)\[([^\[\]]*)\.\.\]', r'from(\1, \2)', 'slicing, with its panic as a precondition'),
                     (r'(\w+)\.len_utf8\(\)', r'width(\1)', 'assumed contract of char::len_utf8'),
                     (r'(\w+)\.is_empty\(\)', r'empty(\1)', 'assumed contract of str::is_empty'),
                     (r'while let Some\((\w+)\) = (first\(\w+\)) \{', r'loop { let \1 = match \2 { Some(\1) => \1, None => break };', '`while let` written as `loop`')],
            spec='requires plain(what@) ensures r == glob(filter@, what@) decreases filter@.len() + what@.len()',
            start=START,
            loops=[dict(spec=LOOP, start=r'let ghost mut gs = filter@; let ghost fs = filter@; let ghost ws = what@; proof { if fs.len() > 0 { one(fs); assert(starts(fs, utf8(fs[0]), 1)); } if ws.len() > 0 { one(ws); } reveal_with_fuel(glob, 2); }'),
                   dict(spec=r'''invariant_except_break glob(gs, what@) == glob(f0, w0),
                        invariant gs.len() > 0, gs[0] == '*', filter@ == gs.skip(1), plain(what@), filter@.len() > 0, filter@[0] != '*', filter@.len() + what@.len() < f0.len() + w0.len(),
                        ensures !glob(f0, w0)
                        decreases what@.len()''',
                        start='''let ghost wi = what@; let ghost fi = filter@; proof { let g = gs; if wi.len() > 0 { one(wi); assert(glob(g, wi) == (glob(fi, wi) || glob(g, wi.skip(1)))); } }''')],
            at=[(r'let next_unsuccessive_asterisk =', 'before', "proof { if fs.len() > 0 && fs[0] == '*' && (forall|i: int| 0 <= i < fs.len() ==> fs[i] == '*') { all(fs, ws); } }"),
                (r'filter = from\(filter, next_unsuccessive_asterisk\);', 'before', "let ghost n0 = next_unsuccessive_asterisk as nat; proof { assert(exists|m: nat, k: int| #[trigger] starts(fs, m, k) && m == n0 + 1 && k < fs.len() && fs[k] != '*' && (forall|i: int| 0 <= i < k ==> fs[i] == '*')); } let ghost (m0, k0) = choose|m: nat, k: int| #[trigger] starts(fs, m, k) && m == n0 + 1 && k < fs.len() && fs[k] != '*' && (forall|i: int| 0 <= i < k ==> fs[i] == '*'); proof { assert(k0 >= 1); size_run(fs, k0); size_run(fs, k0 - 1); run(fs, ws, k0 - 1); assert(n0 == k0 - 1); assert(starts(fs, n0, k0 - 1)); }"),
                (r'filter = from\(filter, next_unsuccessive_asterisk\);', 'after', "proof { assert(filter@ == fs.skip(k0 - 1)); assert(filter@[0] == fs[k0 - 1] && filter@[1] == fs[k0]); one(filter@); gs = filter@; assert(glob(gs, ws) == glob(f0, w0)); }"),
                (r'if empty\(filter\)', 'before', "proof { assert(gs[0] == '*'); assert(filter@ == gs.skip(1)); }")]),
        Item(P, 'fn', 'passes', within=r'impl TagFilter\b', vis='', wrap=('impl TagFilter {\n', '\n}\n'), ret='r',
            rewrite=[(r'path\.group\(\) != n', '!same(path.group(), n)', 'assumed contract of == on groups'), (r'&path\.to_internal_path\(\)', 'internal(path)', 'assumed contract of to_internal_path'), (r'&self\.filter', 'slice(&self.filter)', 'deref of String')],
            spec='ensures r == selects(*self, *path)'),
        Item(P, 'fn', 'reference_matches', within=r'impl TagFilter\b', vis='', wrap=('impl TagFilter {\n', '\n}\n'), ret='r',
            rewrite=[(r'self\.group\.is_some_and\(\|(\w+)\| \1 != \*g\)', '(match self.group { Some(x) => !same(x, *g), None => false })', 'Option::is_some_and written out'), (r'&self\.filter, ""', 'slice(&self.filter), blank()', 'deref of String')],
            spec='ensures r == (match *reference { TagReference::Null(g) => (self.group is None || self.group == Some(g)) && glob(self.filter@, Seq::empty()), TagReference::Set(p) => selects(*self, p) })'),
    ])]
