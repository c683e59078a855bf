from extract import Item
S = 'src/ringhopper-primitives/src/primitive/string.rs'
ISO = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] '
FIXED = r'''
global size_of usize == 8;
#[derive(Debug)]
pub enum Error { String32SizeLimitExceeded }
type RinghopperResult<T> = Result<T, Error>;
/// text, as its UTF-8 bytes
#[verifier::external_body] pub struct Text;
impl Text { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= usize::MAX { unimplemented!() } }
#[derive(Clone, Copy)] pub struct String32 { string_data: [u8; 32] }
pub open spec fn padded(s: Seq<u8>) -> Seq<u8> { Seq::new(32, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
/// the bytes up to the first NUL, at most 31
pub open spec fn upto(s: Seq<u8>, n: int) -> bool { 0 <= n <= 31 && n <= s.len() && (forall|i: int| 0 <= i < n ==> s[i] != 0) && (n == 31 || s[n] == 0) }
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub uninterp spec fn mended(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] fn zeros() -> (r: String32) ensures r.string_data@ == padded(seq![]) { unimplemented!() }
#[verifier::external_body] fn copy_to(a: &mut [u8; 32], n: usize, b: &[u8]) requires n <= 32, b@.len() == n ensures final(a)@ =~= b@ + old(a)@.skip(n as int) { unimplemented!() }
#[verifier::external_body] fn clear_from(a: &mut [u8; 32], n: usize) requires n <= 32 ensures final(a)@ =~= old(a)@.take(n as int) + Seq::new((32 - n) as nat, |i: int| 0u8) { unimplemented!() }
/// lossy decoding of the text before the first NUL: None when it is UTF-8; else what replaces it, which is no longer
#[verifier::external_body] fn decode_until_nul(a: &[u8; 32]) -> (r: Option<Text>) requires exists|i: int| 0 <= i < 32 && a@[i] == 0
    ensures forall|n: int| upto(a@, n) && a@[n] == 0 ==> (match r { None => utf8(a@.take(n)), Some(t) => !utf8(a@.take(n)) && t@ == mended(a@.take(n)) && t@.len() <= n }) { unimplemented!() }
'''
CLEAN = r'''
global size_of usize == 8;
#[verifier::external_body] fn ascii_control(c: char) -> (r: bool) ensures r == control(c) { unimplemented!() }
pub open spec fn control(c: char) -> bool { (c as u32) < 32 || (c as u32) == 127 }
/// what text becomes: LF is CR LF; other control characters than tabs are dropped
pub open spec fn piece(c: char) -> Seq<char> { if c == '\n' { seq!['\r', '\n'] } else if c != '\t' && control(c) { seq![] } else { seq![c] } }
pub open spec fn clean(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { clean(s.drop_last()) + piece(s.last()) } }
/// line ends are CR LF, and there are no other control characters than tabs
pub open spec fn fits(s: Seq<char>, i: int) -> bool { if s[i] == '\n' { i > 0 && s[i - 1] == '\r' } else if s[i] == '\r' { i + 1 < s.len() && s[i + 1] == '\n' } else { s[i] == '\t' || !control(s[i]) } }
pub open spec fn tidy(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] fits(s, i) }
pub open spec fn pending(s: Seq<char>, i: int) -> bool { 0 < i < s.len() && s[i - 1] == '\r' && s[i] == '\n' }
proof fn same(s: Seq<char>) requires tidy(s) ensures clean(s) == s { same_upto(s, s.len() as int); assert(s.take(s.len() as int) =~= s); if pending(s, s.len() as int) { } }
proof fn same_upto(s: Seq<char>, n: int) requires tidy(s), 0 <= n <= s.len() ensures s.take(n) == clean(s.take(n)) + (if pending(s, n) { seq!['\r'] } else { seq![] }) decreases n
{ if n > 0 { same_upto(s, n - 1); step(s, n - 1); assert(fits(s, n - 1)); let c = s[n - 1]; let a = clean(s.take(n - 1)); assert(s.take(n) =~= s.take(n - 1).push(c));
    if c == '\n' { assert(fits(s, n - 2)); assert(a + seq!['\r', '\n'] =~= (a + seq!['\r']).push(c)); } else if c == '\r' { assert(a + Seq::<char>::empty() =~= a); assert(a + seq!['\r'] =~= a.push(c)); assert(!pending(s, n - 1)); assert(pending(s, n)); } else { assert(a + Seq::<char>::empty() =~= a); assert(a + seq![c] =~= a.push(c)); assert(clean(s.take(n)) + Seq::<char>::empty() =~= clean(s.take(n))); }
  } else { assert(s.take(0) =~= Seq::<char>::empty()); assert(clean(s.take(0)) + Seq::<char>::empty() =~= s.take(0)); } }
pub open spec fn fine(s: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] fits(s, i) }
proof fn one_more(s: Seq<char>, n: int) requires 0 <= n ensures fine(s, n + 1) == (fine(s, n) && fits(s, n)) { }
proof fn step(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures clean(s.take(i + 1)) == clean(s.take(i)) + piece(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
'''
UNITS = [dict(
    name='fixed', about='String32: text of up to 31 bytes is kept and padded, longer text refused; of any 32 bytes, the text up to the first NUL (at most 31 bytes) is kept, mended where it is no UTF-8, and nothing after it stays',
    trusted=True, spec=FIXED, lemmas='',
    items=[Item(S, 'fn', 'strlen(bytes', vis='', ret='r', attrs=ISO, rewrite=[(r'for i in 0\.\.bytes\.len\(\) \{', 'let mut next_i = 0usize; while next_i < bytes.len() { let i = next_i; next_i += 1;', '`for` written as `while`')],
            spec='ensures r <= 32, forall|i: int| 0 <= i < r ==> bytes@[i] != 0, r < 32 ==> bytes@[r as int] == 0',
            loops=[dict(spec='invariant_except_break next_i <= 32, forall|i: int| 0 <= i < next_i ==> bytes@[i] != 0 ensures next_i == 32, forall|i: int| 0 <= i < 32 ==> bytes@[i] != 0 decreases 32 - next_i')]),
        Item(S, 'fn', 'from_str', within='impl String32', wrap=('impl String32 {', '}'), ret='r', rewrite=[(r'str: &str', 'str: &Text', 'text as its bytes'), (r'String32::default\(\)', 'zeros()', 'derived default as a function'), (r'output\.string_data\[0\.\.(\w+)\]\.copy_from_slice\((\w+)\);', r'copy_to(&mut output.string_data, \1, \2);', 'slice copy as a function')],
            spec='ensures r is Ok <==> str@.len() <= 31, r is Ok ==> r->Ok_0.string_data@ == padded(str@)', vis='', at=[(r'Ok\(output\)', 'before', 'proof { assert(output.string_data@ =~= padded(str@)); }')]),
        Item(S, 'fn', 'from_bytes_lossy', within='impl String32', wrap=('impl String32 {', '}'), ret='r', vis='', rewrite=[(r'use std::borrow::Cow;', '', 'import'), (r'string_data\.split_at_mut\((\w+)\)\.1\.fill\(0\);', r'clear_from(&mut string_data, \1);', 'slice fill as a function'),
                (r'let cstr = std::ffi::CStr::from_bytes_until_nul\(&string_data\)\.unwrap\(\);\s*match cstr\.to_string_lossy\(\) \{', 'let ghost n = len as int; match decode_until_nul(&string_data) {', 'decoding as a function'),
                (r'Cow::Borrowed\(_\)', 'None', 'decoding as a function'), (r"Cow::Owned\(n\) => String32::from_str\(&n\.replace\(char::REPLACEMENT_CHARACTER, \"_\"\)\)", 'Some(t) => String32::from_str(&t)', 'decoding as a function')],
            spec='ensures exists|n: int| upto(bytes@, n) && (if utf8(bytes@.take(n)) { r.string_data@ == padded(bytes@.take(n)) } else { r.string_data@ == padded(mended(bytes@.take(n))) && mended(bytes@.take(n)).len() <= n })',
            at=[(r'match decode_until_nul', 'before', 'proof { assert(upto(bytes@, n)); assert(string_data@[n] == 0); assert(string_data@.take(n) =~= bytes@.take(n)); assert(string_data@ =~= padded(bytes@.take(n))); assert(upto(string_data@, n)); }')]),
    ]),
    dict(name='cleaning', about='UTF16String: the text given is the decoded text with CR LF line ends and without other control characters than tabs, and it is accepted exactly when that changes nothing (and decoding found no damage)',
    trusted=True, spec=CLEAN, lemmas='',
    items=[Item(S, 'fn', 'try_parse', within='impl UTF16String', vis='', ret='r', attrs=ISO, rewrite=[
            (r'fn \w+\(&self\) -> VerifiedString \{[\s\S]*?let mut filtered_string = String::with_capacity\(string\.len\(\)\);\s*let mut iterator = string\.chars\(\)\.peekable\(\);', 'fn clean_text(string: &Vec<char>, damaged: bool) -> (Vec<char>, bool) { let mut corrupted = damaged; let mut filtered_string: Vec<char> = Vec::new(); let mut position = 0usize;', 'only the part after decoding; text as its characters'),
            (r'let mut last_character = None;', 'let mut last_character: Option<char> = None;', 'type written out'),
            (r'while let Some\(n\) = iterator\.next\(\) \{\s*let afterwards = iterator\.peek\(\)\.map\(\|&p\| p\);', "while position < string.len() { let ghost at = position as int; let n = string[position]; position += 1; let afterwards = if position < string.len() { Some(string[position]) } else { None }; proof { step(string@, at); one_more(string@, at); let a = clean(string@.take(at)); assert(a + seq!['\\\\r', '\\\\n'] =~= (a + seq!['\\\\r']).push('\\\\n')); assert(a + seq![n] =~= a.push(n)); assert(a + Seq::<char>::empty() =~= a); assert(clean(string@.take(at + 1)) + Seq::<char>::empty() =~= clean(string@.take(at + 1))); assert(a.push('\\\\r').push('\\\\n') =~= a + seq!['\\\\r', '\\\\n']); }", 'peekable iteration written as indexing'),
            (r"n\.is_ascii_control\(\)", 'ascii_control(n)', 'standard library function'), (r'let result = VerifiedString \{\s*data: Arc::new\(filtered_string\),\s*corrupt: corrupted,?\s*\};\s*\*lock = Some\(result\.clone\(\)\);\s*result', '(filtered_string, corrupted)', 'the result without its cache'),
            (r"if (last_character|afterwards) != Some\('(\\[rn])'\)", r"if !matches!(\1, Some('\2'))", 'comparison of options written as a match')],
            spec='ensures r.0@ == clean(string@), r.1 == (damaged || !tidy(string@))',
            loops=[dict(spec='''invariant position <= string@.len(), filtered_string@ == clean(string@.take(position as int)) + (if pending(string@, position as int) { seq!['\\r'] } else { seq![] }), last_character == Some('\\r') <==> pending(string@, position as int),
                    corrupted == (damaged || !fine(string@, position as int)) decreases string@.len() - position''', after="proof { assert(string@.take(position as int) =~= string@); assert(clean(string@) + Seq::<char>::empty() =~= clean(string@)); }")],
            start="proof { assert(string@.take(0) =~= Seq::<char>::empty()); assert(clean(string@.take(0)) + Seq::<char>::empty() =~= Seq::<char>::empty()); }")])]
