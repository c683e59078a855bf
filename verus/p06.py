from extract import Item
P = 'src/ringhopper-primitives/src/primitive/path.rs'
SPEC = '''
#[verifier::external_body] pub struct TagGroup;
pub enum Error { InvalidTagPath, Other }
type RinghopperResult<T> = Result<T, Error>;
pub struct TagPath { pub path: String, pub group: TagGroup }

pub open spec fn sep(c: char) -> bool { c == '/' || c == '\\\\' }
pub open spec fn control(c: char) -> bool { (c as u32) < 32 || c as u32 == 127 }
pub open spec fn bad(c: char) -> bool { c == ':' || c == '*' || c == '?' || c == '"' || c == '<' || c == '>' || c == '|' || control(c) }
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32) as char } else { c } }
/// the stored form of a text: lower case, one separator character, no repeated separators; none if it has a character no path may have
pub open spec fn norm(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { match norm(s.drop_last()) {
        None => None,
        Some(o) => { let c = s.last();
            if sep(c) { if o.len() > 0 && o.last() == '\\\\' { Some(o) } else { Some(o.push('\\\\')) } }
            else if bad(c) { None } else { Some(o.push(lower(c))) } } } }
}
pub open spec fn rooted(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '\\\\' }
/// whether some component ends with a dot or is a reserved device name (decided by execution, see p06.rs)
pub uninterp spec fn bad_component(s: Seq<char>) -> bool;

// assumed contracts of the standard library (each is executed on every character by the native contracts)
pub assume_specification [ std::path::is_separator ] (c: char) -> (r: bool) ensures r == (c == '/');
pub assume_specification [ char::is_ascii_control ] (c: &char) -> (r: bool) ensures r == control(*c);
pub assume_specification [ char::to_ascii_lowercase ] (c: &char) -> (r: char) ensures r == lower(*c);
pub assume_specification [ std::string::String::with_capacity ] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
#[verifier::external_body] fn starts_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] fn has_bad_component(s: &String) -> (r: bool) ensures r == bad_component(s@) { unimplemented!() }
#[verifier::external_body] fn owned(s: String) -> (r: String) ensures r@ == s@ { unimplemented!() }

proof fn norm_prefix(s: Seq<char>, n: int) requires 0 <= n <= s.len(), norm(s.take(n)) is None ensures norm(s) is None decreases s.len() - n {
    if n == s.len() { assert(s.take(n) =~= s); } else { assert(s.take(n + 1).drop_last() =~= s.take(n)); norm_prefix(s, n + 1); }
}
'''
LEMMAS = '''
pub open spec fn clean(o: Seq<char>) -> bool {
    (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) != '/' && !bad(o[i]) && lower(o[i]) == o[i])
    && (forall|i: int| 0 < i < o.len() ==> !((#[trigger] o[i]) == '\\\\' && o[i - 1] == '\\\\'))
}
/// a stored path has no upper case, no character a file name cannot have, no native separators and no empty components
proof fn norm_clean(s: Seq<char>) ensures norm(s) is Some ==> clean(norm(s)->0) decreases s.len() {
    if s.len() > 0 {
        norm_clean(s.drop_last());
        if norm(s) is Some { let o = norm(s.drop_last())->0; let c = s.last(); assert(clean(o));
            let n = norm(s)->0;
            if n != o { assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]) != '/' && !bad(n[i]) && lower(n[i]) == n[i] by { if i < o.len() { assert(n[i] == o[i]); } }
                assert forall|i: int| 0 < i < n.len() implies !((#[trigger] n[i]) == '\\\\' && n[i - 1] == '\\\\') by { if i < o.len() { assert(n[i] == o[i] && n[i - 1] == o[i - 1]); } } }
        }
    }
}
proof fn clean_norm(o: Seq<char>) requires clean(o) ensures norm(o) == Some(o) decreases o.len() {
    if o.len() == 0 { assert(o =~= Seq::empty()); } else {
        let d = o.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) != '/' && !bad(d[i]) && lower(d[i]) == d[i] by { assert(d[i] == o[i]); }
        assert forall|i: int| 0 < i < d.len() implies !((#[trigger] d[i]) == '\\\\' && d[i - 1] == '\\\\') by { assert(d[i] == o[i] && d[i - 1] == o[i - 1]); }
        clean_norm(d);
        assert(o =~= d.push(o.last()));
        assert(o.last() == o[o.len() - 1]);
    }
}
/// normalising twice changes nothing
proof fn norm_idempotent(s: Seq<char>) requires norm(s) is Some ensures norm(norm(s)->0) == norm(s) { norm_clean(s); clean_norm(norm(s)->0); }
'''
UNITS = [dict(
    name='normalise', about='TagPath::new for text of any length: accepted text gives norm(text), which is clean (lemma norm_clean), its own normal form (norm_idempotent), not rooted; text is rejected exactly when norm is undefined, the result is rooted, or a component is bad',
    trusted=True, uses='use vstd::std_specs::iter::IteratorSpec;', spec=SPEC, lemmas=LEMMAS,
    items=[
        Item(P, 'const', 'HALO_PATH_SEPARATOR'),
        Item(P, 'fn', 'new', within=r'impl TagPath\b', vis='', wrap=('impl TagPath {\n', '\n}\n'),
            rewrite=[(r'for (\w+) in (path\.chars\(\)) \{', r'let mut it = \2; let ghost mut k: int = 0; loop { let \1 = match it.next() { Some(\1) => \1, None => break }; proof { k = k + 1; assert(path@.take(k).drop_last() =~= path@.take(k - 1)); assert(path@.take(k).last() == \1); }', 'the desugared `for` (Verus has no `continue` in `for`), with a ghost counter'),
                     (r'(?s)const BANNED_DIRECTORY_NAMES.*?\];', '', 'the reserved names are decided by execution'),
                     (r'path_fixed\.split\(HALO_PATH_SEPARATOR\)\.any\([^{]*\) \{', 'has_bad_component(&path_fixed) {', 'component test: an assumed, uninterpreted predicate; decided by execution'),
                     (r'path_fixed\.starts_with\(HALO_PATH_SEPARATOR\)', 'starts_with(&path_fixed, HALO_PATH_SEPARATOR)', 'assumed contract of str::starts_with'),
                     (r'path_fixed\.to_owned\(\)', 'owned(path_fixed)', 'assumed contract of ToOwned')],
            spec=r'''ensures
                match r {
                    Ok(p) => norm(path@) == Some(p.path@) && !rooted(p.path@) && !bad_component(p.path@) && p.group == group,
                    Err(_) => match norm(path@) { None => true, Some(o) => rooted(o) || bad_component(o) } },''',
            loops=[dict(spec=r"""invariant_except_break
                0 <= k <= path@.len(), it.remaining() =~= path@.skip(k), norm(path@.take(k)) == Some(path_fixed@),
                last_char == (if path_fixed@.len() == 0 { '\0' } else { path_fixed@.last() }),
                ensures norm(path@) == Some(path_fixed@)
                decreases path@.len() - k""",
                start="proof { if k == path@.len() { assert(path@.take(k) =~= path@); } if norm(path@.take(k + 1)) is None && k < path@.len() { norm_prefix(path@, k + 1); } }")]),
    ])]
