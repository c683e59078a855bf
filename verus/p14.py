from extract import Item
D = 'src/ringhopper-primitives/src/primitive/data.rs'
SPEC = r'''
global size_of usize == 8;
pub type Pair = (usize, usize);
/// the texts between separators (at least one)
pub uninterp spec fn split(s: Seq<u8>, sep: u8) -> Seq<Seq<u8>>;
pub broadcast axiom fn split_some(s: Seq<u8>, sep: u8) ensures (#[trigger] split(s, sep)).len() >= 1;
/// decimal number that fits usize
pub uninterp spec fn number(s: Seq<u8>) -> Option<usize>;
pub open spec fn allowed(b: u8) -> bool { (48 <= b <= 57) || b == 44 || b == 45 || b == 101 || b == 42 }
/// `e` is the last index; otherwise a decimal number
pub open spec fn index_of(s: Seq<u8>, len: usize) -> Option<usize> { if s.contains(101u8) { if s == seq![101u8] { Some((len - 1) as usize) } else { None } } else { number(s) } }
/// one part of the list: none if malformed or out of bounds, Some(None) if it names nothing
pub open spec fn part(r: Seq<u8>, len: usize) -> Option<Option<Pair>> {
    if r.len() == 0 || r[0] == 45 || r[r.len() - 1] == 45 { None }
    else if r == seq![42u8] { if len == 0 { Some(None) } else { Some(Some((0usize, (len - 1) as usize))) } }
    else if len == 0 { None }
    else { let ps = split(r, 45);
        match (index_of(ps[0], len), if ps.len() > 1 { index_of(ps[1], len) } else { index_of(ps[0], len) }) {
            (Some(a), Some(b)) => if ps.len() > 2 || a > b || b >= len { None } else { Some(Some((a, b))) },
            _ => None } }
}
pub open spec fn valid(m: Seq<u8>, len: usize) -> bool { (forall|i: int| 0 <= i < m.len() ==> allowed(#[trigger] m[i])) && forall|i: int| 0 <= i < split(m, 44).len() ==> part(#[trigger] split(m, 44)[i], len) is Some }
pub open spec fn in_part(p: Option<Option<Pair>>, x: int) -> bool { p is Some && p->0 is Some && (p->0->0).0 <= x <= (p->0->0).1 }
/// whether the list selects index x
pub open spec fn selects(ps: Seq<Seq<u8>>, len: usize, x: int) -> bool { exists|i: int| 0 <= i < ps.len() && in_part(part(#[trigger] ps[i], len), x) }
pub open spec fn has(p: Pair, x: int) -> bool { p.0 <= x <= p.1 }
pub open spec fn covered(v: Seq<Pair>, x: int) -> bool { exists|i: int| 0 <= i < v.len() && has(#[trigger] v[i], x) }
pub open spec fn inside(v: Seq<Pair>, len: usize) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 <= v[i].1 < len }
pub open spec fn sorted(v: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 <= (#[trigger] v[j]).0 }
/// ascending, disjoint and not even adjacent
pub open spec fn apart(v: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 + 1 < (#[trigger] v[j]).0 }

// assumed contracts of the standard library
pub assume_specification [ u8::is_ascii_digit ] (b: &u8) -> (r: bool) ensures r == (48 <= *b <= 57);
#[verifier::external_body] pub struct Split<'a> { x: &'a [u8] }
impl<'a> Split<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<&'a [u8]>) ensures match r { None => old(self).left().len() == 0 && final(self).left() == old(self).left(), Some(x) => old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() == old(self).left().skip(1) } { unimplemented!() }
}
#[verifier::external_body] fn split_on<'a>(s: &'a [u8], sep: u8) -> (r: Split<'a>) ensures r.left() == split(s@, sep) { unimplemented!() }
#[verifier::external_body] fn contains(s: &[u8], c: u8) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
#[verifier::external_body] fn is_just(s: &[u8], c: u8) -> (r: bool) ensures r == (s@ == seq![c]) { unimplemented!() }
#[verifier::external_body] fn to_number(s: &[u8]) -> (r: Result<usize, &'static str>) ensures match r { Ok(n) => number(s@) == Some(n), Err(_) => number(s@) is None } { unimplemented!() }
#[verifier::external_body] fn dedup(v: &mut Vec<Pair>) ensures final(v)@.to_set() == old(v)@.to_set() { unimplemented!() }
#[verifier::external_body] fn sort_by_start(v: &mut Vec<Pair>) ensures final(v)@.to_set() == old(v)@.to_set(), sorted(final(v)@) { unimplemented!() }

proof fn same_set(a: Seq<Pair>, b: Seq<Pair>, len: usize) requires a.to_set() == b.to_set() ensures forall|x: int| covered(a, x) <==> covered(b, x), inside(a, len) ==> inside(b, len) {
    assert forall|x: int| covered(a, x) implies covered(b, x) by { let i = choose|i: int| 0 <= i < a.len() && has(#[trigger] a[i], x); assert(a.to_set().contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(has(b[j], x)); }
    assert forall|x: int| covered(b, x) implies covered(a, x) by { let i = choose|i: int| 0 <= i < b.len() && has(#[trigger] b[i], x); assert(b.to_set().contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(has(a[j], x)); }
    if inside(a, len) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 <= b[i].1 < len by { assert(b.to_set().contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].0 <= a[j].1 < len); } }
}
/// pair j joins pair i
proof fn join(v: Seq<Pair>, i: int, end: usize, j: int, w: Seq<Pair>, end2: usize, len: usize)
    requires 0 <= i < j < v.len(), sorted(v), inside(v, len), v[i].0 <= end < len, v[j].0 <= end + 1, end2 == (if v[j].1 > end { v[j].1 } else { end }), w == v.remove(j)
    ensures sorted(w), inside(w, len), w[i] == v[i], end2 < len, end <= end2, w.len() == v.len() - 1,
        forall|x: int| covered(w.update(i, (w[i].0, end2)), x) <==> covered(v.update(i, (v[i].0, end)), x) {
    let a = v.update(i, (v[i].0, end)); let b = w.update(i, (w[i].0, end2));
    assert(forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] == (if k < j { v[k] } else { v[k + 1] }));
    assert(v[i].0 <= v[j].0);
    assert forall|x: int| covered(a, x) implies covered(b, x) by { let k = choose|k: int| 0 <= k < a.len() && has(#[trigger] a[k], x);
        if k == i || k == j { assert(has(b[i], x)); } else if k < j { assert(b[k] == a[k]); } else { assert(b[k - 1] == a[k]); } }
    assert forall|x: int| covered(b, x) implies covered(a, x) by { let k = choose|k: int| 0 <= k < b.len() && has(#[trigger] b[k], x);
        if k == i { assert(has(a[i], x) || has(a[j], x)); } else if k < j { assert(a[k] == b[k]); } else { assert(a[k + 1] == b[k]); } }
}
'''
ALL = "exists|y: int| 0 <= y"
UNITS = [dict(name='ranges', about='parse_range: a list of indices and ranges is accepted exactly when every part is well formed and inside the array; the result selects exactly the indices named, each once, in ascending order; no overflow or out-of-bounds access for any text and length', trusted=True, spec=SPEC, items=[
    Item(D, 'fn', 'parse_range', vis='', attrs='#[verifier::loop_isolation(false)]\n', rewrite=[
            (r'-> Result<Vec<ReflexiveAccessRange>,', '-> Result<Vec<Pair>,', 'alias'),
            (r"matcher: &str", 'matcher_bytes: &[u8]', 'the text is given as its bytes'), (r'let matcher_bytes = matcher\.as_bytes\(\);', '', 'the text is given as its bytes'),
            (r'for &b in matcher_bytes \{', 'let mut q = 0; while q < matcher_bytes.len() { let b = matcher_bytes[q]; q += 1;', 'for over a slice spelled as while'),
            (r'matcher_bytes\.split\(\|b\| \*b == RANGE_SEPARATOR\)', 'split_on(matcher_bytes, RANGE_SEPARATOR)', 'assumed contract of slice::split'),
            (r'r\.split\(\|c\| \*c == START_END_SEPARATOR\)', 'split_on(r, START_END_SEPARATOR)', 'assumed contract of slice::split'),
            (r'let all_ranges', 'let mut all_ranges', 'for over an iterator spelled as loop'),
            (r'for r in all_ranges \{', 'while let Some(r) = all_ranges.next() {', 'for over an iterator spelled as while let'),
            (r'r == \[EVERYTHING\]', 'is_just(r, EVERYTHING)', 'comparison of a slice with an array of one'), (r'n == \[END\]', 'is_just(n, END)', 'comparison of a slice with an array of one'),
            (r'n\.contains\(&END\)', 'contains(n, END)', 'assumed contract of slice::contains'),
            (r'std::str::from_utf8\(n\)\.unwrap\(\)\.parse\(\)\.map_err\(\|_\| "cannot parse number"\)', 'to_number(n)', 'assumed contract of str::parse'),
            (r"\|n: &\[u8\]\| -> Result<usize, &'static str> \{", r"|n: &[u8]| -> (z: Result<usize, &'static str>) requires len > 0 ensures match z { Ok(y) => index_of(n@, len) == Some(y), Err(_) => index_of(n@, len) is None } {", 'contract of the closure'),
            (r'numbers\.next\(\)\.map\(range_to_number\)\.unwrap_or\(Ok\(first\)\)\?', '(match numbers.next() { Some(n) => range_to_number(n), None => Ok(first) })?', 'Option::map and unwrap_or spelled out'),
            (r'returned_ranges\.dedup\(\)', 'dedup(&mut returned_ranges)', 'assumed contract of Vec::dedup'),
            (r'returned_ranges\.sort_by\(\|\(start1, _\), \(start2, _\)\| start1\.cmp\(start2\)\)', 'sort_by_start(&mut returned_ranges)', 'assumed contract of slice::sort_by with this order'),
            (r'\*&returned_ranges\[i\]\.1', 'returned_ranges[i].1', '*& dropped'),
            (r'let &\(start_inner, end_inner\) = &returned_ranges\[j\];', 'let (start_inner, end_inner) = returned_ranges[j];', 'pattern without reference'),
            (r'for j in i\+1\.\.returned_ranges\.len\(\) \{', 'let mut j = i+1; while j < returned_ranges.len() {', 'for over a range spelled as while'),
            (r'end\.max\(end_inner\)', 'if end_inner > end { end_inner } else { end }', 'Ord::max spelled out'),
            (r"as u8;", ";", 'literal'), (r"= ',' ", "= 44u8", 'literal'), (r"= '-' ", "= 45u8", 'literal'), (r"= '\*' ", "= 42u8", 'literal'), (r"= 'e' ", "= 101u8", 'literal'),
            (r'let mut returned_ranges = Vec::new\(\);', 'let mut returned_ranges: Vec<Pair> = Vec::new();', 'type'),
        ],
        spec="""ensures match r { Ok(v) => valid(matcher_bytes@, len) && inside(v@, len) && apart(v@) && forall|x: int| #[trigger] covered(v@, x) <==> selects(split(matcher_bytes@, 44), len, x), Err(_) => !valid(matcher_bytes@, len) }""", ret='r',
        start='broadcast use split_some;',
        at=[(r'let mut returned_ranges', 'before', 'let ghost ps = all_ranges.left(); let ghost mut k: int = 0;'),
            (r'if r\.is_empty', 'before', 'let ghost rr = r@; proof { assert(ps.skip(k)[0] == ps[k]); assert(ps.skip(k).skip(1) =~= ps.skip(k + 1)); k = k + 1; }'),
            (r'continue;', 'before', """proof { assert forall|x: int| selects(ps.take(k), len, x) implies selects(ps.take(k - 1), len, x) by { let y = choose|y: int| 0 <= y < k && in_part(part(#[trigger] ps.take(k)[y], len), x); assert(ps.take(k - 1)[y] == ps.take(k)[y]); }
                assert forall|x: int| selects(ps.take(k - 1), len, x) implies selects(ps.take(k), len, x) by { let y = choose|y: int| 0 <= y < k - 1 && in_part(part(#[trigger] ps.take(k - 1)[y], len), x); assert(ps.take(k - 1)[y] == ps.take(k)[y]); } }"""),
            (r'returned_ranges\.push', 'before', 'let ghost v0 = returned_ranges@; assert(part(rr, len) == Some(Some((first, end))));'),
            (r'dedup\(&mut', 'before', 'let ghost u0 = returned_ranges@; proof { assert(ps.take(k) =~= ps); }'),
            (r'let mut i = 0;', 'before', 'proof { same_set(u0, returned_ranges@, len); }'),
            (r'let mut end = [^;]*;', 'after', 'let ghost n0 = returned_ranges.len(); proof { assert(returned_ranges@.update(i as int, (returned_ranges@[i as int].0, end)) =~= returned_ranges@); }'),
            (r'let mut j = i', 'before', 'let ghost vs = returned_ranges@; let ghost es = end;'),
            (r'returned_ranges\.remove', 'before', 'let ghost vb = returned_ranges@; let ghost eb = e0;'),
            (r'continue .remove', 'before', 'proof { join(vb, i as int, eb, j as int, returned_ranges@, end, len); }'),
            (r'end = if end_inner', 'before', 'let ghost e0 = end;'),
            (r'returned_ranges\[i\]\.1 = end', 'before', 'let ghost wb = returned_ranges@;'),
            (r'Ok\(returned_ranges\)', 'before', 'proof { assert forall|x: int| #[trigger] covered(returned_ranges@, x) <==> selects(ps, len, x) by { assert(covered(returned_ranges@, x) <==> covered(u0, x)); assert(covered(u0, x) <==> selects(ps, len, x)); } }'),
            (r'i \+= 1', 'before', """proof { assert(returned_ranges@ =~= wb.update(i as int, (wb[i as int].0, end))); }"""),
            ],
        loops=[dict(spec='invariant q <= matcher_bytes.len(), forall|z: int| 0 <= z < q ==> allowed(#[trigger] matcher_bytes@[z]), decreases matcher_bytes.len() - q'),
            dict(spec="""invariant 0 <= k <= ps.len(), ps == split(matcher_bytes@, 44), all_ranges.left() == ps.skip(k), inside(returned_ranges@, len), forall|z: int| 0 <= z < matcher_bytes@.len() ==> allowed(#[trigger] matcher_bytes@[z]),
                    forall|z: int| 0 <= z < k ==> part(#[trigger] ps[z], len) is Some,
                    forall|x: int| covered(returned_ranges@, x) <==> selects(ps.take(k), len, x),
                    RANGE_SEPARATOR == 44, START_END_SEPARATOR == 45, EVERYTHING == 42, END == 101,
                decreases ps.len() - k""",
                end="""proof { let v1 = returned_ranges@; let (a, b) = v1.last();
                    assert(forall|z: int| 0 <= z < v0.len() ==> v1[z] == v0[z]);
                    assert forall|x: int| covered(v1, x) implies selects(ps.take(k), len, x) by { let y = choose|y: int| 0 <= y < v1.len() && has(#[trigger] v1[y], x);
                        if y < v0.len() { assert(has(v0[y], x)); assert(covered(v0, x)); let z = choose|z: int| 0 <= z < k - 1 && in_part(part(#[trigger] ps.take(k - 1)[z], len), x); assert(ps.take(k)[z] == ps.take(k - 1)[z]); } else { assert(ps.take(k)[k - 1] == ps[k - 1]); assert(in_part(part(ps.take(k)[k - 1], len), x)); } }
                    assert forall|x: int| selects(ps.take(k), len, x) implies covered(v1, x) by { let z = choose|z: int| 0 <= z < k && in_part(part(#[trigger] ps.take(k)[z], len), x);
                        if z < k - 1 { assert(ps.take(k - 1)[z] == ps.take(k)[z]); assert(covered(v0, x)); let y = choose|y: int| 0 <= y < v0.len() && has(#[trigger] v0[y], x); assert(v1[y] == v0[y]); } else { assert(has(v1[v1.len() - 1], x)); } }
                    }"""),
            dict(spec="""invariant i <= returned_ranges.len(), sorted(returned_ranges@), inside(returned_ranges@, len), forall|x: int| covered(returned_ranges@, x) <==> covered(u0, x),
                    forall|a: int, b: int| 0 <= a < b < returned_ranges.len() && a < i ==> (#[trigger] returned_ranges@[a]).1 + 1 < (#[trigger] returned_ranges@[b]).0,
                decreases returned_ranges.len() - i"""),
            dict(spec="""invariant i < returned_ranges.len() <= n0, sorted(returned_ranges@), inside(returned_ranges@, len), returned_ranges@[i as int].0 <= end < len,
                    forall|x: int| covered(returned_ranges@.update(i as int, (returned_ranges@[i as int].0, end)), x) <==> covered(u0, x),
                    forall|a: int, b: int| 0 <= a < b < returned_ranges.len() && a < i ==> (#[trigger] returned_ranges@[a]).1 + 1 < (#[trigger] returned_ranges@[b]).0,
                decreases returned_ranges.len()""", ),
            dict(spec="""invariant returned_ranges@ == vs, end == es, i < j <= returned_ranges.len(), sorted(returned_ranges@), inside(returned_ranges@, len), returned_ranges@[i as int].0 <= end < len,
                    forall|x: int| covered(returned_ranges@.update(i as int, (returned_ranges@[i as int].0, end)), x) <==> covered(u0, x),
                    forall|a: int, b: int| 0 <= a < b < returned_ranges.len() && a < i ==> (#[trigger] returned_ranges@[a]).1 + 1 < (#[trigger] returned_ranges@[b]).0,
                    forall|b: int| i < b < j ==> end + 1 < (#[trigger] returned_ranges@[b]).0,
                decreases returned_ranges.len() - j""", end='j += 1;'),
        ]),
])]
