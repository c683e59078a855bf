from extract import Item
S = 'src/ringhopper/src/tag/verify/sound.rs'
B = 'src/ringhopper/src/tag/verify/scenario_structure_bsp.rs'
ISO = '#[verifier::loop_isolation(false)] '
REPORT = [(r'(?:verify_result|result)\.errors\.push\([\s\S]*?\);', 'result.error();', 'message text is not under contract: an error is counted'),
          (r'result\.warnings\.push\([\s\S]*?\);', '', 'warnings are not under contract')]
BASE = r'''
global size_of usize == 8;
pub struct Reflexive<T> { pub items: Vec<T> }
impl<T> Reflexive<T> { fn len(&self) -> (r: usize) ensures r == self.items@.len() { self.items.len() } }
/// the number of errors reported
pub struct TagResult { pub errors: Ghost<nat> }
impl TagResult { #[verifier::external_body] fn error(&mut self) ensures final(self).errors@ == old(self).errors@ + 1 { unimplemented!() } }
'''
SOUND = BASE + r'''
pub struct SoundPermutation { pub next_permutation_index: Option<u16>, pub rest: u64 }
pub struct SoundPitchRange { pub actual_permutation_count: u16, pub permutations: Reflexive<SoundPermutation>, pub rest: u64 }
pub struct SoundFlags { pub split_long_sound_into_permutations: bool }
pub struct Sound { pub flags: SoundFlags, pub pitch_ranges: Reflexive<SoundPitchRange>, pub rest: u64 }
/// the permutation this one goes on with
pub open spec fn goes_on(p: SoundPermutation) -> Option<u16> { match p.next_permutation_index { Some(n) => if n == 0 { None } else { Some(n) }, None => None } }
pub open spec fn any_goes_on(p: SoundPitchRange, upto: int) -> bool { exists|k: int| 0 <= k < upto && #[trigger] goes_on(p.permutations.items@[k]) is Some }
pub open spec fn splits(s: Sound) -> bool { s.flags.split_long_sound_into_permutations || exists|k: int| 0 <= k < s.pitch_ranges.items@.len() && any_goes_on(#[trigger] s.pitch_ranges.items@[k], s.pitch_ranges.items@[k].permutations.items@.len() as int) }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
/// the number of permutations that begin a sound: those before the first that is gone on with
pub open spec fn lowest(p: Seq<SoundPermutation>, upto: int) -> int decreases upto { if upto <= 0 { least(p.len() as int, 65535) } else { match goes_on(p[upto - 1]) { Some(n) => least(lowest(p, upto - 1), n as int), None => lowest(p, upto - 1) } } }
pub open spec fn beginnings(s: Sound, p: SoundPitchRange) -> int { if splits(s) { lowest(p.permutations.items@, p.permutations.items@.len() as int) } else { least(p.permutations.items@.len() as int, 65535) } }
/// where the sound that begins with permutation `from` is after `k` steps: none if it has ended or left the pitch range
pub open spec fn walk(p: Seq<SoundPermutation>, from: int, k: int) -> Option<int> decreases k {
    if k <= 0 { Some(from) } else { match walk(p, from, k - 1) { Some(i) => if 0 <= i < p.len() { match goes_on(p[i]) { Some(n) => Some(n as int), None => None } } else { None }, None => None } } }
/// it ends on a permutation of the pitch range before it has been through more permutations than there are
pub open spec fn ends_at(p: Seq<SoundPermutation>, from: int, k: int) -> bool { 0 <= k < p.len() && match walk(p, from, k) { Some(i) => 0 <= i < p.len() && goes_on(p[i]) is None, None => false } }
pub open spec fn ends(p: Seq<SoundPermutation>, from: int) -> bool { exists|k: int| #[trigger] ends_at(p, from, k) }
pub open spec fn chain_bad(p: Seq<SoundPermutation>, count: int) -> bool { exists|i: int| 0 <= i < count && !#[trigger] ends(p, i) }
pub open spec fn range_bad(s: Sound, p: SoundPitchRange) -> bool { chain_bad(p.permutations.items@, beginnings(s, p)) }
pub open spec fn range_odd(p: SoundPitchRange, upto: int) -> bool { exists|k: int| 0 <= k < upto && (#[trigger] p.permutations.items@[k]).next_permutation_index == Some(0u16) }
pub open spec fn odd_at(p: SoundPitchRange) -> bool { p.actual_permutation_count == 0 && p.permutations.items@.len() == 0 || range_odd(p, p.permutations.items@.len() as int) }
pub open spec fn odd(s: Sound, upto: int) -> bool { exists|k: int| 0 <= k < upto && odd_at(#[trigger] s.pitch_ranges.items@[k]) }
pub open spec fn chains_bad(s: Sound, upto: int) -> bool { exists|k: int| 0 <= k < upto && range_bad(s, #[trigger] s.pitch_ranges.items@[k]) }
'''
SOUND_LEMMAS = r'''
proof fn more(p: Seq<SoundPermutation>, n: int) requires n >= 0 ensures chain_bad(p, n + 1) == (chain_bad(p, n) || !ends(p, n))
{ if chain_bad(p, n) { let i = choose|i: int| 0 <= i < n && !#[trigger] ends(p, i); assert(0 <= i < n + 1 && !ends(p, i)); } if !ends(p, n) { assert(0 <= n < n + 1 && !ends(p, n)); } }
/// the number of beginnings is that of permutations at most, and is not more than any permutation gone on with
proof fn lowest_bounds(p: Seq<SoundPermutation>, upto: int) requires 0 <= upto <= p.len()
    ensures 0 <= lowest(p, upto) <= least(p.len() as int, 65535), forall|k: int| 0 <= k < upto && #[trigger] goes_on(p[k]) is Some ==> lowest(p, upto) <= goes_on(p[k])->Some_0 decreases upto
{ if upto > 0 { lowest_bounds(p, upto - 1) } }
/// once a walk has ended or left it does not come back
proof fn gone(p: Seq<SoundPermutation>, from: int, a: int, b: int) requires 0 <= a <= b, walk(p, from, a) is None ensures walk(p, from, b) is None decreases b - a
{ if a < b { gone(p, from, a, b - 1) } }
/// one that leaves the pitch range, or is still going after as many steps as there are permutations, does not end
proof fn left(p: Seq<SoundPermutation>, from: int, k: int) requires 0 <= k, walk(p, from, k) is Some, forall|j: int| 0 <= j < k ==> (#[trigger] walk(p, from, j)) is Some && 0 <= walk(p, from, j)->Some_0 < p.len() && goes_on(p[walk(p, from, j)->Some_0]) is Some,
        k >= p.len() || !(0 <= walk(p, from, k)->Some_0 < p.len())
    ensures !ends(p, from)
{ assert forall|j: int| !#[trigger] ends_at(p, from, j) by { if ends_at(p, from, j) { if j < k { assert(walk(p, from, j) is Some); } else if j > k { assert(walk(p, from, k + 1) is None); gone(p, from, k + 1, j); } } } }
'''
def WHILE(v, of, seq, label='', name=None):
    n = name or v
    return (rf'for {v} in {of} \{{', f'let mut n_{n} = 0usize; while n_{n} < {seq}.len() {{ let {v} = &{seq}[n_{n}]; n_{n} += 1;', '`for` over a list written as `while`')
UNITS = [
 dict(name='sound_permutations', about='which permutations begin a sound, and that an error is reported exactly when one of them leads out of its pitch range or never ends',
  spec=SOUND, lemmas=SOUND_LEMMAS, rlimit=60, trusted=True,
  items=[
   Item(S, 'fn', 'next_subpermutation_index', spec='ensures r == goes_on(*permutation)', ret='r'),
   Item(S, 'fn', 'sound_tag_actually_contains_split_permutations', ret='r', spec='ensures r == splits(*sound)', attrs=ISO,
     rewrite=[WHILE('pitch_range', '&sound.pitch_ranges', 'sound.pitch_ranges.items'), WHILE('permutation', '&pitch_range.permutations', 'pitch_range.permutations.items'), (r'next_subpermutation_index\(&permutation\)', 'next_subpermutation_index(permutation)', 'a borrow of a borrow')],
     loops=[dict(spec='invariant 0 <= n_pitch_range <= sound.pitch_ranges.items@.len(), !sound.flags.split_long_sound_into_permutations, forall|k: int| 0 <= k < n_pitch_range ==> !any_goes_on(#[trigger] sound.pitch_ranges.items@[k], sound.pitch_ranges.items@[k].permutations.items@.len() as int) decreases sound.pitch_ranges.items@.len() - n_pitch_range', end='assert(!any_goes_on(sound.pitch_ranges.items@[n_pitch_range - 1], pitch_range.permutations.items@.len() as int));'),
            dict(spec='invariant 0 <= n_permutation <= pitch_range.permutations.items@.len(), 0 < n_pitch_range <= sound.pitch_ranges.items@.len(), *pitch_range == sound.pitch_ranges.items@[n_pitch_range - 1], forall|k: int| 0 <= k < n_permutation ==> !(#[trigger] goes_on(pitch_range.permutations.items@[k]) is Some) decreases pitch_range.permutations.items@.len() - n_permutation')],
     at=[(r'return true;\s*\}\s*\}\s*\}', 'before', 'proof { assert(goes_on(pitch_range.permutations.items@[n_permutation - 1]) is Some); assert(any_goes_on(sound.pitch_ranges.items@[n_pitch_range - 1], sound.pitch_ranges.items@[n_pitch_range - 1].permutations.items@.len() as int)); }')]),
   Item(S, 'fn', 'find_actual_permutation_count', ret='r', spec='ensures r == beginnings(*sound, *pitch_range)', attrs=ISO,
     rewrite=[(r'u16::try_from\(pitch_range\.permutations\.items\.len\(\)\)\.unwrap_or\(u16::MAX\)', 'saturated(pitch_range.permutations.items.len())', 'u16::try_from().unwrap_or(MAX) named'), WHILE('i', '&pitch_range.permutations', 'pitch_range.permutations.items'),
              (r'lowest_next_permutation_index\.min\(n\)', '(if n < lowest_next_permutation_index { n } else { lowest_next_permutation_index })', 'Ord::min written out')],
     loops=[dict(spec='invariant 0 <= n_i <= pitch_range.permutations.items@.len(), lowest_next_permutation_index == lowest(pitch_range.permutations.items@, n_i as int) decreases pitch_range.permutations.items@.len() - n_i')]),
   Item(S, 'fn', 'verify_sound_permutation_indices', attrs=ISO + '#[verifier::allow_complex_invariants] ',
     spec='ensures final(result).errors@ >= old(result).errors@, (final(result).errors@ > old(result).errors@) == (odd(*sound, sound.pitch_ranges.items@.len() as int) || splits(*sound) && chains_bad(*sound, sound.pitch_ranges.items@.len() as int))',
     rewrite=REPORT + [
       (r"'l: for pitch_range in &sound\.pitch_ranges \{", "let mut n_l = 0usize; 'l: while n_l < sound.pitch_ranges.items.len() { let pitch_range = &sound.pitch_ranges.items[n_l]; n_l += 1;", '`for` over a list written as `while`'),
       WHILE('permutation', '&pitch_range.permutations', 'pitch_range.permutations.items'),
       (r'permutation\.next_permutation_index == Some\(0\)', 'is_zero(permutation.next_permutation_index)', 'comparison of options written out'),
       (r'for \(pr, pitch_range\) in ziperator!\(sound\.pitch_ranges\) \{', 'let mut n_pr = 0usize; while n_pr < sound.pitch_ranges.items.len() { let pitch_range = &sound.pitch_ranges.items[n_pr]; let pr = n_pr; n_pr += 1;', '`for` over a list written as `while`'),
       (r'let actual_permutations = &pitch_range\.permutations\.items\[\.\.actual_permutation_count\];', 'let actual_permutations = beginning(&pitch_range.permutations.items, actual_permutation_count);', 'slicing named'),
       (r'vec!\[false; subpermutation_count\]', 'all_false(subpermutation_count)', 'vec! named'),
       (r"'permutation_loop:\s*for \(ap, permutation\) in \(0\.\.actual_permutations\.len\(\)\)\.zip\(actual_permutations\.iter\(\)\) \{", "let mut n_ap = 0usize; 'permutation_loop: while n_ap < actual_permutations.len() { let permutation = &actual_permutations[n_ap]; let ap = n_ap; n_ap += 1;", '`for` over a list written as `while`'),
       (r'used\[permutation_index\] = true;', 'used.set(permutation_index, true);', 'element assignment of a list as its method'),
       (r'None => break\n', 'None => { proof { assert(ends_at(pitch_range.permutations.items@, ap as int, traversed - 1)); } break }\n', 'place for a proof'),
       (r'let unused_permutations_total = [\s\S]*?;\s*if unused_permutations_total > 0 \{[\s\S]*?\}', '', 'warnings are not under contract'),
     ],
     loops=[
       dict(spec="invariant_except_break result.errors@ == old(result).errors@, forall|k: int| 0 <= k < n_l ==> !odd_at(#[trigger] sound.pitch_ranges.items@[k]) invariant 0 <= n_l <= sound.pitch_ranges.items@.len(), split_permutations == splits(*sound) ensures result.errors@ >= old(result).errors@, (result.errors@ > old(result).errors@) == odd(*sound, sound.pitch_ranges.items@.len() as int) decreases sound.pitch_ranges.items@.len() - n_l", end='assert(!range_odd(*pitch_range, pitch_range.permutations.items@.len() as int)); assert(!odd_at(sound.pitch_ranges.items@[n_l - 1]));'),
       dict(spec="invariant result.errors@ == old(result).errors@, 0 < n_l <= sound.pitch_ranges.items@.len(), *pitch_range == sound.pitch_ranges.items@[n_l - 1], 0 <= n_permutation <= pitch_range.permutations.items@.len(), forall|k: int| 0 <= k < n_permutation ==> (#[trigger] pitch_range.permutations.items@[k]).next_permutation_index != Some(0u16) decreases pitch_range.permutations.items@.len() - n_permutation"),
       dict(spec="invariant 0 <= n_pr <= sound.pitch_ranges.items@.len(), result.errors@ >= before, (result.errors@ > before) == chains_bad(*sound, n_pr as int) decreases sound.pitch_ranges.items@.len() - n_pr",
            end='proof { let ps = pitch_range.permutations.items@; assert(range_bad(*sound, *pitch_range) == chain_bad(ps, actual_permutation_count as int)); assert(forall|k: int| 0 <= k < n_pr - 1 ==> #[trigger] sound.pitch_ranges.items@[k] == sound.pitch_ranges.items@[k]); if chain_bad(ps, actual_permutation_count as int) { assert(range_bad(*sound, sound.pitch_ranges.items@[n_pr - 1])); } }'),
       dict(spec="invariant 0 <= n_ap <= actual_permutation_count, used@.len() == subpermutation_count, result.errors@ >= mid, (result.errors@ > mid) == chain_bad(pitch_range.permutations.items@, n_ap as int) decreases actual_permutation_count - n_ap", end='proof { assert(ends(pitch_range.permutations.items@, ap as int)); more(pitch_range.permutations.items@, ap as int); }'),
       dict(spec="""invariant_except_break permutation_index >= 0, traversed <= subpermutation_count, walk(pitch_range.permutations.items@, ap as int, traversed as int) == Some(permutation_index as int), result.errors@ == inner,
            forall|j: int| 0 <= j < traversed ==> (#[trigger] walk(pitch_range.permutations.items@, ap as int, j)) is Some && 0 <= walk(pitch_range.permutations.items@, ap as int, j)->Some_0 < pitch_range.permutations.items@.len() && goes_on(pitch_range.permutations.items@[walk(pitch_range.permutations.items@, ap as int, j)->Some_0]) is Some
            invariant used@.len() == subpermutation_count, ap == n_ap - 1, 0 < n_ap <= actual_permutation_count, inner >= mid, (inner > mid) == chain_bad(pitch_range.permutations.items@, ap as int) ensures ends(pitch_range.permutations.items@, ap as int), result.errors@ == inner decreases subpermutation_count - traversed"""),
     ],
     at=[(r'let mut n_pr = 0usize;', 'before', 'let ghost before = result.errors@;'),
         (r'let mut n_ap = 0usize;', 'before', 'let ghost mid = result.errors@;'),
         (r'let mut traversed = 0usize;', 'before', 'let ghost inner = result.errors@;'),
         (r"result\.error\(\);\s*continue 'permutation_loop;\s*\}\s*traversed \+= 1", 'before', 'proof { left(pitch_range.permutations.items@, ap as int, traversed as int); more(pitch_range.permutations.items@, ap as int); }'),
         (r'if traversed > subpermutation_count \{', 'after', 'proof { left(pitch_range.permutations.items@, ap as int, traversed - 1); more(pitch_range.permutations.items@, ap as int); }'),
         (r'let actual_permutations = ', 'before', 'proof { lowest_bounds(pitch_range.permutations.items@, pitch_range.permutations.items@.len() as int); }'),
         ]),
  ]),
]
HELP = r'''
fn saturated(n: usize) -> (r: u16) ensures r == least(n as int, 65535) { if n > 65535 { 65535 } else { n as u16 } }
fn is_zero(n: Option<u16>) -> (r: bool) ensures r == (n == Some(0u16)) { match n { Some(x) => x == 0, None => false } }
#[verifier::external_body] fn beginning(v: &Vec<SoundPermutation>, n: usize) -> (r: &[SoundPermutation]) requires n <= v@.len() ensures r@ == v@.subrange(0, n as int) { unimplemented!() }
#[verifier::external_body] fn all_false(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, n < usize::MAX { unimplemented!() }
'''
UNITS[0]['spec'] = SOUND + HELP
BSP = BASE + r'''
pub enum Error { Other }
pub type RinghopperResult<T> = Result<T, Error>;
pub struct TagData { pub bytes: Vec<u8> }
pub struct RenderedVertices { pub vertex_count: u32, pub rest: u64 }
pub struct ScenarioStructureBSPMaterial { pub rendered_vertices: RenderedVertices, pub lightmap_vertices: RenderedVertices, pub uncompressed_vertices: TagData, pub compressed_vertices: TagData, pub rest: u64 }
pub struct ScenarioStructureBSPLightmap { pub materials: Reflexive<ScenarioStructureBSPMaterial>, pub rest: u64 }
pub struct ScenarioStructureBSP { pub lightmaps: Reflexive<ScenarioStructureBSPLightmap>, pub rest: u64 }
pub struct ScenarioStructureBSPMaterialUncompressedRenderedVertex {}
pub struct ScenarioStructureBSPMaterialUncompressedLightmapVertex {}
pub struct ScenarioStructureBSPMaterialCompressedRenderedVertex {}
pub struct ScenarioStructureBSPMaterialCompressedLightmapVertex {}
impl ScenarioStructureBSPMaterialUncompressedRenderedVertex { fn simple_size() -> (r: usize) ensures r == 56 { 56 } }
impl ScenarioStructureBSPMaterialUncompressedLightmapVertex { fn simple_size() -> (r: usize) ensures r == 20 { 20 } }
impl ScenarioStructureBSPMaterialCompressedRenderedVertex { fn simple_size() -> (r: usize) ensures r == 32 { 32 } }
impl ScenarioStructureBSPMaterialCompressedLightmapVertex { fn simple_size() -> (r: usize) ensures r == 8 { 8 } }
fn add_overflow_checked(a: usize, b: usize) -> (r: RinghopperResult<usize>) ensures r is Ok <==> a + b <= usize::MAX, r is Ok ==> r->Ok_0 == a + b { match a.checked_add(b) { Some(n) => Ok(n), None => Err(Error::Other) } }
fn mul_overflow_checked(a: usize, b: usize) -> (r: RinghopperResult<usize>) ensures r is Ok <==> a * b <= usize::MAX, r is Ok ==> r->Ok_0 == a * b { match a.checked_mul(b) { Some(n) => Ok(n), None => Err(Error::Other) } }
/// a lightmap vertex for each rendered vertex or none, and vertex data, where there is any, of exactly these
pub open spec fn fits(m: ScenarioStructureBSPMaterial) -> bool {
    let n = m.rendered_vertices.vertex_count as int; let l = m.lightmap_vertices.vertex_count as int;
    (l == 0 || l == n) && (m.uncompressed_vertices.bytes@.len() == 0 || m.uncompressed_vertices.bytes@.len() == n * 56 + l * 20) && (m.compressed_vertices.bytes@.len() == 0 || m.compressed_vertices.bytes@.len() == n * 32 + l * 8) }
pub open spec fn all_fit(l: ScenarioStructureBSPLightmap) -> bool { forall|k: int| 0 <= k < l.materials.items@.len() ==> fits(#[trigger] l.materials.items@[k]) }
'''
UNITS.append(dict(name='bsp_sizes', about='a BSP passes exactly when the vertex data of each material is of its number of vertices', spec=BSP, lemmas='', rlimit=30, trusted=True, items=[
  Item(B, 'fn', 'check_scenario_structure_bsp_vertex_data_size_correct', ret='r', attrs=ISO, spec='ensures r == (forall|k: int| 0 <= k < bsp.lightmaps.items@.len() ==> all_fit(#[trigger] bsp.lightmaps.items@[k]))',
    rewrite=[WHILE('lm', '&bsp.lightmaps', 'bsp.lightmaps.items'), WHILE('mat', '&lm.materials', 'lm.materials.items'),
             (r'rendered_count\s*\.mul_overflow_checked\(rendered_size\)\?\s*\.add_overflow_checked\(lightmap_count\s*\.mul_overflow_checked\(lightmap_size\)\?\s*\)', 'add_overflow_checked(mul_overflow_checked(rendered_count, rendered_size)?, mul_overflow_checked(lightmap_count, lightmap_size)?)', 'method calls written as function calls'),
             (r'\|rendered_size: usize, lightmap_size: usize\| -> RinghopperResult<usize> \{', '|rendered_size: usize, lightmap_size: usize| -> (o: RinghopperResult<usize>) ensures rendered_count * rendered_size + lightmap_count * lightmap_size <= usize::MAX <==> o is Ok, o is Ok ==> o->Ok_0 == rendered_count * rendered_size + lightmap_count * lightmap_size {', 'contract of a closure')],
    loops=[dict(spec='invariant 0 <= n_lm <= bsp.lightmaps.items@.len(), forall|k: int| 0 <= k < n_lm ==> all_fit(#[trigger] bsp.lightmaps.items@[k]) decreases bsp.lightmaps.items@.len() - n_lm', end='assert(all_fit(bsp.lightmaps.items@[n_lm - 1]));'),
           dict(spec='invariant 0 < n_lm <= bsp.lightmaps.items@.len(), *lm == bsp.lightmaps.items@[n_lm - 1], 0 <= n_mat <= lm.materials.items@.len(), forall|k: int| 0 <= k < n_mat ==> fits(#[trigger] lm.materials.items@[k]) decreases lm.materials.items@.len() - n_mat')],
    at=[(r'let rendered_count', 'before', 'let ghost bad = !fits(lm.materials.items@[n_mat - 1]) ==> !all_fit(bsp.lightmaps.items@[n_lm - 1]); assert(bad);')])]))
