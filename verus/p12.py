from extract import Item
X = 'src/ringhopper/src/map/extract.rs'
MSG = (r'format!\((?:[^()"]|"[^"]*"|\([^()]*\))*\)|"[^"]*"\.(?:to_string|to_owned)\(\)', 'message()', 'message text is not under contract')
ISO = '#[verifier::loop_isolation(false)] '
def LIST(v, of, seq, mut=False, name=None):
    """a `for` over a list as a `while`; the item is borrowed where the loop borrowed it"""
    n = name or v
    return (rf'for {v} in {of} \{{', f'let mut n_{n} = 0usize; while n_{n} < {seq}.len() {{ let {v} = &{"mut " if mut else ""}{seq}[n_{n}]; n_{n} += 1;', '`for` over a list written as `while`')
BASE = r'''
global size_of usize == 8;
#[derive(Debug)]
pub struct Message;
#[verifier::external_body] fn message() -> Message { unimplemented!() }
#[derive(Debug)]
pub enum Error { InvalidTagData(Message), Other }
type RinghopperResult<T> = Result<T, Error>;
pub struct Reflexive<T> { pub items: Vec<T> }
/// arithmetic of floats is uninterpreted: the contracts say which numbers are combined how, not what comes out
pub uninterp spec fn sub(a: f64, b: f64) -> f64;
pub uninterp spec fn mul_(a: f64, b: f64) -> f64;
pub uninterp spec fn lt(a: f64, b: f64) -> bool;
pub uninterp spec fn same(a: f64, b: f64) -> bool;
#[verifier::external_body] fn minus(a: f64, b: f64) -> (r: f64) ensures r == sub(a, b) { unimplemented!() }
#[verifier::external_body] fn times(a: f64, b: f64) -> (r: f64) ensures r == mul_(a, b) { unimplemented!() }
#[verifier::external_body] fn less(a: f64, b: f64) -> (r: bool) ensures r == lt(a, b) { unimplemented!() }
#[verifier::external_body] fn equal(a: f64, b: f64) -> (r: bool) ensures r == same(a, b) { unimplemented!() }
'''
WEIGHTS = BASE + r'''
pub struct ObjectChangeColorsPermutation { pub weight: f64, pub rest: u64 }
pub struct ObjectChangeColors { pub permutations: Reflexive<ObjectChangeColorsPermutation>, pub rest: u64 }
pub struct Object { pub change_colors: Reflexive<ObjectChangeColors>, pub rest: u64 }
impl<T> Reflexive<T> { fn len(&self) -> (r: usize) ensures r == self.items@.len() { self.items.len() } }
pub uninterp spec fn nudged(o: Object) -> Object;
#[verifier::external_body] fn nudge_tag(o: &mut Object) ensures *final(o) == nudged(*old(o)) { unimplemented!() }
pub open spec fn before(s: Seq<ObjectChangeColorsPermutation>, k: int) -> f64 { if k <= 0 { 0.0f64 } else { s[k - 1].weight } }
/// the weights never fall, none is above one and the last is one
pub open spec fn weights_ok(s: Seq<ObjectChangeColorsPermutation>) -> bool {
    s.len() >= 2 ==> (forall|k: int| 0 <= k < s.len() ==> !lt((#[trigger] s[k]).weight, before(s, k)) && !lt(1.0f64, s[k].weight)) && same(s[s.len() - 1].weight, 1.0f64) }
/// the weight of one permutation: one if it is alone; the first its own; any other the difference to the one before
pub open spec fn weight_of(s: Seq<ObjectChangeColorsPermutation>, k: int) -> f64 { if s.len() == 1 { 1.0f64 } else if k == 0 { s[0].weight } else { sub(s[k].weight, s[k - 1].weight) } }
pub open spec fn undone(s: Seq<ObjectChangeColorsPermutation>, from: int) -> Seq<ObjectChangeColorsPermutation> { Seq::new(s.len(), |k: int| if k < from { s[k] } else { ObjectChangeColorsPermutation { weight: weight_of(s, k), ..s[k] } }) }
pub open spec fn color_of(a: ObjectChangeColors, b: ObjectChangeColors) -> bool { b.rest == a.rest && b.permutations.items@ =~= undone(a.permutations.items@, 0) }
pub open spec fn object_ok(o: Object) -> bool { forall|k: int| 0 <= k < o.change_colors.items@.len() ==> weights_ok((#[trigger] o.change_colors.items@[k]).permutations.items@) }
pub open spec fn object_of(a: Object, b: Object) -> bool { b.rest == a.rest && b.change_colors.items@.len() == a.change_colors.items@.len()
    && forall|k: int| 0 <= k < a.change_colors.items@.len() ==> color_of(#[trigger] a.change_colors.items@[k], b.change_colors.items@[k]) }
'''
LAYERS = BASE + r'''
#[derive(PartialEq, Eq, Clone, Copy, Structural)] pub enum TagGroup { DetailObjectCollection, Scenario, Other }
#[verifier::external_body] pub struct TagPath;
impl TagPath { pub uninterp spec fn of(&self) -> TagGroup; #[verifier::external_body] fn group(&self) -> (r: TagGroup) ensures r == self.of() { unimplemented!() } }
#[verifier::external_body] pub struct TagReference;
pub struct Tag { pub tag_path: TagPath }
pub struct DetailObjectCollection { pub global_z_offset: f64 }
#[verifier::external_body] pub struct TagBox;
impl TagBox {
    pub uninterp spec fn of(&self) -> TagGroup;
    pub uninterp spec fn offset(&self) -> f64;
    /// as_any().downcast_ref().expect(): never reached with another kind of tag
    #[verifier::external_body] fn collection(&self) -> (r: DetailObjectCollection) requires self.of() == TagGroup::DetailObjectCollection ensures r.global_z_offset == self.offset() { unimplemented!() }
}
trait Map {
    spec fn finds(&self, r: TagReference) -> Option<Tag>;
    spec fn extracts(&self, p: TagPath) -> RinghopperResult<TagBox>;
    fn get_tag_by_tag_reference(&self, reference: &TagReference) -> (r: Option<&Tag>) ensures r is Some <==> self.finds(*reference) is Some, r is Some ==> *r->Some_0 == self.finds(*reference)->Some_0;
    /// a tag extracted is of the group of its path (executed contract every_group)
    fn extract_tag(&self, path: &TagPath) -> (r: RinghopperResult<TagBox>) ensures r is Ok <==> self.extracts(*path) is Ok, r is Ok ==> r->Ok_0 == self.extracts(*path)->Ok_0 && r->Ok_0.of() == path.of();
}
pub struct PaletteEntry { pub reference: TagReference }
pub struct Scenario { pub detail_object_collection_palette: Reflexive<PaletteEntry> }
pub struct ZReferenceVector { pub z_reference_l: f64, pub rest: u64 }
pub struct Cell { pub count_index: u32, pub valid_layers_flags: u32 }
pub struct DetailObject { pub cells: Reflexive<Cell>, pub z_reference_vectors: Reflexive<ZReferenceVector> }
pub struct ScenarioStructureBSP { pub detail_objects: Reflexive<DetailObject>, pub rest: u64 }
pub uninterp spec fn recompressed(b: ScenarioStructureBSP) -> RinghopperResult<ScenarioStructureBSP>;
#[verifier::external_body] fn recompress_scenario_structure_bsp_vertices(b: &mut ScenarioStructureBSP) -> (r: RinghopperResult<bool>) ensures r is Ok <==> recompressed(*old(b)) is Ok, r is Ok ==> *final(b) == recompressed(*old(b))->Ok_0 { unimplemented!() }
#[verifier::external_body] fn item_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>) ensures match r {
    None => i >= old(v)@.len() && final(v)@ == old(v)@, Some(x) => i < old(v)@.len() <= usize::MAX && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)) } { unimplemented!() }
fn add_overflow_checked(a: usize, b: usize) -> (r: RinghopperResult<usize>) ensures r is Ok <==> a + b <= usize::MAX, r is Ok ==> r->Ok_0 == a + b { match a.checked_add(b) { Some(n) => Ok(n), None => Err(Error::Other) } }
/// the offset of layer k: an eighth of its collection's, none if there is no such collection
spec fn layer<M: Map>(m: M, s: Scenario, k: int) -> f64 {
    let p = s.detail_object_collection_palette.items@;
    if k < p.len() && m.finds(p[k].reference) is Some { mul_(m.extracts(m.finds(p[k].reference)->Some_0.tag_path)->Ok_0.offset(), 0.125f64) } else { 0.0f64 } }
spec fn layers_ok<M: Map>(m: M, s: Scenario, n: int) -> bool { let p = s.detail_object_collection_palette.items@;
    forall|k: int| 0 <= k < n && k < p.len() && m.finds((#[trigger] p[k]).reference) is Some ==> m.finds(p[k].reference)->Some_0.tag_path.of() == TagGroup::DetailObjectCollection && m.extracts(m.finds(p[k].reference)->Some_0.tag_path) is Ok }
spec fn bit(f: u32, b: int) -> bool { (f >> (b as u32)) & 1 != 0 }
/// the vectors after the layers from b on of one cell: each layer present lowers the next vector by its offset; None if there are too few
spec fn lowered(v: Seq<ZReferenceVector>, f: u32, at: int, b: int, z: Seq<f64>) -> Option<Seq<ZReferenceVector>> decreases 32 - b {
    if b >= 32 { Some(v) } else if !bit(f, b) { lowered(v, f, at, b + 1, z) } else if at >= v.len() { None }
    else { lowered(v.update(at, ZReferenceVector { z_reference_l: sub(v[at].z_reference_l, z[b]), ..v[at] }), f, at + 1, b + 1, z) } }
spec fn cells(v: Seq<ZReferenceVector>, c: Seq<Cell>, k: int, z: Seq<f64>) -> Option<Seq<ZReferenceVector>> decreases c.len() - k {
    if k >= c.len() { Some(v) } else { match lowered(v, c[k].valid_layers_flags, c[k].count_index as int, 0, z) { None => None, Some(w) => cells(w, c, k + 1, z) } } }
spec fn detail(o: DetailObject, z: Seq<f64>) -> Option<Seq<ZReferenceVector>> { cells(o.z_reference_vectors.items@, o.cells.items@, 0, z) }
spec fn detailed(a: DetailObject, b: DetailObject, z: Seq<f64>) -> bool { b.cells == a.cells && detail(a, z) == Some(b.z_reference_vectors.items@) }
spec fn lowered_bsp(a: ScenarioStructureBSP, b: ScenarioStructureBSP, z: Seq<f64>) -> bool { b.rest == a.rest && a.detail_objects.items@.len() == b.detail_objects.items@.len()
    && forall|k: int| 0 <= k < a.detail_objects.items@.len() ==> detailed(#[trigger] a.detail_objects.items@[k], b.detail_objects.items@[k], z) }
spec fn offsets<M: Map>(m: M, s: Scenario) -> Seq<f64> { Seq::new(32, |k: int| layer(m, s, k)) }
'''
SAMPLES = BASE + r'''
#[derive(PartialEq, Eq, Clone, Copy, Structural)] pub enum SoundFormat { PCM, XboxADPCM, IMAADPCM, OggVorbis }
pub struct Data { pub bytes: Vec<u8> }
pub struct SoundPermutation { pub format: SoundFormat, pub samples: Data, pub rest: u64 }
pub struct SoundPitchRange { pub permutations: Reflexive<SoundPermutation>, pub rest: u64 }
pub struct Sound { pub pitch_ranges: Reflexive<SoundPitchRange>, pub maximum_bend_rate: f64, pub rest: u64 }
pub uninterp spec fn nudged(o: Sound) -> Sound;
#[verifier::external_body] fn nudge_tag(o: &mut Sound) ensures *final(o) == nudged(*old(o)) { unimplemented!() }
pub uninterp spec fn power(a: f64, b: f64) -> f64;
#[verifier::external_body] fn powf(a: f64, b: f64) -> (r: f64) ensures r == power(a, b) { unimplemented!() }
/// chunks(2).map(f).flatten().collect(): f of every chunk of two, one after the other (assumed contract; the bytes are an even number)
#[verifier::external_body] fn pairs<F: Fn(&[u8]) -> [u8; 2]>(v: &Vec<u8>, f: F) -> (r: Vec<u8>)
    requires v@.len() % 2 == 0, forall|b: &[u8]| b@.len() == 2 ==> #[trigger] call_requires(f, (b,))
    ensures r@.len() == v@.len(), forall|k: int| 0 <= k && 2 * k + 1 < v@.len() ==> #[trigger] pair_of(f, v@, r@, k) { unimplemented!() }
pub open spec fn pair_of<F: Fn(&[u8]) -> [u8; 2]>(f: F, v: Seq<u8>, r: Seq<u8>, k: int) -> bool { exists|b: &[u8], c: [u8; 2]| b@ == v.subrange(2 * k, 2 * k + 2) && #[trigger] call_ensures(f, (b,), c) && r[2 * k] == c@[0] && r[2 * k + 1] == c@[1] }
pub open spec fn swapped(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if i % 2 == 0 { s[i + 1] } else { s[i - 1] }) }
pub open spec fn odd(p: SoundPermutation) -> bool { p.format == SoundFormat::PCM && p.samples.bytes@.len() % 2 == 1 }
pub open spec fn turned(a: SoundPermutation, b: SoundPermutation) -> bool { b.format == a.format && b.rest == a.rest && !odd(a) && b.samples.bytes@ =~= (if a.format == SoundFormat::PCM { swapped(a.samples.bytes@) } else { a.samples.bytes@ }) }
pub open spec fn range_turned(a: SoundPitchRange, b: SoundPitchRange) -> bool { a.rest == b.rest && b.permutations.items@.len() == a.permutations.items@.len() && forall|k: int| 0 <= k < a.permutations.items@.len() ==> turned(#[trigger] a.permutations.items@[k], b.permutations.items@[k]) }
pub open spec fn sound_turned(a: Sound, b: Sound) -> bool { a.rest == b.rest && b.maximum_bend_rate == power(a.maximum_bend_rate, TICK_RATE) && b.pitch_ranges.items@.len() == a.pitch_ranges.items@.len() && forall|k: int| 0 <= k < a.pitch_ranges.items@.len() ==> range_turned(#[trigger] a.pitch_ranges.items@[k], b.pitch_ranges.items@[k]) }
pub open spec fn fine(a: Sound) -> bool { forall|i: int, j: int| 0 <= i < a.pitch_ranges.items@.len() && 0 <= j < a.pitch_ranges.items@[i].permutations.items@.len() ==> !odd(#[trigger] a.pitch_ranges.items@[i].permutations.items@[j]) }
'''
INDICES = BASE + r'''
type Idx = Option<u16>;
pub struct ModelTriangleStripData { pub indices: [Idx; 3] }
#[verifier::external_body] pub struct DomainType;
#[verifier::external_body] pub struct Indices;
impl Indices {
    /// what is still to come
    pub uninterp spec fn left(&self) -> Seq<Idx>;
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.left().len() { unimplemented!() }
    #[verifier::external_body] fn next(&mut self) -> (r: Option<Idx>) ensures match r { None => old(self).left().len() == 0 && final(self).left() == old(self).left(), Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().skip(1) } { unimplemented!() }
    fn into_infallible(self) -> (r: Indices) ensures r.left() == self.left() { self }
}
/// the n indices at an address, if they are in the map (P09 proves the translation, P04 the codec)
trait Map { spec fn words(&self, n: int, address: int, domain: DomainType) -> RinghopperResult<Seq<Idx>>; }
#[verifier::external_body] fn read_indices<M: Map>(map: &M, count: usize, address: usize, domain: &DomainType) -> (r: RinghopperResult<Indices>)
    ensures r is Ok <==> map.words(count as int, address as int, *domain) is Ok, r is Ok ==> r->Ok_0.left() == map.words(count as int, address as int, *domain)->Ok_0 && r->Ok_0.left().len() == count { unimplemented!() }
/// three at a time, the last filled up with none
pub open spec fn nth(s: Seq<Idx>, i: int) -> Idx { if i < s.len() { s[i] } else { None } }
pub open spec fn triple(s: Seq<Idx>, k: int) -> Seq<Idx> { seq![nth(s, 3 * k), nth(s, 3 * k + 1), nth(s, 3 * k + 2)] }
pub open spec fn triples(s: Seq<Idx>, r: Seq<ModelTriangleStripData>) -> bool { (r.len() - 1) * 3 < s.len() <= r.len() * 3 && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).indices@ == triple(s, k) }
'''
UNITS = [
    dict(name='weights', about='fix_object_tag: for every object, an error exactly when the weights of some change color are not a rising sequence ending at one; else every weight becomes its difference to the one before, a single one 1.0, nothing else changes, and the tag is nudged',
        trusted=True, spec=WEIGHTS, lemmas='',
        items=[Item(X, 'fn', 'fix_object_tag', vis='', ret='r', attrs=ISO,
            rewrite=[MSG, LIST('cc', '&mut object.change_colors', 'object.change_colors.items', True), LIST('i', '&cc.permutations', 'cc.permutations.items', name='p'),
                (r'i\.weight < last_weight \|\| i\.weight > 1\.0', 'less(i.weight, last_weight) || less(1.0, i.weight)', 'comparison of floats as a function'), (r'last_weight != 1\.0', '!equal(last_weight, 1.0)', 'comparison of floats as a function'),
                (r'cc\.permutations\.items\[i-1\]\.weight as f64', 'cc.permutations.items[i-1].weight', 'conversion of f64 to f64'),
                (r'this_big - next_big', 'minus(this_big, next_big)', 'subtraction of floats as a function'),
                (r'for i in \(1\.\.permutation_count\)\.rev\(\) \{', 'let mut down = permutation_count; while down > 1 { down -= 1; let i = down;', '`for` over a reversed range written as `while`'),
                (r'let this = &mut cc\.permutations\.items\[i\]\.weight;\s*\*this = difference;', 'let this = &mut cc.permutations.items[i]; this.weight = difference;', 'borrow of the item instead of its field')],
            spec='ensures r is Ok <==> object_ok(*old(object)), r is Ok ==> exists|b: Object| object_of(*old(object), b) && *final(object) == #[trigger] nudged(b)',
            start='let ghost a = *object;',
            loops=[dict(spec='''invariant n_cc <= a.change_colors.items@.len(), object.rest == a.rest, object.change_colors.items@.len() == a.change_colors.items@.len(),
                    forall|k: int| 0 <= k < n_cc ==> weights_ok((#[trigger] a.change_colors.items@[k]).permutations.items@) && color_of(a.change_colors.items@[k], object.change_colors.items@[k]), forall|k: int| n_cc <= k < a.change_colors.items@.len() ==> object.change_colors.items@[k] == #[trigger] a.change_colors.items@[k]
                    decreases a.change_colors.items@.len() - n_cc''', start='let ghost c0 = object.change_colors.items@[n_cc as int]; let ghost s = c0.permutations.items@; let ghost before_all = object.change_colors.items@; proof { assert(c0 == a.change_colors.items@[n_cc as int]); }', end='proof { assert(color_of(c0, object.change_colors.items@[n_cc - 1])); }'),
                dict(spec='''invariant *cc == c0, n_p <= s.len(), last_weight == before(s, n_p as int), forall|k: int| 0 <= k < n_p ==> !lt((#[trigger] s[k]).weight, before(s, k)) && !lt(1.0f64, s[k].weight) decreases s.len() - n_p''', end=''),
                dict(spec='''invariant 1 <= down <= s.len(), permutation_count == s.len(), cc.rest == c0.rest, this_big == s[down - 1].weight, cc.permutations.items@ =~= undone(s, down as int) decreases down''', end='', after='proof { assert(cc.permutations.items@ =~= undone(s, 0)); }')],
            at=[])]),
]
UNITS += [
    dict(name='layers', about='fix_scenario_structure_bsp_tag: for every scenario and BSP, each layer present in a cell lowers the next reference vector by an eighth of the offset of its collection; too few vectors or a palette entry of another group is an error, and nothing panics',
        trusted=True, spec=LAYERS, lemmas='',
        items=[Item(X, 'fn', 'fix_scenario_structure_bsp_tag', vis='', ret='r', attrs=ISO,
            rewrite=[MSG, (r'for i in 0\.\.scenario_tag\.detail_object_collection_palette\.items\.len\(\)\.min\(global_z_offset\.len\(\)\)\s*\{', 'let n_all = if scenario_tag.detail_object_collection_palette.items.len() < 32 { scenario_tag.detail_object_collection_palette.items.len() } else { 32 }; let mut n_i = 0usize; while n_i < n_all { let i = n_i; n_i += 1;', '`for` written as `while`; min written out'),
                (r'scenario_tag\s*\.detail_object_collection_palette\s*\.items\s*\.get\(i\)\s*\.map\(\|r\| &r\.reference\)', '(match scenario_tag.detail_object_collection_palette.items.get(i) { Some(r) => Some(&r.reference), None => None })', 'Option::map written out'),
                (r'map\.get_tag_by_tag_reference\(&reference\)', 'map.get_tag_by_tag_reference(reference)', 'deref of a reference to a reference'),
                (r'map\.extract_tag\(&tag\.tag_path\)\?\s*\.as_any\(\)\s*\.downcast_ref::<DetailObjectCollection>\(\)\s*\.expect\("[^"]*"\)\s*\.global_z_offset \* 0\.125', 'times(map.extract_tag(&tag.tag_path)?.collection().global_z_offset, 0.125)', 'downcast and expect as one function, its panic a precondition; multiplication of floats as a function'),
                LIST('obj', '&mut bsp.detail_objects', 'bsp.detail_objects.items', True), LIST('cell', '&obj.cells.items', 'obj.cells.items'),
                (r'for bit_offset in 0\.\.32 \{', 'let mut n_bit = 0usize; while n_bit < 32 { let bit_offset = n_bit; n_bit += 1;', '`for` written as `while`'),
                (r'obj\.z_reference_vectors\.items\.get_mut\(reference_vector_offset\)', 'item_mut(&mut obj.z_reference_vectors.items, reference_vector_offset)', 'assumed contract of get_mut'),
                (r'reference_vector_offset\.add_overflow_checked\(1\)\.unwrap\(\)', 'add_overflow_checked(reference_vector_offset, 1).unwrap()', 'method call written as a function call'),
                (r'vector\.z_reference_l -= ([^;]*);', r'vector.z_reference_l = minus(vector.z_reference_l, \1);', 'subtraction of floats as a function'),
                (r'recompress_scenario_structure_bsp_vertices\(bsp\)\.map\(\|_\| \(\)\)', 'proof { assert(global_z_offset@ =~= offsets(*map, *scenario_tag)); } let ghost lowered_b = *bsp; let done = recompress_scenario_structure_bsp_vertices(bsp); match done { Ok(_) => Ok(()), Err(e) => Err(e) }', 'Result::map written out')],
            spec='''ensures r is Ok ==> layers_ok(*map, *scenario_tag, 32) && exists|b: ScenarioStructureBSP| lowered_bsp(*old(bsp), b, offsets(*map, *scenario_tag)) && #[trigger] recompressed(b) == Ok::<ScenarioStructureBSP, Error>(*final(bsp)),
                r is Err ==> !layers_ok(*map, *scenario_tag, 32) || (exists|k: int| 0 <= k < old(bsp).detail_objects.items@.len() && detail(#[trigger] old(bsp).detail_objects.items@[k], offsets(*map, *scenario_tag)) is None) || (exists|b: ScenarioStructureBSP| lowered_bsp(*old(bsp), b, offsets(*map, *scenario_tag)) && #[trigger] recompressed(b) is Err)''',
            start='let ghost a = *bsp;',
            loops=[dict(spec='''invariant n_i <= n_all, layers_ok(*map, *scenario_tag, n_i as int), forall|k: int| 0 <= k < n_i ==> #[trigger] global_z_offset@[k] == layer(*map, *scenario_tag, k), forall|k: int| n_i <= k < 32 ==> #[trigger] global_z_offset@[k] == 0.0f64 decreases n_all - n_i''',
                    after='proof { assert forall|k: int| 0 <= k < 32 implies #[trigger] global_z_offset@[k] == layer(*map, *scenario_tag, k) by {} assert(global_z_offset@ =~= offsets(*map, *scenario_tag)); }'),
                dict(spec='''invariant n_obj <= a.detail_objects.items@.len(), bsp.rest == a.rest, bsp.detail_objects.items@.len() == a.detail_objects.items@.len(),
                    forall|k: int| 0 <= k < n_obj ==> detailed(#[trigger] a.detail_objects.items@[k], bsp.detail_objects.items@[k], global_z_offset@), forall|k: int| n_obj <= k < a.detail_objects.items@.len() ==> bsp.detail_objects.items@[k] == #[trigger] a.detail_objects.items@[k]
                    decreases a.detail_objects.items@.len() - n_obj''', start='let ghost o0 = bsp.detail_objects.items@[n_obj as int]; proof { assert(o0 == a.detail_objects.items@[n_obj as int]); }'),
                dict(spec='''invariant n_cell <= o0.cells.items@.len(), obj.cells == o0.cells, detail(o0, global_z_offset@) == cells(obj.z_reference_vectors.items@, o0.cells.items@, n_cell as int, global_z_offset@) decreases o0.cells.items@.len() - n_cell''', start='let ghost v0 = obj.z_reference_vectors.items@;'),
                dict(spec='''invariant n_bit <= 32, obj.cells == o0.cells, 0 <= reference_vector_offset, lowered(v0, cell.valid_layers_flags, cell.count_index as int, 0, global_z_offset@) == lowered(obj.z_reference_vectors.items@, cell.valid_layers_flags, reference_vector_offset as int, n_bit as int, global_z_offset@) decreases 32 - n_bit''', start='let ghost w0 = obj.z_reference_vectors.items@; let ghost at0 = reference_vector_offset as int; let ghost b0 = n_bit as int; proof { reveal_with_fuel(lowered, 2); }',
                    end='proof { assert(obj.z_reference_vectors.items@ =~= w0.update(at0, ZReferenceVector { z_reference_l: sub(w0[at0].z_reference_l, global_z_offset@[b0]), ..w0[at0] })); }')])]),
    dict(name='samples', about='fix_sound_tag: for every sound, 16-bit samples are swapped byte for byte, an odd number of bytes is an error, other formats are left alone, and the bend rate is raised to the tick rate',
        trusted=True, spec=SAMPLES, lemmas='',
        items=[Item('src/ringhopper/src/constants.rs', 'const', 'TICK_RATE'), Item(X, 'fn', 'fix_sound_tag', vis='', ret='r', attrs=ISO,
            rewrite=[MSG, (r'let permutations = tag\.pitch_ranges\.items\.iter_mut\(\)\.flat_map\(\|p\| p\.permutations\.items\.iter_mut\(\)\);\s*for permutation in permutations \{',
                'let mut n_range = 0usize; while n_range < tag.pitch_ranges.items.len() { let p = &mut tag.pitch_ranges.items[n_range]; n_range += 1; let mut n_permutation = 0usize; while n_permutation < p.permutations.items.len() { let permutation = &mut p.permutations.items[n_permutation]; n_permutation += 1;', '`for` over a flat_map written as two `while` loops'),
                (r'permutation\.samples\.bytes\.chunks\(2\)\.map\(\|b\| (\[[^;]*?\])\)\.flatten\(\)\.collect\(\);', r'{ let turn = |b: &[u8]| -> (c: [u8; 2]) requires b@.len() == 2 ensures c@ == seq![b@[1], b@[0]] { \1 }; let t = pairs(&permutation.samples.bytes, turn); proof { let v = permutation.samples.bytes@; assert forall|i: int| 0 <= i < t@.len() implies #[trigger] t@[i] == crate::swapped(v)[i] by { let k = i / 2; assert(2 * k + 1 < v.len()); assert(pair_of(turn, v, t@, k)); } } t };', 'chunks, map, flatten and collect as one function with an assumed contract; contract written on the closure'),
                (r'permutation\.samples\.bytes = swapped;\s*\}', 'permutation.samples.bytes = swapped; } }', 'the second loop ends'),
                (r'tag\.maximum_bend_rate\.powf\(TICK_RATE\)', 'powf(tag.maximum_bend_rate, TICK_RATE)', 'power of floats as a function')],
            spec='ensures r is Ok <==> fine(*old(tag)), r is Ok ==> exists|b: Sound| sound_turned(*old(tag), b) && *final(tag) == #[trigger] nudged(b)',
            start='let ghost a = *tag;',
            loops=[dict(spec='''invariant n_range <= a.pitch_ranges.items@.len(), tag.rest == a.rest, tag.maximum_bend_rate == a.maximum_bend_rate, tag.pitch_ranges.items@.len() == a.pitch_ranges.items@.len(),
                    forall|k: int| 0 <= k < n_range ==> range_turned(#[trigger] a.pitch_ranges.items@[k], tag.pitch_ranges.items@[k]), forall|k: int| n_range <= k < a.pitch_ranges.items@.len() ==> tag.pitch_ranges.items@[k] == #[trigger] a.pitch_ranges.items@[k]
                    decreases a.pitch_ranges.items@.len() - n_range''', start='let ghost r0 = tag.pitch_ranges.items@[n_range as int]; proof { assert(r0 == a.pitch_ranges.items@[n_range as int]); }'),
                dict(spec='''invariant n_permutation <= r0.permutations.items@.len(), p.rest == r0.rest, p.permutations.items@.len() == r0.permutations.items@.len(),
                    forall|k: int| 0 <= k < n_permutation ==> turned(#[trigger] r0.permutations.items@[k], p.permutations.items@[k]), forall|k: int| n_permutation <= k < r0.permutations.items@.len() ==> p.permutations.items@[k] == #[trigger] r0.permutations.items@[k]
                    decreases r0.permutations.items@.len() - n_permutation''', start='proof { assert(p.permutations.items@[n_permutation as int] == r0.permutations.items@[n_permutation as int]); }')])]),
    dict(name='indices', about='load_all_indices: for every list of indices, they are grouped three at a time in order, the last group filled up with none, from exactly the address and region given',
        trusted=True, spec=INDICES, lemmas='',
        items=[Item(X, 'fn', 'load_all_indices', vis='', ret='r', attrs=ISO,
            rewrite=[(r'Index::read_chunks_from_map_to_iterator\(', 'read_indices(', 'trait function as a free function'),
                (r'let iterator = \(0\.\.indices\.len\(\)\)\s*\.step_by\(3\)\s*\.map\(\|_\| (ModelTriangleStripData \{[\s\S]*?\n\s*\})\);\s*Ok\(iterator\.collect\(\)\)',
                    r'let n_all = indices.len(); let mut all: Vec<ModelTriangleStripData> = Vec::new(); let mut at = 0usize; while at < n_all { let item = \1; all.push(item); at += 3; } Ok(all)', 'a mapped and stepped range collected, written as `while`')],
            spec='''requires triangle_count <= 0x2FFFA
                ensures ({ let n = if triangle_count > 0 { triangle_count + 2 } else { 0 }; r is Ok <==> map.words(n, address as int, *domain) is Ok }),
                r is Ok ==> ({ let n = if triangle_count > 0 { triangle_count + 2 } else { 0 }; triples(map.words(n, address as int, *domain)->Ok_0, r->Ok_0@) })''',
            loops=[dict(spec='''invariant n_all == s.len(), at == 3 * all@.len(), all@.len() > 0 ==> (all@.len() - 1) * 3 < s.len(), indices.left() == (if at < s.len() { s.skip(at as int) } else { Seq::<Idx>::empty() }), forall|k: int| 0 <= k < all@.len() ==> (#[trigger] all@[k]).indices@ == triple(s, k)
                    decreases n_all + 3 - at''', end='proof { assert(item.indices@ =~= triple(s, k0)); }', start='let ghost k0 = all@.len() as int; let ghost l0 = indices.left();')],
            at=[(r'let n_all = ', 'before', 'let ghost s = indices.left();')])]),
]
