from extract import Item
R = 'src/ringhopper/src/map/resource.rs'
MSG = (r'"[^"]*"\.(?:to_string|to_owned)\(\)|format!\((?:[^()"]|"[^"]*"|\((?:[^()"]|"[^"]*")*\))*\)', 'message()', 'message text is not under contract')
SPEC = r'''
use core::ops::Range;
global size_of usize == 8;
type SizeRange = Range<usize>;
pub struct Message;
#[verifier::external_body] fn message() -> Message { unimplemented!() }
pub enum Error { MapParseFailure(Message), Other }
type RinghopperResult<T> = Result<T, Error>;
pub trait OverflowCheck: Sized { fn add_overflow_checked(self, o: Self) -> RinghopperResult<Self>; fn sub_overflow_checked(self, o: Self) -> RinghopperResult<Self>; }
/// the bytes of a 32-bit number, least significant first
pub open spec fn le32(d: Seq<u8>, at: int) -> nat { (d[at] as nat + d[at + 1] as nat * 0x100 + d[at + 2] as nat * 0x10000 + d[at + 3] as nat * 0x1000000) as nat }
/// part of a file
pub open spec fn inside(r: SizeRange, d: Seq<u8>) -> bool { r.start <= r.end <= d.len() }
pub open spec fn bytes(r: SizeRange, d: Seq<u8>) -> Seq<u8> { d.subrange(r.start as int, r.end as int) }
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
#[verifier::external_body] fn get_from<'a>(d: &'a [u8], a: usize) -> (r: Option<&'a [u8]>) ensures match r { Some(x) => a <= d@.len() && x@ == d@.skip(a as int), None => a > d@.len() } { unimplemented!() }
#[verifier::external_body] fn get_range<'a>(d: &'a [u8], q: SizeRange) -> (r: Option<&'a [u8]>) ensures match r { Some(x) => inside(q, d@) && x@ == bytes(q, d@), None => !inside(q, d@) } { unimplemented!() }
'''
OVER = '''
impl OverflowCheck for usize {
    fn add_overflow_checked(self, o: usize) -> (r: RinghopperResult<usize>) ensures match r { Ok(v) => v == self + o, Err(_) => self + o > usize::MAX } { match self.checked_add(o) { Some(n) => Ok(n), None => Err(Error::Other) } }
    fn sub_overflow_checked(self, o: usize) -> (r: RinghopperResult<usize>) ensures match r { Ok(v) => v == self - o, Err(_) => self < o } { match self.checked_sub(o) { Some(n) => Ok(n), None => Err(Error::Other) } }
}
'''
RES = r'''
pub struct ResourceMapHeader { pub path_data_offset: u32, pub array_offset: u32, pub count: u32 }
pub struct ResourceMapResource { pub path_offset: u32, pub data_size: u32, pub data_offset: u32 }
// assumed: the generated readers of the two structures (executed by the contracts `resources` and `opened`)
#[verifier::external_body] fn read_header(d: &[u8], at: usize, end: usize) -> (r: RinghopperResult<ResourceMapHeader>)
    ensures match r { Ok(h) => at + 16 <= end && at + 16 <= d@.len() && h.path_data_offset == le32(d@, at + 4) && h.array_offset == le32(d@, at + 8) && h.count == le32(d@, at + 12), Err(_) => at + 16 > end || at + 16 > d@.len() } { unimplemented!() }
#[verifier::external_body] fn read_resource(d: &[u8], at: usize, end: usize) -> (r: RinghopperResult<ResourceMapResource>)
    ensures match r { Ok(h) => at + 12 <= end && at + 12 <= d@.len() && h.path_offset == le32(d@, at as int) && h.data_size == le32(d@, at + 4) && h.data_offset == le32(d@, at + 8), Err(_) => at + 12 > end || at + 12 > d@.len() } { unimplemented!() }
#[verifier::external_body] fn resource_size() -> (r: usize) ensures r == 12 { unimplemented!() }

/// a zero-terminated text starts here, k bytes long
pub open spec fn text(s: Seq<u8>, k: int) -> bool { 0 <= k < s.len() && s[k] == 0 && (forall|i: int| 0 <= i < k ==> s[i] != 0) && utf8(s.take(k)) }
pub open spec fn has_text(s: Seq<u8>) -> bool { exists|k: int| #[trigger] text(s, k) }
/// entry i of the resource file is stored as these ranges
pub open spec fn entry(d: Seq<u8>, i: int, path: SizeRange, data: SizeRange) -> bool {
    let at = le32(d, 8) + 12 * i;
    at + 12 <= d.len() && path.start == le32(d, 4) + le32(d, at) && inside(path, d) && text(d.skip(path.start as int), path.end - path.start)
    && data.start == le32(d, at + 8) && data.end == data.start + le32(d, at + 4) && inside(data, d)
}
pub open spec fn well_formed(d: Seq<u8>) -> bool { d.len() >= 16 && le32(d, 4) <= d.len() && forall|i: int| 0 <= i < le32(d, 12) ==> has_entry(d, i) }
pub open spec fn has_entry(d: Seq<u8>, i: int) -> bool { exists|p: SizeRange, q: SizeRange| #[trigger] entry(d, i, p, q) }
proof fn no_text(s: Seq<u8>) ensures forall|k: int| 0 <= k < s.len() && s[k] == 0 && (forall|i: int| 0 <= i < k ==> s[i] != 0) && !utf8(#[trigger] s.take(k)) ==> !has_text(s), (forall|i: int| 0 <= i < s.len() ==> s[i] != 0) ==> !has_text(s) {
    assert forall|k: int| 0 <= k < s.len() && s[k] == 0 && (forall|i: int| 0 <= i < k ==> s[i] != 0) && !utf8(#[trigger] s.take(k)) implies !has_text(s) by { if has_text(s) { let j = choose|j: int| text(s, j); assert(j == k); } } }
proof fn one_text(s: Seq<u8>, j: int, k: int) requires text(s, j), 0 <= k < s.len(), s[k] == 0, forall|i: int| 0 <= i < k ==> s[i] != 0 ensures j == k {}

pub struct Text<'a> { x: &'a [u8] }
#[verifier::external_body] fn until_nul<'a>(s: &'a [u8]) -> (r: Result<Text<'a>, ()>) ensures match r { Ok(t) => t.x@.len() < s@.len() && t.x@ == s@.take(t.x@.len() as int) && s@[t.x@.len() as int] == 0 && forall|i: int| 0 <= i < t.x@.len() ==> s@[i] != 0, Err(_) => forall|i: int| 0 <= i < s@.len() ==> s@[i] != 0 } { unimplemented!() }
impl<'a> Text<'a> {
    #[verifier::external_body] fn to_str(self) -> (r: Result<&'a [u8], ()>) ensures match r { Ok(s) => utf8(self.x@) && s@ == self.x@, Err(_) => !utf8(self.x@) } { unimplemented!() }
}
impl ResourceMap {
    /// what makes the unchecked accesses sound
    spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.resources@.len() ==> (#[trigger] self.resources@[i]).wf(self.data@) }
}
impl ResourceItem { spec fn wf(&self, d: Seq<u8>) -> bool { inside(self.path, d) && inside(self.data, d) && utf8(bytes(self.path, d)) } }
spec fn shown(r: Resource, i: ResourceItem, d: Seq<u8>) -> bool { r.path@ == bytes(i.path, d) && r.data@ == bytes(i.data, d) && r.data_offset == i.data.start }
// the contracts of the unchecked functions: their safety conditions are preconditions
#[verifier::external_body] fn unchecked<'a>(d: &'a Vec<u8>, q: SizeRange) -> (r: &'a [u8]) requires inside(q, d@) ensures r@ == bytes(q, d@) { unimplemented!() }
#[verifier::external_body] fn unchecked_item<'a>(d: &'a Vec<ResourceItem>, i: usize) -> (r: &'a ResourceItem) requires i < d@.len() ensures *r == d@[i as int] { unimplemented!() }
#[verifier::external_body] fn utf8_unchecked<'a>(d: &'a [u8]) -> (r: &'a [u8]) requires utf8(d@) ensures r@ == d@ { unimplemented!() }
#[verifier::external_body] fn item_at<'a>(d: &'a Vec<ResourceItem>, i: usize) -> (r: Option<&'a ResourceItem>) ensures match r { Some(x) => i < d@.len() && *x == d@[i as int], None => i >= d@.len() } { unimplemented!() }
#[verifier::external_body] fn clone_range(q: &SizeRange) -> (r: SizeRange) ensures r == *q { unimplemented!() }
#[verifier::external_body] fn same_text(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
'''
CL = 'clone of a range'
IMPL = ('impl ResourceMap {\n', '\n}\n')
UNITS = [dict(name='resources', about='ResourceMap::from_data accepts a file exactly when every entry of its array lies in it, and then has exactly those entries; so the unchecked accesses of get, get_unchecked and get_by_path are inside the file and their texts are UTF-8; no overflow for any file', trusted=True, spec=SPEC + OVER + RES, items=[
    Item(R, 'struct', 'ResourceMap'), Item(R, 'struct', 'ResourceItem'),
    Item(R, 'struct', 'Resource', rewrite=[(r"path: &'a str", "path: &'a [u8]", 'a text is given as its bytes')]),
    Item(R, 'fn', 'from_data', within=r'impl ResourceMap', vis='', wrap=IMPL, attrs='#[verifier::loop_isolation(false)]\n', rewrite=[MSG,
        (r'ResourceMapHeader::read::<LittleEndian>', 'read_header', 'assumed contract of the generated reader'), (r'ResourceMapResource::read::<LittleEndian>', 'read_resource', 'assumed contract of the generated reader'),
        (r'ResourceMapResource::simple_size', 'resource_size', 'assumed contract of the generated size'),
        (r'(\w+)\.get\((\w+)\.\.\)', r'get_from(\1, \2)', 'slice::get'), (r'data_slice\.get\(range\.clone\(\)\)', 'get_range(data_slice, clone_range(&range))', 'slice::get'),
        (r'\|_\|', '|_e|', 'the unused argument is named'), (r'std::ffi::CStr::from_bytes_until_nul', 'until_nul', 'assumed contract'),
        (r'debug_assert_eq!\(data_slice\.get\(path_range\.clone\(\)\)\.expect\("path get"\), string\.as_bytes\(\)\);', 'assert(inside(path_range, data_slice@) && bytes(path_range, data_slice@) =~= string@);', 'the debug assertion is proved'),
        (r'let path_range = \(\|\| -> RinghopperResult<SizeRange> \{', '''let path_range = (|| -> (z: RinghopperResult<SizeRange>)
            ensures match z { Ok(p) => p.start == path_data_offset + data.path_offset && inside(p, data_slice@) && text(data_slice@.skip(p.start as int), p.end - p.start),
                Err(_) => path_data_offset + data.path_offset > data_slice@.len() || !has_text(data_slice@.skip(path_data_offset + data.path_offset)) } {''', 'contract of the closure'),
        (r'let data_range = \(\|\| -> RinghopperResult<SizeRange> \{', '''let data_range = (|| -> (z: RinghopperResult<SizeRange>)
            ensures match z { Ok(p) => p.start == data.data_offset && p.end == p.start + data.data_size && inside(p, data_slice@), Err(_) => data.data_offset + data.data_size > data_slice@.len() } {''', 'contract of the closure'),
        (r'(resources\.push\(ResourceItem \{[^}]*\}\))\s*\}', r'\1; }', 'a final expression of unit type spelled as a statement'),
        (r'let mut resources = Vec::new\(\);', 'let mut resources: Vec<ResourceItem> = Vec::new();', 'type')],
        spec='''ensures match r { Ok(m) => well_formed(data@) && m.data@ == data@ && m.resources@.len() == le32(data@, 12) && (forall|i: int| 0 <= i < m.resources@.len() ==> entry(data@, i, (#[trigger] m.resources@[i]).path, m.resources@[i].data)) && m.wf(), Err(_) => !well_formed(data@) }''',
        start='let ghost d = data@;',
        loops=[dict(iter='it', spec='''invariant data_slice@ == d, resource_len == 12, resources@.len() == i, d.len() >= 16, path_data_offset == le32(d, 4) <= d.len(), array_len == le32(d, 12), current_offset == le32(d, 8) + 12 * i, path_data@ == d.skip(path_data_offset as int),
            forall|j: int| 0 <= j < i ==> (#[trigger] resources@[j]).wf(d) && entry(d, j, resources@[j].path, resources@[j].data),''', start='let ghost he = has_entry(d, i as int);',
            end='''proof { let x = resources@[i as int]; assert(d.skip(x.path.start as int).take(x.path.end - x.path.start) =~= bytes(x.path, d)); }''')],
        at=[(r'let string_start = [^;]*;', 'after', 'proof { no_text(string_start@); assert(string_start@ =~= data_slice@.skip(path_data_offset + data.path_offset)); }'),
            (r'let length = string', 'before', 'proof { assert(string_start@.take(string@.len() as int) =~= string@); }'),
            (r'Ok\(ResourceMap', 'before', 'proof { assert forall|i: int| 0 <= i < array_len implies #[trigger] has_entry(d, i) by { assert(resources@[i].wf(d)); } }')]),
    Item(R, 'fn', 'from_resource_item', within=r"impl<'a> Resource<'a>", vis='', wrap=("impl<'a> Resource<'a> {\n", '\n}\n'), rewrite=[
        (r'item\.(data|path)\.clone\(\)', r'clone_range(&item.\1)', CL), (r'map\.data\.get_unchecked\((\w+)\)', r'unchecked(&map.data, \1)', 'its safety condition is a precondition'), (r'std::str::from_utf8_unchecked', 'utf8_unchecked', 'its safety condition is a precondition')],
        spec='requires item.wf(map.data@) ensures shown(r, *item, map.data@)'),
    Item(R, 'fn', 'get', within=r'impl ResourceMap', vis='', wrap=('impl ResourceMap {\n', ''), rewrite=[(r"\(&self, index: usize\) -> Option<Resource>", "<'a>(&'a self, index: usize) -> Option<Resource<'a>>", 'lifetime made explicit'),
            (r'self\.resources\.get\(index\)\.map\(\|resource\|\s*unsafe \{ ([^}]*) \}\s*\)', r"match item_at(&self.resources, index) { Some(resource) => Some(unsafe { \1 }), None => None }", 'Option::map spelled out')],
        spec='requires self.wf() ensures match r { Some(x) => index < self.resources@.len() && shown(x, self.resources@[index as int], self.data@), None => index >= self.resources@.len() }'),
    Item(R, 'fn', 'get_unchecked', within=r'impl ResourceMap', vis='', rewrite=[(r"\(&self, index: usize\) -> Resource ", "<'a>(&'a self, index: usize) -> Resource<'a> ", 'lifetime made explicit'), (r'self\.resources\.get_unchecked\(index\)', 'unchecked_item(&self.resources, index)', 'its safety condition is a precondition')],
        spec='requires self.wf(), index < self.resources@.len() ensures shown(r, self.resources@[index as int], self.data@)'),
    Item(R, 'fn', 'get_by_path', within=r'impl ResourceMap', vis='', wrap=('', '\n}\n'), rewrite=[(r"\(&self, path: &str\) -> Option<Resource>", "<'a>(&'a self, path: &[u8]) -> Option<Resource<'a>>", 'a text is given as its bytes; lifetime made explicit'),
            (r'for resource in &self\.resources \{', 'for k in 0..self.resources.len() { let resource = &self.resources[k];', 'for over a slice spelled as indices'), (r'resource\.path == path', 'same_text(resource.path, path)', 'comparison of texts')],
        spec='''requires self.wf() ensures match r { Some(x) => exists|i: int| 0 <= i < self.resources@.len() && shown(x, #[trigger] self.resources@[i], self.data@) && x.path@ == path@ && (forall|j: int| 0 <= j < i ==> bytes((#[trigger] self.resources@[j]).path, self.data@) != path@),
            None => forall|j: int| 0 <= j < self.resources@.len() ==> bytes((#[trigger] self.resources@[j]).path, self.data@) != path@ }''',
        loops=[dict(spec='invariant self.wf(), forall|j: int| 0 <= j < k ==> bytes((#[trigger] self.resources@[j]).path, self.data@) != path@,')]),
])]

G = 'src/ringhopper/src/map/gearbox.rs'
X = 'src/ringhopper/src/map/xbox.rs'
U = 'src/ringhopper/src/map/util.rs'
M = 'src/ringhopper-primitives/src/map.rs'
COMMON = SPEC + OVER + r'''
pub struct EngineBaseMemoryAddress { pub address: u64, pub inferred: bool }
/// the settings of an engine used here
pub struct Engine { pub external_bsps: bool, pub external_models: bool, pub base_memory_address: EngineBaseMemoryAddress }
pub struct Header { pub name: Text, pub build: Text, pub tag_data_offset: usize, pub tag_data_size: usize, pub crc32: u32 }
pub struct Text; pub struct Scenario { pub structure_bsps: Bsps }
impl Text { #[verifier::external_body] fn to_string(&self) -> String { unimplemented!() } }
#[derive(Clone, Copy)] pub struct ID { pub id: u32 }
impl ID { #[verifier::external_body] fn index(&self) -> (r: Option<u16>) ensures index_of(*self) == (match r { Some(x) => Some(x as nat), None => None }) { unimplemented!() } #[verifier::external_body] fn null() -> ID { unimplemented!() } }
pub struct TagPath { x: u8 } pub struct Ids { x: u8 } pub struct Merged { x: u8 } pub struct CacheFileTag { x: u8 }
#[verifier::external_body] fn no_ids() -> Ids { unimplemented!() }
#[verifier::external_body] fn no_text() -> String { unimplemented!() }
#[verifier::external_body] fn no_scenario() -> Scenario { unimplemented!() }
#[verifier::external_body] fn longest(v: &Vec<BSPDomain>) -> (r: usize) requires v@.len() > 0 { unimplemented!() }
#[verifier::external_body] fn first(v: &Vec<BSPDomain>) -> (r: &BSPDomain) requires v@.len() > 0 ensures *r == v@[0] { unimplemented!() }
#[verifier::external_body] fn estimate(a: usize, n: usize, base: usize) -> Option<usize> { unimplemented!() }
#[verifier::external_body] fn range_len(r: &SizeRange) -> usize { unimplemented!() }
pub uninterp spec fn index_of(id: ID) -> Option<nat>;
/// an identifier names one of the tags
pub open spec fn names(id: ID, tags: Seq<Option<Tag>>) -> bool { index_of(id) is Some && index_of(id)->0 < tags.len() && tags[index_of(id)->0 as int] is Some }
/// the same tags: only addresses and regions may differ
pub open spec fn same_tags(a: Seq<Option<Tag>>, b: Seq<Option<Tag>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] is Some) == (b[i] is Some) && (a[i] is Some ==> a[i]->0.tag_path == b[i]->0.tag_path) }
/// the header, engine and tag data found at the start of a file (P16 engines, executed)
pub uninterp spec fn details(d: Seq<u8>) -> Option<(Header, &'static Engine)>;
#[verifier::external_body] fn get_map_details(d: &[u8]) -> (r: RinghopperResult<(Header, &'static Engine)>) ensures match r { Ok(x) => details(d@) == Some(x), Err(_) => details(d@) is None } { unimplemented!() }
// contracts of functions of this module executed by `opened` and `damaged`, not proved
#[verifier::external_body] fn fixup_bsp_addresses(tags: &mut Vec<Option<Tag>>, bsps: &Vec<BSPDomain>, ids: &Ids) -> (r: Result<(), Error>) ensures same_tags(old(tags)@, final(tags)@) { unimplemented!() }
/// the checksum of some bytes (P05)
pub uninterp spec fn crc(d: Seq<u8>) -> u32;
pub struct CRC32 { x: u32 }
impl CRC32 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] fn new() -> (r: CRC32) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] fn update(&mut self, d: &[u8]) ensures final(self).fed() == old(self).fed() + d@ { unimplemented!() }
    #[verifier::external_body] fn crc(&self) -> (r: u32) ensures r == crc(self.fed()) { unimplemented!() }
}
#[verifier::external_body] fn unchecked<'a>(d: &'a Vec<u8>, q: SizeRange) -> (r: &'a [u8]) requires inside(q, d@) ensures r@ == bytes(q, d@) { unimplemented!() }
#[verifier::external_body] fn item<'a, T>(d: &'a Vec<T>, i: usize) -> (r: Option<&'a T>) ensures match r { Some(x) => i < d@.len() && *x == d@[i as int], None => i >= d@.len() } { unimplemented!() }
#[verifier::external_body] fn clone_range(q: &SizeRange) -> (r: SizeRange) ensures r == *q { unimplemented!() }
pub struct BspHeaderCEA { pub lightmap_vertices: u32, pub lightmap_vertex_size: u32 }
pub struct TagHead { pub tag_array_address: u32, pub scenario_tag: ID, pub tag_count: u32, pub model_data_file_offset: u32, pub model_data_size: u32, pub model_triangle_offset: u32 }
pub struct BspHeader { pub pointer: u32 }
#[verifier::external_body] fn internal_size() -> usize { unimplemented!() }
#[verifier::external_body] fn external_size() -> usize { unimplemented!() }
pub struct Reference { x: u8 }
pub struct Bsp { pub structure_bsp: Reference, pub bsp_start: u32, pub bsp_size: u32, pub bsp_address: u32 }
pub struct Bsps { pub items: Vec<Bsp> }
'''
DEF = [(r'Scenario::default\(\)', 'no_scenario()', 'a default value'), (r'String::new\(\)', 'no_text()', 'a default value')]
def fields(*drop):
    return [(rf'\n\s*{d}: [^\n]*', '', 'field not used here') for d in drop]
TAGS = r'''
#[verifier::external_body] fn get_all_tags(map: &Cache, a: usize, n: usize, z: usize) -> (r: RinghopperResult<(Vec<Option<Tag>>, Vec<CacheFileTag>, Ids)>) requires map.wf() ensures r is Ok ==> (r->Ok_0).0@.len() == n && (r->Ok_0).1@.len() == n { unimplemented!() }
#[verifier::external_body] fn read_head(map: &Cache, a: usize, d: &DomainType) -> RinghopperResult<TagHead> requires map.wf() { unimplemented!() }
/// the ranges of the BSPs lie in the file
pub open spec fn bsps_in(v: Seq<BSPDomain>, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> inside((#[trigger] v[i]).range, d) }
'''
GB = r'''
use Gearbox as Cache;
impl Merged { pub uninterp spec fn has(&self, d: DomainType) -> Option<Seq<u8>>; }
#[verifier::external_body] fn no_merged() -> (r: Merged) ensures forall|d: DomainType| #[trigger] r.has(d) is None { unimplemented!() }
#[verifier::external_body] fn merged<'a>(m: &'a Merged, d: &DomainType) -> (r: Option<&'a Vec<u8>>) ensures match r { Some(x) => m.has(*d) == Some(x@), None => m.has(*d) is None } { unimplemented!() }
pub struct ResourceMap { x: u8 }
impl ResourceMap {
    #[verifier::external_body] fn from_data(d: Vec<u8>) -> RinghopperResult<ResourceMap> { unimplemented!() }
    #[verifier::external_body] fn data(&self) -> &[u8] { unimplemented!() }
}
#[verifier::external_body] fn resource_file<'a>(m: &'a Option<ResourceMap>) -> Option<(&'a [u8], usize)> { unimplemented!() }
#[verifier::external_body] fn resource_entry<'a>(m: &'a Option<ResourceMap>, p: &String) -> Option<(&'a [u8], usize)> { unimplemented!() }
/// the bytes of the first n BSPs that count for the checksum
pub open spec fn bsp_bytes(external: bool, d: Seq<u8>, b: Seq<BSPDomain>, v: Seq<SizeRange>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { bsp_bytes(external, d, b, v, n - 1) + (if external { bytes(v[n - 1], d) } else { Seq::empty() }) + bytes(b[n - 1].range, d) }
}
impl Gearbox {
    /// what makes the unchecked accesses of get_domain sound
    spec fn wf(&self) -> bool {
        inside(self.tag_data, self.data@) && inside(self.vertex_data, self.data@) && inside(self.triangle_data, self.data@) && bsps_in(self.bsp_data@, self.data@)
        && (forall|i: int| 0 <= i < self.bsp_vertex_data@.len() ==> inside(#[trigger] self.bsp_vertex_data@[i], self.data@))
        && forall|d: DomainType| #[trigger] self.merged_sound_resources.has(d) is Some ==> d is ResourceMapEntry
    }
    spec fn same_but_merged(&self, o: &Self) -> bool { *o == (Gearbox { merged_sound_resources: o.merged_sound_resources, ..*self }) }
    /// what a region holds
    spec fn region(&self, d: DomainType) -> Option<(Seq<u8>, nat)> {
        match d {
            DomainType::MapData => Some((self.data@, 0)),
            DomainType::TagData => Some((bytes(self.tag_data, self.data@), self.base_memory_address as nat)),
            DomainType::ModelVertexData => if self.engine.external_models { Some((bytes(self.vertex_data, self.data@), 0)) } else { None },
            DomainType::ModelTriangleData => if self.engine.external_models { Some((bytes(self.triangle_data, self.data@), 0)) } else { None },
            DomainType::BSP(b) => if b < self.bsp_data@.len() { Some((bytes(self.bsp_data@[b as int].range, self.data@), self.bsp_data@[b as int].base_address as nat)) } else { None },
            DomainType::BSPVertices(b) => if b < self.bsp_vertex_data@.len() { Some((bytes(self.bsp_vertex_data@[b as int], self.data@), 0)) } else { None },
            _ => None
        }
    }
    spec fn bsp_bytes(&self, n: int) -> Seq<u8> { bsp_bytes(self.engine.external_bsps, self.data@, self.bsp_data@, self.bsp_vertex_data@, n) }
    spec fn sum(&self) -> u32 { crc(self.bsp_bytes(self.bsp_data@.len() as int) + (if self.engine.external_models { bytes(self.vertex_data, self.data@) + bytes(self.triangle_data, self.data@) } else { Seq::empty() }) + bytes(self.tag_data, self.data@)) }
    // assumed: merges sounds only (executed by the contract `opened`)
    #[verifier::external_body] fn handle_external_tags(&mut self, engine: &Engine, n: usize, tags: &mut Vec<Option<Tag>>, cached: &Vec<CacheFileTag>) -> (r: RinghopperResult<()>)
        requires old(tags)@.len() == n, cached@.len() == n, old(self).wf() ensures old(self).same_but_merged(final(self)), final(self).wf(), same_tags(old(tags)@, final(tags)@) { unimplemented!() }
}
#[verifier::external_body] fn read_cea(map: &Gearbox, a: usize, d: &DomainType) -> RinghopperResult<BspHeaderCEA> requires map.wf() { unimplemented!() }
'''
SCEN = r'''
#[verifier::external_body] fn read_scenario(map: &Cache, a: usize, d: &DomainType) -> RinghopperResult<Scenario> requires map.wf() { unimplemented!() }
#[verifier::external_body] fn read_bsp(map: &Cache, a: usize, d: &DomainType) -> RinghopperResult<BspHeader> requires map.wf() { unimplemented!() }
// paths and groups (P06, P07), by the contracts of their comparisons
impl TagPath { pub uninterp spec fn scenario(&self) -> bool; }
#[verifier::external_body] fn is_scenario(p: &TagPath) -> (r: bool) ensures r == p.scenario() { unimplemented!() }
#[verifier::external_body] fn same_path(a: &TagPath, b: &TagPath) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] fn has_path(a: &Option<TagPath>, b: &TagPath) -> (r: bool) ensures r == (*a == Some(*b)) { unimplemented!() }
#[verifier::external_body] fn own_path(a: Option<&TagPath>) -> (r: Option<TagPath>) ensures r == (match a { Some(p) => Some(*p), None => None }) { unimplemented!() }
impl Reference { pub uninterp spec fn shown(&self) -> Option<TagPath>; #[verifier::external_body] fn path(&self) -> (r: Option<&TagPath>) ensures self.shown() == (match r { Some(p) => Some(*p), None => None }) { unimplemented!() } }
impl Cache {
    // P09
    #[verifier::external_body] fn get_data_at_address(&self, a: usize, d: &DomainType, n: usize) -> (r: Option<&[u8]>) requires self.wf(), *d is MapData ensures r is Some <==> a + n <= self.data@.len() { unimplemented!() }
}
/// the identifier names a scenario tag, and every scenario tag is that one
pub open spec fn one_scenario(id: ID, tags: Seq<Option<Tag>>) -> bool { names(id, tags) && tags[index_of(id)->0 as int]->0.tag_path.scenario() && forall|i: int| 0 <= i < tags.len() && (#[trigger] tags[i]) is Some && tags[i]->0.tag_path.scenario() ==> tags[i]->0.tag_path == tags[index_of(id)->0 as int]->0.tag_path }
proof fn keep(id: ID, a: Seq<Option<Tag>>, b: Seq<Option<Tag>>) requires one_scenario(id, a), same_tags(a, b) ensures one_scenario(id, b) {
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Some && b[i]->0.tag_path.scenario() implies b[i]->0.tag_path == b[index_of(id)->0 as int]->0.tag_path by { assert(a[i] is Some); }
    let j = index_of(id)->0 as int; assert(a[j] is Some);
}
/// the BSPs are those of the scenario, in its order
pub open spec fn bsps_of(v: Seq<BSPDomain>, b: Seq<Bsp>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).range.start == b[i].bsp_start && v[i].range.end == b[i].bsp_start + b[i].bsp_size && v[i].base_address == b[i].bsp_address && v[i].path == b[i].structure_bsp.shown() }
pub open spec fn distinct(v: Seq<BSPDomain>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).path is Some ==> v[i].path != (#[trigger] v[j]).path }
'''
ITEMS = [Item(M, 'enum', 'ResourceMapType'), Item(M, 'enum', 'DomainType'),
    Item(M, 'struct', 'Tag'), Item('src/ringhopper/src/map.rs', 'struct', 'BSPDomain', rewrite=[(r'struct BSPDomain', 'pub struct BSPDomain', 'visibility'), (r'\n(\s*)(path|range|base_address|tag_address):', r'\n\1pub \2:', 'visibility')]),
    Item(U, 'fn', 'get_tag_data_details', vis='', attrs='', rewrite=[MSG, (r'ParsedCacheFileHeader', 'Header', 'name'), (r'header::get_map_details\(&data\)', 'get_map_details(data)', 'path and reborrow'), (r'data\.get\(tag_data_range\.clone\(\)\)', 'get_range(data, clone_range(&tag_data_range))', 'slice::get')],
        start='proof { assert(data@.len() == data.len()); }', spec='ensures match r { Ok((h, e, q)) => details(data@) == Some((h, e)) && q.start == h.tag_data_offset && q.end == q.start + h.tag_data_size && inside(q, data@), Err(_) => details(data@) is None || (details(data@)->0).0.tag_data_offset + (details(data@)->0).0.tag_data_size > data@.len() }')]
ITEMS.append(Item(U, 'fn', 'load_scenario_info', vis='', attrs='#[verifier::loop_isolation(false)]\n', rewrite=[MSG, (r'<M: Map>\(map: &M,', '(map: &Cache,', 'the map in question'), (r'(\w+)\.tag_path\.group\(\) (!=|==) TagGroup::Scenario', r'(is_scenario(&\1.tag_path) \2 true)', 'comparison of groups'),
        (r'tag\.tag_path != scenario\.tag_path', '!same_path(&tag.tag_path, &scenario.tag_path)', 'comparison of paths'), (r'for t in tags \{', 'let mut k = 0; while k < tags.len() { let t = &tags[k]; k += 1;', 'for over a slice spelled as while'),
        (r'Scenario::read_from_map', 'read_scenario', 'assumed reader'), (r'ScenarioStructureBSPCompiledHeader::read_from_map', 'read_bsp', 'assumed reader'),
        (r'for i in &bsps \{', 'for m in 0..bsps.len() { let i = &bsps[m];', 'for over a slice spelled as indices'), (r'i\.path\.as_ref\(\)\.is_some_and\(\|p\| p == path\)', 'has_path(&i.path, path)', 'comparison of paths'),
        (r'bsp\.structure_bsp\.path\(\)\.map\(\|p\| p\.to_owned\(\)\)', 'own_path(bsp.structure_bsp.path())', 'clone of a path'), (r'header\.pointer\.into\(\)', 'header.pointer as usize', 'the value of an address')],
    spec='requires map.wf(), map.tags@ == tags@ ensures match r { Ok((s, b)) => one_scenario(scenario_tag, tags@) && bsps_of(b@, s.structure_bsps.items@, s.structure_bsps.items@.len() as int) && bsps_in(b@, map.data@) && distinct(b@), Err(_) => true }',
    start='proof { assert(map.data@.len() == map.data.len()); }',
    loops=[dict(spec='invariant k <= tags.len(), forall|i: int| 0 <= i < k && (#[trigger] tags@[i]) is Some && tags@[i]->0.tag_path.scenario() ==> tags@[i]->0.tag_path == scenario.tag_path, decreases tags.len() - k'),
        dict(spec='invariant bsp_count == scenario_tag_data.structure_bsps.items@.len(), bsps_of(bsps@, scenario_tag_data.structure_bsps.items@, bsp_index as int), bsps_in(bsps@, map.data@), distinct(bsps@),'),
        dict(spec='invariant forall|z: int| 0 <= z < m ==> (#[trigger] bsps@[z]).path != Some(*path),')]))
BYID = Item(G, 'fn', 'get_tag_by_id', within=r'impl Map for GearboxCacheFile', vis='', rewrite=[(r'self\.tags\.get\(id\.index\(\)\? as usize\)\?', 'item(&self.tags, id.index()? as usize)?', 'slice::get')],
    spec='ensures match r { Some(t) => names(id, self.tags@) && *t == self.tags@[index_of(id)->0 as int]->0, None => !names(id, self.tags@) }')
SCT = Item(G, 'fn', 'get_scenario_tag', within=r'impl Map for GearboxCacheFile', vis='', spec='requires names(self.scenario_tag, self.tags@) ensures *r == self.tags@[index_of(self.scenario_tag)->0 as int]->0')
def new(extra):
    return [MSG, (r'super::util::', '', 'path'), (r'(tag_data|vertex_data|triangle_data): Default::default\(\)', r'\1: 0..0', 'the default range'), (r'(tags|bsp_data): Default::default\(\)', r'\1: Vec::new()', 'the default vector'), (r'ids: Default::default\(\)', 'ids: no_ids()', 'a default value'),
        (r'tag_data_header((?:\.cache_file_tag_data_header)?)\.tag_array_address\.into\(\)', r'tag_data_header\1.tag_array_address as usize', 'the value of an address'), (r'get_tag_data_details\(&data\)', 'get_tag_data_details(data.as_slice())', 'deref'), (r'get_all_tags\(&mut map,', 'get_all_tags(&map,', 'reborrow'),
        (r'map\.bsp_data\.iter\(\)\.map\(\|b\| b\.range\.len\(\)\)\.max\(\)\.expect\("no bsps\?"\)', 'longest(&map.bsp_data)', 'iterator; there is a BSP'), (r'map\.bsp_data\.first\(\)\.expect\("bsp"\)', 'first(&map.bsp_data)', 'first of a slice; there is a BSP'),
        (r'first_bsp\s*\.base_address\s*\.checked_add\(first_bsp\.range\.len\(\)\)\.and_then\(\|b\| b\.checked_sub\(map\.base_memory_address\)\)', 'estimate(first_bsp.base_address, range_len(&first_bsp.range), map.base_memory_address)', 'Option::and_then'),
        (r'debug_assert!\(map\.data\.get\(map\.(\w+)\.clone\(\)\)\.is_some\(\)\)', r'assert(inside(map.\1, map.data@))', 'the debug assertion is proved'), (r'debug_assert!\(map\.bsp_data\.iter\(\)\.all\(\|f\| map\.data\.get\(f\.range\.clone\(\)\)\.is_some\(\)\)\)', 'assert(bsps_in(map.bsp_data@, map.data@))', 'the debug assertion is proved'),
        (r'load_scenario_info\(&map, map\.scenario_tag, &map\.tags\)', 'load_scenario_info(&map, map.scenario_tag, &map.tags)', 'unchanged')] + DEF + extra
DOMR = [(r'self\.data\.get_unchecked\(([\w.]+)\.clone\(\)\)', r'unchecked(&self.data, clone_range(&\1))', 'its safety condition is a precondition'), (r'self\.(\w+)\.get\(\*b\)\?', r'item(&self.\1, *b)?', 'slice::get')]
UNITS += [dict(name='gearbox', about='GearboxCacheFile::new, get_tag_data_details, load_model_data, load_external_vertex_data, get_domain: every region lies inside the file whatever the file holds (the unchecked accesses are sound), is the one the headers denote, and the checksum is computed over exactly the regions that count; a wrong one is refused when strict; the scenario identifier names a tag; no overflow', trusted=True,
    spec='', rlimit=40, items=[Item(M, 'enum', 'ResourceMapType', wrap=(COMMON + TAGS + GB + SCEN, ''))] + ITEMS[1:] + [
    Item('src/ringhopper-primitives/src/tag.rs', 'enum', 'ParseStrictness'), Item('src/ringhopper-primitives/src/tag.rs', 'const', 'IGNORED_CRC32'),
    Item(G, 'struct', 'GearboxCacheFile', rewrite=[(r'GearboxCacheFile', 'Gearbox', 'name'), (r'HashMap<TagPath, ID>', 'Ids', 'opaque'), (r'HashMap<DomainType, Vec<u8>>', 'Merged', 'opaque')]),
    Item(G, 'fn', 'new', within=r'impl GearboxCacheFile', vis='', wrap=('impl Gearbox {\n', ''), attrs='#[verifier::loop_isolation(false)]\n', rewrite=new([(r'HashMap::new\(\)', 'no_merged()', 'a default value'), (r'CacheFileTagDataHeader::read_from_map', 'read_head', 'assumed reader'), (r'CacheFileTagDataHeaderExternalModels::simple_size\(\)', 'external_size()', 'assumed size'), (r'CacheFileTagDataHeaderInternalModels::simple_size\(\)', 'internal_size()', 'assumed size'),
            (r'for bsp in 0\.\.map\.bsp_data\.len\(\)', 'for bsp in 0..map.bsp_data.len()', 'unchanged')]),
        spec='''ensures match r { Ok(m) => m.wf() && m.data@ == data@ && details(data@) is Some && m.tag_data.start == (details(data@)->0).0.tag_data_offset && m.tag_data.end == m.tag_data.start + (details(data@)->0).0.tag_data_size && one_scenario(m.scenario_tag, m.tags@)
            && m.crc32 == ((details(data@)->0).0.crc32, m.sum()) && (parse_strictness is Strict && m.crc32.0 != 0xFFFFFFFF ==> m.crc32.0 == m.crc32.1), Err(_) => true }''',
        loops=[dict(spec='invariant hasher.fed() == map.bsp_bytes(bsp as int),', end='proof { assert(hasher.fed() =~= map.bsp_bytes(bsp + 1)); }')],
        at=[(r'fixup_bsp_addresses\(&mut map', 'before', 'let ghost t0 = map.tags@; '), (r'map\.used_tag_space = map\.tag_data', 'before', 'proof { keep(map.scenario_tag, t0, map.tags@); }'), (r'let calculated_crc', 'before', 'proof { assert(hasher.fed() =~= map.bsp_bytes(map.bsp_data@.len() as int) + (if map.engine.external_models { bytes(map.vertex_data, map.data@) + bytes(map.triangle_data, map.data@) } else { Seq::empty() }) + bytes(map.tag_data, map.data@)); }')]),
    Item(G, 'fn', 'load_external_vertex_data', within=r'impl GearboxCacheFile', vis='', rewrite=[MSG, (r'self\.bsp_vertex_data\.reserve\(bsp_count\);', '', 'capacity is not under contract'), (r'ScenarioStructureBSPCompiledHeaderCEA::read_from_map', 'read_cea', 'assumed reader'), (r'self\.data\.get\(range\.clone\(\)\)', 'get_range(self.data.as_slice(), clone_range(&range))', 'slice::get')],
        spec='requires old(self).wf(), old(self).bsp_vertex_data@.len() == 0 ensures *final(self) == (Gearbox { bsp_vertex_data: final(self).bsp_vertex_data, ..*old(self) }), r is Ok ==> final(self).wf() && final(self).bsp_vertex_data@.len() == final(self).bsp_data@.len()',
        loops=[dict(spec='invariant self.wf(), self.bsp_vertex_data@.len() == bsp_index, bsp_count == self.bsp_data@.len(), *self == (Gearbox { bsp_vertex_data: self.bsp_vertex_data, ..*old(self) }),')]),
    Item(G, 'fn', 'load_model_data', within=r'impl GearboxCacheFile', vis='', rewrite=[MSG, (r'CacheFileTagDataHeaderExternalModels::read_from_map', 'read_head', 'assumed reader'), (r'self\.data\.get\(model_data_range\.clone\(\)\)', 'get_range(self.data.as_slice(), clone_range(&model_data_range))', 'slice::get')],
        spec='requires old(self).wf() ensures *final(self) == (Gearbox { vertex_data: final(self).vertex_data, triangle_data: final(self).triangle_data, ..*old(self) }), r is Ok ==> final(self).wf() && final(self).vertex_data.end == final(self).triangle_data.start'),
    BYID, SCT,
    Item(G, 'fn', 'get_domain', within=r'impl Map for GearboxCacheFile', vis='', wrap=('', '\n}\n'), rewrite=[(r'self\.merged_sound_resources\.get\(&domain\)', 'merged(&self.merged_sound_resources, domain)', 'HashMap::get'),
            (r'return Some\(\(n, 0\)\)', 'return Some((n.as_slice(), 0))', 'deref'), (r'self\.(bitmaps|sounds|loc)\.as_ref\(\)\.map\(\|b\| \(b\.data\(\), 0\)\)', r'resource_file(&self.\1)', 'executed'), (r'Some\(\(self\.(bitmaps|sounds|loc)\.as_ref\(\)\?\.get_by_path\(path\)\?\.get_data\(\), 0\)\)', r'resource_entry(&self.\1, path)', 'executed'),
            (r'unsafe \{ Some\(\(([^;{}]*), 0\)\) \}', r'Some((unsafe { \1 }, 0))', 'block moved')] + DOMR,
        spec='requires self.wf() ensures !(domain is ResourceMapEntry) && !(domain is ResourceMapFile) ==> (match r { Some(x) => Some((x.0@, x.1 as nat)), None => None }) == self.region(*domain)'),
    ])]

XB = r'''
use Xbox as Cache;
impl Xbox {
    /// what makes the unchecked accesses of get_domain sound
    spec fn wf(&self) -> bool { inside(self.tag_data, self.data@) && bsps_in(self.bsp_data@, self.data@) }
    spec fn region(&self, d: DomainType) -> Option<(Seq<u8>, nat)> {
        match d {
            DomainType::MapData => Some((self.data@, 0)),
            DomainType::TagData => Some((bytes(self.tag_data, self.data@), self.base_memory_address as nat)),
            DomainType::BSP(b) => if b < self.bsp_data@.len() { Some((bytes(self.bsp_data@[b as int].range, self.data@), self.bsp_data@[b as int].base_address as nat)) } else { None },
            _ => None
        }
    }
}
'''
import copy
def on(item, within):
    i = copy.copy(item); i.within, i.dropped, i.file = within, [], X
    return i
UNITS += [dict(name='xbox', about='XboxCacheFile::new, load_scenario_info, get_domain, get_tag_by_id, get_scenario_tag: every region lies inside the file whatever the file holds and is the one the headers and the scenario denote; the scenario identifier names the only scenario tag; no overflow', trusted=True,
    spec='', rlimit=40, items=[Item(M, 'enum', 'ResourceMapType', wrap=(COMMON + TAGS + XB + SCEN, ''))] + [copy.copy(i) for i in ITEMS[1:]] + [
    Item('src/ringhopper-primitives/src/tag.rs', 'enum', 'ParseStrictness'),
    Item(X, 'struct', 'XboxCacheFile', rewrite=[(r'XboxCacheFile', 'Xbox', 'name'), (r'HashMap<TagPath, ID>', 'Ids', 'opaque')]),
    Item(X, 'fn', 'new', within=r'impl XboxCacheFile', vis='', wrap=('impl Xbox {\n', ''), rewrite=[r for r in new([]) if 'vertex_data' not in r[0] and not r[0].startswith('"[^')] + [(r'CacheFileTagDataHeaderInternalModels::read_from_map', 'read_head', 'assumed reader'), (r'CacheFileTagDataHeaderInternalModels::simple_size\(\)', 'internal_size()', 'assumed size'),
            (r'tag_data_header\.cache_file_tag_data_header\.', 'tag_data_header.', 'the embedded structure'), (r'(tag_data): Default::default\(\)', r'\1: 0..0', 'the default range'), (r'debug_assert!\(!engine\.external_\w+[^;]*\);', '', 'a property of the engine, not of the file'), (r', _: ParseStrictness', ', _s: ParseStrictness', 'the unused argument is named')],
        spec='''ensures match r { Ok(m) => m.wf() && m.data@ == data@ && details(data@) is Some && m.tag_data.start == (details(data@)->0).0.tag_data_offset && m.tag_data.end == m.tag_data.start + (details(data@)->0).0.tag_data_size && one_scenario(m.scenario_tag, m.tags@), Err(_) => true }''',
        at=[(r'fixup_bsp_addresses\(&mut map', 'before', 'let ghost t0 = map.tags@; '), (r'map\.used_tag_space = map\.tag_data', 'before', 'proof { keep(map.scenario_tag, t0, map.tags@); }')]),
    on(BYID, 'impl Map for XboxCacheFile'), on(SCT, 'impl Map for XboxCacheFile'),
    Item(X, 'fn', 'get_domain', within=r'impl Map for XboxCacheFile', vis='', wrap=('', '\n}\n'), rewrite=DOMR, spec='requires self.wf() ensures (match r { Some(x) => Some((x.0@, x.1 as nat)), None => None }) == self.region(*domain)'),
    ])]
