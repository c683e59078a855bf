from extract import Item
from tagdata import *
import copy
T = 'src/ringhopper-primitives/src/tag.rs'
G = 'src/ringhopper-primitives/src/primitive/group.rs'
ERRS = ERRORS.replace('SizeLimitExceeded }', 'SizeLimitExceeded, ChecksumMismatch, TagHeaderGroupTypeMismatch, TagHeaderGroupVersionMismatch }')
# a value that was read, and where
SEEN = TRAIT.replace('spec fn enc(&self, big: bool) -> Seq<u8>;', 'spec fn enc(&self, big: bool) -> Seq<u8>;\n    /// what reading it says about the data\n    spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool;').replace('r is Ok ==> r->Ok_0.sok(),', 'r is Ok ==> r->Ok_0.sok() && r->Ok_0.seen(data@, at as int, B::big()),')
SEEN = SEEN.replace('spec fn tail(&self) -> Seq<u8>;', 'spec fn tail(&self) -> Seq<u8>;\n    /// where the data appended for a value at this place ends, if what is appended begins at c\n    spec fn used(d: Seq<u8>, at: int, c: int) -> int;').replace('r is Ok ==> r->Ok_0.ok(),', 'r is Ok ==> r->Ok_0.ok() && *final(extra_data_cursor) == Self::used(data@, at as int, *old(extra_data_cursor) as int),')
assert SEEN.count('seen(') == 2 and SEEN.count('used(') == 2
SIMPLE = [copy.copy(i) for i in SIMPLE]
SIMPLE[0].wrap = (SIMPLE[0].wrap[0].replace('proof fn sz_law', 'open spec fn used(d: Seq<u8>, at: int, c: int) -> int { c }\n    proof fn sz_law'), SIMPLE[0].wrap[1])
SIMPLE[1].spec = SIMPLE[1].spec + ', r is Ok ==> r->Ok_0.seen(data@, at as int, true)'
NUM = '''
pub open spec fn enc16(v: u16, big: bool) -> Seq<u8> { if big { seq![(v >> 8) as u8, (v & 0xFF) as u8] } else { seq![(v & 0xFF) as u8, (v >> 8) as u8] } }
// contracts of the numbers and of padding: discharged by Kani for every value and position in check P04
impl SimpleTagData for u32 {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(*self, big) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { at_pos(enc32(*self, big), d, at) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
impl SimpleTagData for u16 {
    open spec fn ssz() -> nat { 2 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc16(*self, big) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { at_pos(enc16(*self, big), d, at) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 2 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
impl SimpleTagData for Padding<[u8; 8]> {
    open spec fn ssz() -> nat { 8 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { true }
    open spec fn enc(&self, big: bool) -> Seq<u8> { zeros(8) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { true }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 8 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
impl Default for Padding<[u8; 8]> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
// 32-character strings: discharged by Kani in check P04
#[derive(Clone, Copy)]
pub struct String32 { string_data: [u8; 32] }
pub uninterp spec fn string_bytes(s: String32) -> Seq<u8>;
pub broadcast axiom fn string_len(s: String32) ensures (#[trigger] string_bytes(s)).len() == 32;
impl Default for String32 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl SimpleTagData for String32 {
    open spec fn ssz() -> nat { 32 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { string_bytes(*self) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { true }
    proof fn ssz_law() {}
    proof fn slaw(&self) { broadcast use string_len; }
    fn simple_size() -> (r: usize) { 32 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
// group codes: their agreement is discharged by Kani for all 32-bit codes in check P07
pub uninterp spec fn code(g: TagGroup) -> u32;
pub uninterp spec fn group_of(c: u32) -> Option<TagGroup>;
pub broadcast axiom fn code_round_trip(g: TagGroup) ensures #[trigger] group_of(code(g)) == Some(g);
pub broadcast axiom fn group_round_trip(c: u32) ensures (#[trigger] group_of(c)) is Some ==> code(group_of(c)->0) == c;
impl TagGroup {
    #[verifier::external_body] fn from_fourcc(c: u32) -> (r: Option<TagGroup>) ensures r == group_of(c) { unimplemented!() }
    #[verifier::external_body] fn as_fourcc(&self) -> (r: u32) ensures r == code(*self) { unimplemented!() }
}
// the checksum: proved in check P05 over the text of crc32.rs, for data of every length
pub uninterp spec fn crc_of(s: Seq<u8>) -> u32;
pub struct CRC32 { crc: u32 }
impl View for CRC32 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CRC32 {
    #[verifier::external_body] pub fn new() -> (r: CRC32) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, data: &[u8]) ensures final(self)@ == old(self)@ + data@ { unimplemented!() }
    #[verifier::external_body] pub fn crc(&self) -> (r: u32) ensures r == crc_of(self@) { unimplemented!() }
}
// the standard library
#[verifier::external_body] fn slice_from(s: &[u8], at: usize) -> (r: &[u8]) requires at <= s@.len() ensures r@ == s@.skip(at as int) { &s[at..] }
#[verifier::external_body] fn vec_from(s: &Vec<u8>, at: usize) -> (r: &[u8]) requires at <= s@.len() ensures r@ == s@.skip(at as int) { &s[at..] }
#[verifier::external_body] fn fill_up(s: &mut Vec<u8>, n: usize) requires old(s)@.len() <= n ensures final(s)@ == old(s)@ + zeros((n - old(s)@.len()) as nat) { s.resize(n, 0) }
'''
LEM = '''
proof fn put_put(d: Seq<u8>, at: int, x: Seq<u8>, y: Seq<u8>) requires 0 <= at, at + x.len() + y.len() <= d.len()
    ensures put(put(d, at, x), at + x.len(), y) == put(d, at, x + y) { assert(put(put(d, at, x), at + x.len(), y) =~= put(d, at, x + y)); }
proof fn pos_split(x: Seq<u8>, y: Seq<u8>, d: Seq<u8>, at: int) requires 0 <= at, at_pos(x + y, d, at) ensures at_pos(x, d, at), at_pos(y, d, at + x.len()) {
    let z = cut(d, at, (x + y).len() as int);
    assert(z =~= x + y);
    assert forall|i: int| 0 <= i < x.len() implies d[at + i] == x[i] by { assert(z[i] == (x + y)[i]); }
    assert forall|i: int| 0 <= i < y.len() implies d[at + x.len() + i] == y[i] by { assert(z[x.len() + i] == (x + y)[x.len() + i]); }
    assert(cut(d, at, x.len() as int) =~= x);
    assert(cut(d, at + x.len(), y.len() as int) =~= y);
}
'''
HEAD = '''
/// an identifier in a header: a null one is stored as zero
pub open spec fn hid(i: ID) -> u32 { if i.id == 0xFFFFFFFF { 0 } else { i.id } }
pub open spec fn h1(i: u32, s: String32, b: bool) -> Seq<u8> { enc32(i, b) + string_bytes(s) }
pub open spec fn h3(i: u32, s: String32, g: u32, c: u32, b: bool) -> Seq<u8> { h1(i, s, b) + enc32(g, b) + enc32(c, b) }
pub open spec fn h5(i: u32, s: String32, g: u32, c: u32, z: u32, b: bool) -> Seq<u8> { h3(i, s, g, c, b) + enc32(z, b) + zeros(8) }
/// the 64 bytes of a header
pub open spec fn header(i: u32, s: String32, g: u32, c: u32, z: u32, v: u16, k: u16, f: u32, b: bool) -> Seq<u8> { h5(i, s, g, c, z, b) + enc16(v, b) + enc16(k, b) + enc32(f, b) }
proof fn header_len(i: u32, s: String32, g: u32, c: u32, z: u32, v: u16, k: u16, f: u32, b: bool) ensures header(i, s, g, c, z, v, k, f, b).len() == 0x40, string_bytes(s).len() == 32, h1(i, s, b).len() == 36, h3(i, s, g, c, b).len() == 44, h5(i, s, g, c, z, b).len() == 56 { broadcast use string_len; }
proof fn header_parts(i: u32, s: String32, g: u32, c: u32, z: u32, v: u16, k: u16, f: u32, b: bool, d: Seq<u8>, at: int)
    requires 0 <= at, at_pos(header(i, s, g, c, z, v, k, f, b), d, at)
    ensures at_pos(string_bytes(s), d, at + 4), at_pos(enc32(g, b), d, at + 0x24), at_pos(enc32(c, b), d, at + 0x28), at_pos(enc32(z, b), d, at + 0x2C), at_pos(zeros(8), d, at + 0x30), at_pos(enc16(v, b), d, at + 0x38), at_pos(enc16(k, b), d, at + 0x3A), at_pos(enc32(f, b), d, at + 0x3C)
{
    header_len(i, s, g, c, z, v, k, f, b);
    let x = h5(i, s, g, c, z, b); let y = h3(i, s, g, c, b); let w = h1(i, s, b);
    pos_split(x + enc16(v, b) + enc16(k, b), enc32(f, b), d, at); pos_split(x + enc16(v, b), enc16(k, b), d, at); pos_split(x, enc16(v, b), d, at);
    pos_split(y + enc32(z, b), zeros(8), d, at); pos_split(y, enc32(z, b), d, at);
    pos_split(w + enc32(g, b), enc32(c, b), d, at); pos_split(w, enc32(g, b), d, at); pos_split(enc32(i, b), string_bytes(s), d, at);
}
proof fn header_join(i: u32, s: String32, g: u32, c: u32, z: u32, v: u16, k: u16, f: u32, b: bool, d: Seq<u8>, at: int) requires 0 <= at, at + 0x40 <= d.len()
    ensures put(put(put(put(put(put(put(put(put(d, at, enc32(i, b)), at + 4, string_bytes(s)), at + 0x24, enc32(g, b)), at + 0x28, enc32(c, b)), at + 0x2C, enc32(z, b)), at + 0x30, zeros(8)), at + 0x38, enc16(v, b)), at + 0x3A, enc16(k, b)), at + 0x3C, enc32(f, b)) == put(d, at, header(i, s, g, c, z, v, k, f, b))
{
    header_len(i, s, g, c, z, v, k, f, b);
    let x = h5(i, s, g, c, z, b); let y = h3(i, s, g, c, b); let w = h1(i, s, b);
    put_put(d, at, enc32(i, b), string_bytes(s)); put_put(d, at, w, enc32(g, b)); put_put(d, at, w + enc32(g, b), enc32(c, b)); put_put(d, at, y, enc32(z, b)); put_put(d, at, y + enc32(z, b), zeros(8));
    put_put(d, at, x, enc16(v, b)); put_put(d, at, x + enc16(v, b), enc16(k, b)); put_put(d, at, x + enc16(v, b) + enc16(k, b), enc32(f, b));
}
impl TagFileHeader {
    pub open spec fn bytes(&self, b: bool) -> Seq<u8> { header(hid(self.id), self.string, code(self.group), self.crc32, self.header_size, self.version, self.u16_255, self.blam_fourcc, b) }
    /// the stored fields of the header are at this place of the data
    pub open spec fn stored(&self, d: Seq<u8>, at: int, b: bool) -> bool {
        at + 0x40 <= d.len() && at_pos(enc32(code(self.group), b), d, at + 0x24) && at_pos(enc32(self.crc32, b), d, at + 0x28) && at_pos(enc32(self.header_size, b), d, at + 0x2C)
            && at_pos(enc16(self.version, b), d, at + 0x38) && at_pos(enc16(self.u16_255, b), d, at + 0x3A) && at_pos(enc32(self.blam_fourcc, b), d, at + 0x3C)
    }
    pub open spec fn valid(&self) -> bool { self.blam_fourcc == 0x626C616D && self.u16_255 == 255 && self.header_size == 0x40 }
}
'''
THEOREMS = '''
pub trait PrimaryTagStruct: TagData {
    spec fn grp() -> TagGroup;
    spec fn ver() -> u16;
    fn group() -> (r: TagGroup) ensures r == Self::grp();
    fn version() -> (r: u16) ensures r == Self::ver();
}
/// a header is good for this data and this way of reading
pub open spec fn sealed(h: TagFileHeader, d: Seq<u8>, s: ParseStrictness) -> bool { h.crc32 == 0xFFFFFFFF || s is Relaxed || h.crc32 == crc_of(d) }
/// a header of that group and version with the checksum of everything after it
pub open spec fn own_header<T: PrimaryTagStruct>(h: TagFileHeader, body: Seq<u8>) -> bool { h.valid() && h.group == T::grp() && h.version == T::ver() && h.crc32 == crc_of(body) }
/// d is a tag file of t with header h
pub open spec fn file_of<T: PrimaryTagStruct>(h: TagFileHeader, t: &T, d: Seq<u8>) -> bool { own_header::<T>(h, t.head() + t.tail()) && d == h.bytes(true) + (t.head() + t.tail()) }
pub open spec fn tag_file_of<T: PrimaryTagStruct>(t: &T, d: Seq<u8>) -> bool { exists|h: TagFileHeader| #[trigger] file_of(h, t, d) }
proof fn file_parts<T: PrimaryTagStruct>(h: TagFileHeader, t: &T, d: Seq<u8>) requires file_of(h, t, d) ensures at_pos(h.bytes(true), d, 0), d.skip(0x40) == t.head() + t.tail(), own_header::<T>(h, d.skip(0x40)) {
    own_len(h); let b = h.bytes(true); let x = t.head() + t.tail(); assert(cut(b + x, 0, 0x40) =~= b); assert((b + x).skip(0x40) =~= x);
}
proof fn own_len(h: TagFileHeader) ensures h.bytes(true).len() == 0x40 { header_len(hid(h.id), h.string, code(h.group), h.crc32, h.header_size, h.version, h.u16_255, h.blam_fourcc, true); }
'''
ROUND = '''
/// what is written as a tag file is accepted by the strict reader as the same value
fn written_is_read<T: PrimaryTagStruct>(t: &T) -> (r: bool) ensures r {
    match TagFile::to_tag_file(t) {
        Err(_) => true,
        Ok(f) => {
            proof { let h = choose|h: TagFileHeader| #[trigger] file_of(h, t, f@); file_parts(h, t, f@); }
            match TagFile::read_tag_from_file_buffer::<T>(f.as_slice(), ParseStrictness::Strict) { Ok(v) => { assert(t.same(&v)); true }, Err(_) => false }
        }
    }
}
'''
HFN = r'impl SimpleTagData for TagFileHeader'
ITEMS = [
    Item(D, 'struct', 'Padding', rewrite=[('T: Sized \\+ Default', 'T: Sized', 'bound not needed')], attrs='#[derive(Clone, Copy)]\n'),
    Item(D, 'struct', 'ID', attrs='#[derive(Copy, Clone)]\n', rewrite=[(r'\bid: u32', 'pub id: u32', 'field visibility')]),
    Item(D, 'fn', 'null', within=r'impl ID\b', vis='', spec='ensures r.id == 0xFFFFFFFF', wrap=('impl ID {\n', '')),
    Item(D, 'fn', 'is_null', within=r'impl ID\b', vis='', spec='ensures r == (self.id == 0xFFFFFFFF)'),
    Item(D, 'fn', 'from_u32', within=r'impl ID\b', vis='', spec='ensures r.id == id'),
    Item(D, 'fn', 'as_u32', within=r'impl ID\b', vis='', spec='ensures r == self.id', wrap=('', '\n}\n')),
    Item(D, 'fn', 'default', within=r'impl Default for ID\b', vis='', spec='ensures r.id == 0xFFFFFFFF', wrap=('impl Default for ID {\n', '\n}\n')),
    Item(D, 'fn', 'read', within=r'impl SimpleTagData for ID\b', vis='', wrap=("""impl SimpleTagData for ID {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(self.id, big) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { true }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
""", ''), start='proof { assert forall|v: Self| at_pos(#[trigger] v.enc(B::big()), data@, at as int) implies at_pos(v.id.enc(B::big()), data@, at as int) by {} }'),
    Item(D, 'fn', 'write', within=r'impl SimpleTagData for ID\b', vis='', wrap=('', '\n}\n'), rewrite=[(r'\(\*self\)\.into\(\)', 'self.as_u32()', 'From<ID> for u32 is as_u32')]),
    Item(G, 'enum', 'TagGroup', attrs='#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n'),
    Item(G, 'fn', 'write', within=r'impl SimpleTagData for TagGroup', vis='', wrap=("""impl SimpleTagData for TagGroup {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(code(*self), big) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { at_pos(enc32(code(*self), big), d, at) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
""", '')),
    Item(G, 'fn', 'read', within=r'impl SimpleTagData for TagGroup', vis='', wrap=('', '\n}\n'), start='proof { broadcast use {code_round_trip, group_round_trip}; assert forall|v: Self| at_pos(#[trigger] v.enc(B::big()), data@, at as int) implies at_pos(code(v).enc(B::big()), data@, at as int) && group_of(code(v)) == Some(v) by {} }',
        rewrite=[(r'(u32::read::<B>\(data, at, struct_end\)\?)\.try_into\(\)', r'let c = \1; match TagGroup::from_fourcc(c) { Some(g) => Ok(g), None => Err(Error::InvalidFourCC) }', 'TryFrom<FourCC> is from_fourcc with ok_or')]),
    Item(T, 'struct', 'TagFileHeader', attrs='#[derive(Copy, Clone)]\n'),
    Item(T, 'const', 'IGNORED_CRC32'),
    Item(T, 'const', 'BLAM_FOURCC'),
    Item(T, 'fn', 'simple_size', within=HFN, vis='', wrap=("""impl SimpleTagData for TagFileHeader {
    open spec fn ssz() -> nat { 0x40 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { self.group == o.group && self.crc32 == o.crc32 && self.header_size == o.header_size && self.version == o.version && self.u16_255 == o.u16_255 && self.blam_fourcc == o.blam_fourcc }
    open spec fn enc(&self, big: bool) -> Seq<u8> { self.bytes(big) }
    open spec fn seen(&self, d: Seq<u8>, at: int, big: bool) -> bool { self.stored(d, at, big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) { header_len(hid(self.id), self.string, code(self.group), self.crc32, self.header_size, self.version, self.u16_255, self.blam_fourcc, true); header_len(hid(self.id), self.string, code(self.group), self.crc32, self.header_size, self.version, self.u16_255, self.blam_fourcc, false); }
""", ''), rewrite=[(r'const _: \(\) = assert!\([^;]*== 0x40\);\s*std::mem::size_of::<TagFileHeader>\(\)', '0x40', 'the compiler checks that this size is 0x40')]),
    Item(T, 'fn', 'read', within=HFN, vis='',
        rewrite=[(r'ID::read::<B>\(data, at \+ 0x00, struct_end\)\.unwrap_or\(ID::null\(\)\)', 'match ID::read::<B>(data, at + 0x00, struct_end) { Ok(i) => i, Err(_) => ID::null() }', 'Result::unwrap_or spelled out')],
        start="""proof { assert forall|v: Self| #[trigger] at_pos(v.enc(B::big()), data@, at as int) implies at_pos(v.string.enc(B::big()), data@, at + 4) && at_pos(v.group.enc(B::big()), data@, at + 0x24) && at_pos(v.crc32.enc(B::big()), data@, at + 0x28) && at_pos(v.header_size.enc(B::big()), data@, at + 0x2C)
                && at_pos(Padding::<[u8; 8]> { internal: arbitrary() }.enc(B::big()), data@, at + 0x30) && at_pos(v.version.enc(B::big()), data@, at + 0x38) && at_pos(v.u16_255.enc(B::big()), data@, at + 0x3A) && at_pos(v.blam_fourcc.enc(B::big()), data@, at + 0x3C) by {
            header_parts(hid(v.id), v.string, code(v.group), v.crc32, v.header_size, v.version, v.u16_255, v.blam_fourcc, B::big(), data@, at as int); } }"""),
    Item(T, 'fn', 'write', within=HFN, vis='', wrap=('', '\n}\n'), start="""let ghost d = data@; proof { broadcast use string_len; }""",
        at=[(r'Ok\(\(\)\)\s*\}\s*$', 'before', 'proof { header_join(hid(self.id), self.string, code(self.group), self.crc32, self.header_size, self.version, self.u16_255, self.blam_fourcc, B::big(), d, at as int); }\n')]),
    Item(T, 'fn', 'validate', within=r'impl TagFileHeader', spec='ensures r is Ok <==> self.valid(), r is Err ==> r->Err_0 is InvalidTagFile', wrap=('impl TagFileHeader {\n', '')),
    Item(T, 'fn', 'verify_group_matches', within=r'impl TagFileHeader', wrap=('', '\n}\n'),
        spec='''ensures r is Ok <==> self.group == T::grp() && self.version == T::ver(), self.group != T::grp() ==> r is Err && r->Err_0 is TagHeaderGroupTypeMismatch, r is Err && self.group == T::grp() ==> r->Err_0 is TagHeaderGroupVersionMismatch'''),
    Item(T, 'enum', 'ParseStrictness', attrs='#[derive(Copy, Clone)]\n'),
    Item(T, 'struct', 'TagFile'),
    Item(T, 'fn', 'to_tag_file', within=r'impl TagFile\b', wrap=('impl TagFile {\n', ''),
        rewrite=[(r'data\.resize\(capacity, 0\)', 'fill_up(&mut data, capacity)', 'Vec::resize with zeros'), (r'&data\[header_len\.\.\]', 'vec_from(&data, header_len)', 'range index'),
            (r'\.expect\("[^"]*"\)', '?', 'the panic is written as an error that the contract excludes'),
            (r'Vec::new\(\)', 'Vec::<u8>::new()', 'type annotation')],
        spec="""ensures r is Ok ==> tag_data.ok() && tag_file_of(tag_data, r->Ok_0@),
            r is Err ==> !tag_data.ok() || 0x40 + T::sz() + tag_data.tail().len() > usize::MAX""",
        start='proof { T::sz_law(); tag_data.law(); }',
        at=[(r'let mut crc32', 'before', """let ghost body = tag_data.head() + tag_data.tail();
            proof { assert(put(zeros((0x40 + T::sz()) as nat), 0x40, tag_data.head()) =~= zeros(0x40) + tag_data.head()); assert(data@ =~= zeros(0x40) + body); assert(data@.skip(0x40) =~= body); }\n"""),
            (r'crc32\.update', 'before', 'proof { assert(Seq::<u8>::empty() + body =~= body); }\n'),
            (r'new_header\.write_to_tag_file', 'before', 'let ghost whole = data@; proof { own_len(new_header); assert(data.len() <= usize::MAX); }\n'),
            (r'Ok\(data\)', 'before', """proof { let b = new_header.bytes(true); assert(put(whole, 0, b) + Seq::<u8>::empty() =~= b + body); assert(new_header.valid()); assert(new_header.crc32 == crc_of(body)); assert(new_header.group == T::grp()); assert(file_of(new_header, tag_data, data@)); assert(tag_file_of(tag_data, data@)); }\n""")]),
    Item(T, 'fn', 'validate_crc32', within=r'impl TagFile\b', vis='', spec='ensures r is Ok <==> sealed(*header, data_after_header@, strictness), r is Err ==> r->Err_0 is ChecksumMismatch',
        start='proof { assert(Seq::<u8>::empty() + data_after_header@ =~= data_after_header@); }'),
    Item(T, 'fn', 'load_header_and_data', within=r'impl TagFile\b',
        rewrite=[(r'&file\[(<TagFileHeader as TagData>::size\(\))\.\.\]', r'slice_from(file, \1)', 'range index')],
        spec="""ensures
            r is Ok ==> r->Ok_0.0.stored(file@, 0, true) && r->Ok_0.0.valid() && r->Ok_0.1@ == file@.skip(0x40) && file@.len() >= 0x40 && sealed(r->Ok_0.0, file@.skip(0x40), strictness),
            forall|h: TagFileHeader| #[trigger] at_pos(h.bytes(true), file@, 0) && h.valid() && sealed(h, file@.skip(0x40), strictness) ==> r is Ok && h.ssame(&r->Ok_0.0)""",
        start="""proof { assert forall|h: TagFileHeader| #[trigger] at_pos(h.bytes(true), file@, 0) implies h.ok() && encoded(h.head(), h.tail(), file@, 0, 0) by { own_len(h); assert(cut(file@, 0, 0) =~= Seq::<u8>::empty()); } }"""),
    Item(T, 'fn', 'read_tag_from_file_buffer', within=r'impl TagFile\b', wrap=('', '\n}\n'), rewrite=[FMT],
        spec="""ensures
            r is Ok ==> r->Ok_0.ok() && T::used(file@.skip(0x40), 0, T::sz() as int) == file@.len() - 0x40 && file@.len() >= 0x40 + T::sz() && exists|h: TagFileHeader| #[trigger] h.stored(file@, 0, true) && h.valid() && h.group == T::grp() && h.version == T::ver() && sealed(h, file@.skip(0x40), strictness),
            forall|h: TagFileHeader, v: T| #[trigger] at_pos(h.bytes(true), file@, 0) && own_header::<T>(h, file@.skip(0x40)) && v.ok() && file@.skip(0x40) == #[trigger] v.head() + v.tail() ==> r is Ok && v.same(&r->Ok_0)""",
        at=[(r'let mut cursor', 'before', """proof { T::sz_law(); assert forall|v: T| v.ok() && file@.skip(0x40) == #[trigger] v.head() + v.tail() implies encoded(v.head(), v.tail(), data_after_header@, 0, T::sz() as int) && T::sz() + v.tail().len() == data_after_header@.len() by {
                v.law(); let d = data_after_header@; assert(cut(d, 0, v.head().len() as int) =~= v.head()); assert(cut(d, T::sz() as int, v.tail().len() as int) =~= v.tail()); } }\n""")]),
]
UNITS = [
    dict(name='tagfile', about='TagFileHeader and TagFile for any tag structure that keeps the contract of tag data, and files of any length: an accepted file is at least as long as its header and structure, its header carries the signature, the size, the constant, the group and version of the structure and, unless disabled, the checksum of everything after it, and nothing is left over; what is written has such a header and is accepted as the same value; no overflow and no out-of-bounds access for any input', trusted=True,
        spec=ERRS + SEEN + NUM + LEM + HEAD + THEOREMS + ROUND, items=BASE + SIMPLE + ITEMS),
]
