"""The contract every piece of tag data is verified against, shared by the units that use it."""
from extract import Item
D = 'src/ringhopper-primitives/src/primitive/data.rs'
PA = 'src/ringhopper-primitives/src/parse.rs'
ER = 'src/ringhopper-primitives/src/error.rs'

ERRORS = '''
global size_of usize == 8;
pub enum Error { InvalidFourCC, InvalidTagPath, InvalidID, InvalidEnum, InvalidTagFile, TagParseFailure(u8), ArrayLimitExceeded, IndexLimitExceeded, SizeLimitExceeded }
type RinghopperResult<T> = Result<T, Error>;
'''
TRAIT = '''
pub trait ByteOrder { spec fn big() -> bool; }
pub struct BE;
pub struct LittleEndian;
impl ByteOrder for BE { open spec fn big() -> bool { true } }
impl ByteOrder for LittleEndian { open spec fn big() -> bool { false } }

pub open spec fn byte(v: u32, i: int) -> u8 { if i == 0 { (v & 0xFF) as u8 } else if i == 1 { ((v >> 8) & 0xFF) as u8 } else if i == 2 { ((v >> 16) & 0xFF) as u8 } else { ((v >> 24) & 0xFF) as u8 } }
/// a 32-bit number in a given byte order
pub open spec fn enc32(v: u32, big: bool) -> Seq<u8> { if big { seq![byte(v, 3), byte(v, 2), byte(v, 1), byte(v, 0)] } else { seq![byte(v, 0), byte(v, 1), byte(v, 2), byte(v, 3)] } }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// d with x written at position at
pub open spec fn put(d: Seq<u8>, at: int, x: Seq<u8>) -> Seq<u8> { d.take(at) + x + d.skip(at + x.len()) }
/// part of d
pub open spec fn cut(d: Seq<u8>, at: int, n: int) -> Seq<u8> { d.subrange(at, at + n) }

/// d has x at position at
pub open spec fn at_pos(x: Seq<u8>, d: Seq<u8>, at: int) -> bool { at + x.len() <= d.len() && cut(d, at, x.len() as int) == x }
/// d has the struct part h at position at, and the appended part t at position c
pub open spec fn encoded(h: Seq<u8>, t: Seq<u8>, d: Seq<u8>, at: int, c: int) -> bool { at_pos(h, d, at) && at_pos(t, d, c) }

/// Fixed-size values. enc is what is stored; ssame is what reading may give back.
pub trait SimpleTagData: Sized {
    spec fn ssz() -> nat;
    spec fn sok(&self) -> bool;
    spec fn ssame(&self, o: &Self) -> bool;
    spec fn enc(&self, big: bool) -> Seq<u8>;
    proof fn ssz_law() ensures Self::ssz() <= 0x4000;
    proof fn slaw(&self) ensures self.sok() ==> self.enc(true).len() == Self::ssz() && self.enc(false).len() == Self::ssz();
    fn simple_size() -> (r: usize) ensures r == Self::ssz();
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>)
        requires at + Self::ssz() <= struct_end
        ensures
            r is Ok ==> r->Ok_0.sok(),
            forall|v: Self| v.sok() && #[trigger] at_pos(v.enc(B::big()), data@, at as int) ==> r is Ok && v.ssame(&r->Ok_0);
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>)
        requires at + Self::ssz() <= struct_end, at + Self::ssz() <= old(data)@.len()
        ensures final(data)@.len() == old(data)@.len(), r is Ok <==> self.sok(), r is Ok ==> final(data)@ == put(old(data)@, at as int, self.enc(B::big()));
}

/// Tag data of any size: head goes in the struct, tail is appended.
pub trait TagData: Sized {
    spec fn sz() -> nat;
    /// it can be stored
    spec fn ok(&self) -> bool;
    /// what reading it back may give
    spec fn same(&self, o: &Self) -> bool;
    spec fn head(&self) -> Seq<u8>;
    spec fn tail(&self) -> Seq<u8>;
    proof fn sz_law() ensures Self::sz() <= 0x10000;
    proof fn law(&self) ensures self.ok() ==> self.head().len() == Self::sz();
    fn size() -> (r: usize) ensures r == Self::sz();
    fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>)
        requires at + Self::sz() <= struct_end
        ensures
            r is Ok ==> r->Ok_0.ok(),
            r is Ok ==> *old(extra_data_cursor) <= *final(extra_data_cursor) && (*final(extra_data_cursor) == *old(extra_data_cursor) || *final(extra_data_cursor) <= data@.len()),
            forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, *old(extra_data_cursor) as int) ==> r is Ok && v.same(&r->Ok_0) && *final(extra_data_cursor) == *old(extra_data_cursor) + v.tail().len();
    fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>)
        requires at + Self::sz() <= struct_end, at + Self::sz() <= old(data)@.len()
        ensures
            r is Ok ==> self.ok() && final(data)@ == put(old(data)@, at as int, self.head()) + self.tail(),
            r is Err ==> !self.ok() || old(data)@.len() + self.tail().len() > usize::MAX;
}
'''
FMT = (r'format!\((?:[^()]|\([^()]*\))*\)', '0', 'message text is not under contract')
BASE = [
    Item(ER, 'fn', 'add_overflow_checked', within=r'impl OverflowCheck for usize', vis='', rewrite=[(r'self\.checked_add\(other\)\.ok_or\(Error::SizeLimitExceeded\)', 'match self.checked_add(other) { Some(x) => Ok(x), None => Err(Error::SizeLimitExceeded) }', 'Option::ok_or spelled out')],
        wrap=('''pub trait OverflowCheck: Sized {
    spec fn n(&self) -> nat;
    fn add_overflow_checked(self, other: Self) -> (r: RinghopperResult<Self>) ensures match r { Ok(x) => x.n() == self.n() + other.n(), Err(_) => self.n() + other.n() > usize::MAX };
    fn mul_overflow_checked(self, other: Self) -> (r: RinghopperResult<Self>) ensures match r { Ok(x) => x.n() == self.n() * other.n(), Err(_) => self.n() * other.n() > usize::MAX };
}
impl OverflowCheck for usize {
    open spec fn n(&self) -> nat { *self as nat }
''', '')),
    Item(ER, 'fn', 'mul_overflow_checked', within=r'impl OverflowCheck for usize', vis='', rewrite=[(r'self\.checked_mul\(other\)\.ok_or\(Error::SizeLimitExceeded\)', 'match self.checked_mul(other) { Some(x) => Ok(x), None => Err(Error::SizeLimitExceeded) }', 'Option::ok_or spelled out')],
        wrap=('', '\n}\n')),
    Item(PA, 'fn', 'into_u32', within=r'impl U32SizeConversion for usize', vis='',
        wrap=('pub trait U32SizeConversion { spec fn m(&self) -> nat; fn into_u32(self) -> (r: RinghopperResult<u32>) ensures match r { Ok(x) => x == self.m(), Err(_) => self.m() > u32::MAX }; }\nimpl U32SizeConversion for usize { open spec fn m(&self) -> nat { *self as nat }\n', '\n}\n')),
    Item(PA, 'fn', 'fits', vis='', rewrite=[FMT], spec='ensures match r { Ok(e) => e == at + size && e <= vec_size, Err(_) => at + size > vec_size }'),
]
# every fixed-size value is tag data without a tail
SIMPLE = [
    Item(PA, 'fn', 'size', within=r'impl<T: SimpleTagData \+ TagDataDefaults \+ Sized> TagData for T', vis='', wrap=('''
impl<T: SimpleTagData> TagData for T {
    open spec fn sz() -> nat { T::ssz() }
    open spec fn ok(&self) -> bool { self.sok() }
    open spec fn same(&self, o: &Self) -> bool { self.ssame(o) }
    open spec fn head(&self) -> Seq<u8> { self.enc(true) }
    open spec fn tail(&self) -> Seq<u8> { Seq::empty() }
    proof fn sz_law() { T::ssz_law(); }
    proof fn law(&self) { self.slaw(); }
''', '')),
    Item(PA, 'fn', 'read_from_tag_file', within=r'impl<T: SimpleTagData \+ TagDataDefaults \+ Sized> TagData for T', vis='', start='''proof {
        assert forall|v: Self| #[trigger] encoded(v.head(), v.tail(), data@, at as int, *old(_x) as int) implies at_pos(v.enc(true), data@, at as int) by { } }''',
        spec='ensures *final(_x) == *old(_x)',
        rewrite=[(r'_: &mut usize', '_x: &mut usize', 'the unused argument is named')]),
    Item(PA, 'fn', 'write_to_tag_file', within=r'impl<T: SimpleTagData \+ TagDataDefaults \+ Sized> TagData for T', vis='', wrap=('', '\n}\n'), start='proof { self.slaw(); }'),
]
