from extract import Item
X = 'src/ringhopper/src/map/extract.rs'
A = 'src/ringhopper/src/tag/model_animations.rs'
MSG = (r'format!\("[^"]*"(?:, [^()]*(?:\([^()]*\))?[^()]*)?\)|"[^"]*"\.(?:to_string|to_owned)\(\)', 'message()', 'message text is not under contract')
BASE = r'''
global size_of usize == 8;
#[derive(Debug)]
pub struct Message;
#[verifier::external_body] fn message() -> Message { unimplemented!() }
#[derive(Debug)]
pub enum Error { InvalidTagData(Message), ArrayLimitExceeded, Other }
type RinghopperResult<T> = Result<T, Error>;
'''
FRAMES = BASE + r'''
trait ByteOrder: Sized { }
/// a type of a fixed size read from and written to tag data (assumed contract; Kani and P01 check the implementations)
trait SimpleTagData: Sized {
    spec fn bytes() -> int;
    spec fn value<B: ByteOrder>(s: Seq<u8>) -> Self;
    spec fn stored<B: ByteOrder>(self) -> Seq<u8>;
    proof fn stored_len<B: ByteOrder>(self) ensures self.stored::<B>().len() == Self::bytes();
    proof fn sized() ensures 0 < Self::bytes() <= 256;
    fn simple_size() -> (r: usize) ensures r == Self::bytes(), 0 < r <= 256;
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>)
        ensures r is Ok <==> (at + Self::bytes() <= struct_end && struct_end <= data@.len()), r is Ok ==> r->Ok_0 == Self::value::<B>(data@.subrange(at as int, at + Self::bytes()));
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>)
        requires at + Self::bytes() <= struct_end, struct_end <= old(data)@.len()
        ensures r is Ok, self.stored::<B>().len() == Self::bytes(), final(data)@ == old(data)@.take(at as int) + self.stored::<B>() + old(data)@.skip(at + Self::bytes());
}
/// what conversion between byte orders makes of a value
spec fn turned<T: SimpleTagData, F: ByteOrder, G: ByteOrder>(s: Seq<u8>) -> Seq<u8> { T::value::<F>(s).stored::<G>() }
#[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsRotation; #[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsTransform; #[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsScale;
macro_rules! simple { ($($t:ident $n:expr),*) => { verus! { $(
    impl SimpleTagData for $t {
        spec fn bytes() -> int { $n }
        uninterp spec fn value<B: ByteOrder>(s: Seq<u8>) -> Self;
        uninterp spec fn stored<B: ByteOrder>(self) -> Seq<u8>;
        #[verifier::external_body] proof fn stored_len<B: ByteOrder>(self) { }
        proof fn sized() { }
        #[verifier::external_body] fn simple_size() -> (r: usize) { unimplemented!() }
        #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
        #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
    } )* } } }
simple!(ModelAnimationsRotation 8, ModelAnimationsTransform 12, ModelAnimationsScale 4, ModelAnimationsFrameInfoDxDy 8, ModelAnimationsFrameInfoDxDyDyaw 12, ModelAnimationsFrameInfoDxDyDzDyaw 16);
#[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsFrameInfoDxDy; #[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsFrameInfoDxDyDyaw; #[derive(Debug)] #[verifier::external_body] pub struct ModelAnimationsFrameInfoDxDyDzDyaw;
pub enum AnimationFrameInfoType { None, DxDy, DxDyDyaw, DxDyDzDyaw }
pub struct Data { pub bytes: Vec<u8> }
pub struct Flags { pub compressed_data: bool }
/// the fields of an animation that are used
pub struct ModelAnimationsAnimation { pub node_count: u16, pub frame_count: u16, pub frame_info_type: AnimationFrameInfoType, pub flags: Flags, pub offset_to_compressed_data: u32,
    pub node_rotation_flag_data: [u32; 2], pub node_transform_flag_data: [u32; 2], pub node_scale_flag_data: [u32; 2], pub frame_info: Data, pub default_data: Data, pub frame_data: Data }
/// the flags of the two words: node n is bit n % 32 of word n / 32
pub open spec fn flagged(w: [u32; 2], n: int) -> bool { if n < 32 { w@[0] & (1u32 << (n as u32)) != 0 } else { w@[1] & (1u32 << ((n - 32) as u32)) != 0 } }
pub open spec fn one(b: bool, t: FrameDataType) -> Seq<FrameDataType> { if b { seq![t] } else { seq![] } }
/// everything that is still to come
pub open spec fn rest(f: FrameDataIterator) -> Seq<FrameDataType> decreases f.remaining_nodes, (match f.mode { FrameDataType::Rotate => 2int, FrameDataType::Transform => 1, FrameDataType::Scale => 0 }) {
    if f.remaining_nodes == 0 { seq![] } else { match f.mode {
        FrameDataType::Rotate => one(f.rotation & f.mask != 0, FrameDataType::Rotate) + rest(FrameDataIterator { mode: FrameDataType::Transform, ..f }),
        FrameDataType::Transform => one(f.transform & f.mask != 0, FrameDataType::Transform) + rest(FrameDataIterator { mode: FrameDataType::Scale, ..f }),
        FrameDataType::Scale => one(f.scale & f.mask != 0, FrameDataType::Scale) + rest(FrameDataIterator { mode: FrameDataType::Rotate, mask: f.mask << 1, remaining_nodes: (f.remaining_nodes - 1) as usize, ..f }),
    } }
}
pub open spec fn weight(t: FrameDataType) -> int { match t { FrameDataType::Rotate => 8, FrameDataType::Transform => 12, FrameDataType::Scale => 4 } }
pub open spec fn total(s: Seq<FrameDataType>) -> int decreases s.len() { if s.len() == 0 { 0 } else { weight(s[0]) + total(s.skip(1)) } }
/// what an animation keeps for its nodes from the n-th on: per node its rotation, translation and scale when flagged (or when not)
pub open spec fn kept(a: ModelAnimationsAnimation, n: int, flag: bool) -> Seq<FrameDataType> decreases a.node_count - n {
    if n >= a.node_count { seq![] } else {
        one(flagged(a.node_rotation_flag_data, n) == flag, FrameDataType::Rotate) + (one(flagged(a.node_transform_flag_data, n) == flag, FrameDataType::Transform)
            + (one(flagged(a.node_scale_flag_data, n) == flag, FrameDataType::Scale) + kept(a, n + 1, flag))) }
}
proof fn kept_total(a: ModelAnimationsAnimation, n: int, f: bool) requires 0 <= n ensures 0 <= total(kept(a, n, f)) <= (if n >= a.node_count { 0 } else { 24 * (a.node_count - n) }) decreases a.node_count - n {
    if n < a.node_count { kept_total(a, n + 1, f);
        let s = one(flagged(a.node_scale_flag_data, n) == f, FrameDataType::Scale); let t = one(flagged(a.node_transform_flag_data, n) == f, FrameDataType::Transform); let r = one(flagged(a.node_rotation_flag_data, n) == f, FrameDataType::Rotate);
        sum(s, kept(a, n + 1, f)); sum(t, s + kept(a, n + 1, f)); sum(r, t + (s + kept(a, n + 1, f)));
        single(flagged(a.node_scale_flag_data, n) == f, FrameDataType::Scale); single(flagged(a.node_transform_flag_data, n) == f, FrameDataType::Transform); single(flagged(a.node_rotation_flag_data, n) == f, FrameDataType::Rotate); }
}
proof fn single(b: bool, t: FrameDataType) ensures total(one(b, t)) == (if b { weight(t) } else { 0 }) { if b { assert(seq![t].skip(1) =~= seq![]); reveal_with_fuel(total, 2); } }
proof fn sum(a: Seq<FrameDataType>, b: Seq<FrameDataType>) ensures total(a + b) == total(a) + total(b) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); } else { sum(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]); } }
proof fn bits(x: u64, w: [u32; 2], n: u64, flag: bool, a: u64, b: u64) requires n < 64, a == w@[0] as u64, b == w@[1] as u64, x == (if flag { (b << 32) | a } else { !((b << 32) | a) }) ensures (x & (1u64 << n) != 0) == (flagged(w, n as int) == flag) {
    let (p, q) = (w@[0], w@[1]);
    if n < 32 { let m = n as u32; assert((((q as u64) << 32 | (p as u64)) & (1u64 << n) != 0) == (p & (1u32 << m) != 0)) by(bit_vector) requires n < 32, m == n as u32; }
    else { let m = (n - 32) as u32; assert((((q as u64) << 32 | (p as u64)) & (1u64 << n) != 0) == (q & (1u32 << m) != 0)) by(bit_vector) requires 32 <= n < 64, m == (n - 32) as u32; }
    let y = (q as u64) << 32 | (p as u64); assert(((!y) & (1u64 << n) != 0) == !(y & (1u64 << n) != 0)) by(bit_vector) requires n < 64;
}
/// the iterator at the start of node n
pub open spec fn nth(f: FrameDataIterator, a: ModelAnimationsAnimation, n: int, flag: bool) -> bool {
    &&& f.mode is Rotate && 0 <= n <= a.node_count && f.remaining_nodes == a.node_count - n && (n < 64 ==> f.mask == 1u64 << (n as u64))
    &&& (forall|i: u64| i < 64 ==> #[trigger] sees(f, a, i, flag))
}
pub open spec fn sees(f: FrameDataIterator, a: ModelAnimationsAnimation, i: u64, flag: bool) -> bool {
    (f.rotation & (1u64 << i) != 0) == (flagged(a.node_rotation_flag_data, i as int) == flag) && (f.transform & (1u64 << i) != 0) == (flagged(a.node_transform_flag_data, i as int) == flag)
        && (f.scale & (1u64 << i) != 0) == (flagged(a.node_scale_flag_data, i as int) == flag) }
spec fn word(w: [u32; 2], flag: bool) -> u64 { let x = (((w@[1] as u64) << 32) | (w@[0] as u64)); if flag { x } else { !x } }
spec fn made(f: FrameDataIterator, a: ModelAnimationsAnimation, flag: bool) -> bool { f.mode is Rotate && f.mask == 1 && f.remaining_nodes == a.node_count && f.rotation == word(a.node_rotation_flag_data, flag) && f.transform == word(a.node_transform_flag_data, flag) && f.scale == word(a.node_scale_flag_data, flag) }
/// what the iterator yields is what the animation keeps
proof fn means(f: FrameDataIterator, a: ModelAnimationsAnimation, n: int, flag: bool) requires nth(f, a, n, flag), a.node_count <= 64 ensures rest(f) == kept(a, n, flag) decreases a.node_count - n {
    if n < a.node_count {
        assert(sees(f, a, n as u64, flag));
        let g = FrameDataIterator { mask: f.mask << 1, remaining_nodes: (f.remaining_nodes - 1) as usize, ..f };
        let m = n as u64; if n + 1 < 64 { assert((1u64 << m) << 1 == 1u64 << ((m + 1) as u64)) by(bit_vector) requires m < 63; }
        assert forall|i: u64| i < 64 implies #[trigger] sees(g, a, i, flag) by { assert(sees(f, a, i, flag)); }
        assert(nth(g, a, n + 1, flag)); means(g, a, n + 1, flag);
        reveal_with_fuel(rest, 4);
        let f1 = FrameDataIterator { mode: FrameDataType::Transform, ..f }; let f2 = FrameDataIterator { mode: FrameDataType::Scale, ..f };
        assert(FrameDataIterator { mode: FrameDataType::Scale, ..f1 } == f2);
        assert(FrameDataIterator { mode: FrameDataType::Rotate, mask: f2.mask << 1, remaining_nodes: (f2.remaining_nodes - 1) as usize, ..f2 } == g);
    }
}
proof fn rest_total(f: FrameDataIterator) ensures 0 <= total(rest(f)) <= 24 * f.remaining_nodes decreases f.remaining_nodes, (match f.mode { FrameDataType::Rotate => 2int, FrameDataType::Transform => 1, FrameDataType::Scale => 0 }) { rest_bound(f); }
proof fn rest_bound(f: FrameDataIterator) ensures 0 <= total(rest(f)) <= 24 * f.remaining_nodes - (if f.remaining_nodes == 0 { 0int } else { match f.mode { FrameDataType::Rotate => 0int, FrameDataType::Transform => 8, FrameDataType::Scale => 20 } })
    decreases f.remaining_nodes, (match f.mode { FrameDataType::Rotate => 2int, FrameDataType::Transform => 1, FrameDataType::Scale => 0 }) {
    if f.remaining_nodes > 0 { match f.mode {
        FrameDataType::Rotate => { let g = FrameDataIterator { mode: FrameDataType::Transform, ..f }; let b = f.rotation & f.mask != 0; rest_bound(g); single(b, f.mode); sum(one(b, f.mode), rest(g)); },
        FrameDataType::Transform => { let g = FrameDataIterator { mode: FrameDataType::Scale, ..f }; let b = f.transform & f.mask != 0; rest_bound(g); single(b, f.mode); sum(one(b, f.mode), rest(g)); },
        FrameDataType::Scale => { let g = FrameDataIterator { mode: FrameDataType::Rotate, mask: f.mask << 1, remaining_nodes: (f.remaining_nodes - 1) as usize, ..f }; let b = f.scale & f.mask != 0; rest_bound(g); single(b, f.mode); sum(one(b, f.mode), rest(g)); },
    } }
}
/// the bytes of a list of values, each turned
spec fn turned_all<F: ByteOrder, G: ByteOrder>(s: Seq<FrameDataType>, d: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { let n = weight(s[0]); (match s[0] {
        FrameDataType::Rotate => turned::<ModelAnimationsRotation, F, G>(d.take(n)),
        FrameDataType::Transform => turned::<ModelAnimationsTransform, F, G>(d.take(n)),
        FrameDataType::Scale => turned::<ModelAnimationsScale, F, G>(d.take(n)),
    }) + turned_all::<F, G>(s.skip(1), d.skip(n)) }
}
'''
FLIP = r'''
fn mul_overflow_checked(a: usize, b: usize) -> (r: RinghopperResult<usize>) ensures r is Ok <==> a * b <= usize::MAX, r is Ok ==> r->Ok_0 == a * b { match a.checked_mul(b) { Some(n) => Ok(n), None => Err(Error::Other) } }
#[verifier::external_body] fn upto(v: &mut Vec<u8>, n: usize) -> (r: &mut [u8]) requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == final(r)@ + old(v)@.skip(n as int) { unimplemented!() }
#[verifier::external_body] fn whole(v: &mut Vec<u8>) -> (r: &mut [u8]) ensures r@ == old(v)@, final(v)@ == final(r)@, r@.len() <= usize::MAX { unimplemented!() }
/// e is d with the first k values of one type turned
spec fn infos<D: SimpleTagData, F: ByteOrder, G: ByteOrder>(d: Seq<u8>, e: Seq<u8>, k: int) -> bool {
    let n = D::bytes();
    &&& e.len() == d.len() && k * n <= d.len() && e.skip(k * n) == d.skip(k * n)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] frame(e, j, n) == turned::<D, F, G>(frame(d, j, n))
}
proof fn one_more<D: SimpleTagData, F: ByteOrder, G: ByteOrder>(d: Seq<u8>, b: Seq<u8>, e: Seq<u8>, k: int)
    requires infos::<D, F, G>(d, b, k), 0 <= k, (k + 1) * D::bytes() <= d.len(), e == b.take(k * D::bytes()) + turned::<D, F, G>(b.subrange(k * D::bytes(), k * D::bytes() + D::bytes())) + b.skip(k * D::bytes() + D::bytes())
    ensures infos::<D, F, G>(d, e, k + 1)
{
    let n = D::bytes(); let p = k * n; let c = b.subrange(p, p + n); D::sized(); D::value::<F>(c).stored_len::<G>(); assert((k + 1) * n == p + n && p >= 0) by(nonlinear_arith) requires p == k * n, k >= 0, n >= 0;
    let t = turned::<D, F, G>(c);
    assert(e.skip(p + n) =~= b.skip(p).skip(n)); assert(d.skip(p).skip(n) =~= d.skip(p + n));
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] frame(e, j, n) == turned::<D, F, G>(frame(d, j, n)) by {
        if j < k { assert(j * n + n <= p && j * n >= 0) by(nonlinear_arith) requires 0 <= j < k, n >= 0, p == k * n; assert(frame(e, j, n) =~= frame(b, j, n)); }
        else { assert(frame(e, k, n) =~= t); assert(c =~= b.skip(p).take(n)); assert(frame(d, k, n) == c); }
    }
}
fn add_overflow_checked(a: usize, b: usize) -> (r: RinghopperResult<usize>) ensures r is Ok <==> a + b <= usize::MAX, r is Ok ==> r->Ok_0 == a + b { match a.checked_add(b) { Some(n) => Ok(n), None => Err(Error::Other) } }
#[verifier::external_body] fn zeros(n: usize) -> (r: Vec<u8>) ensures r@ == zeroes(n as int) { unimplemented!() }
spec fn zeroes(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
#[verifier::external_body] struct LittleEndian; #[verifier::external_body] struct BigEndian; impl ByteOrder for LittleEndian { } impl ByteOrder for BigEndian { }
/// every size in an animation is what its counts and flags say
spec fn consistent(a: ModelAnimationsAnimation) -> bool {
    &&& a.node_count <= 64
    &&& a.frame_info.bytes@.len() == (match a.frame_info_type { AnimationFrameInfoType::None => 0int, AnimationFrameInfoType::DxDy => 8 * a.frame_count, AnimationFrameInfoType::DxDyDyaw => 12 * a.frame_count, AnimationFrameInfoType::DxDyDzDyaw => 16 * a.frame_count })
    &&& if a.flags.compressed_data { a.offset_to_compressed_data == frame_bytes(a) } else { a.frame_data.bytes@.len() == frame_bytes(a) }
    &&& a.default_data.bytes@.len() == total(kept(a, 0, false))
}
/// b is a with its frame info, frame data and default data in the other byte order
spec fn swapped<F: ByteOrder, G: ByteOrder>(a: ModelAnimationsAnimation, b: ModelAnimationsAnimation) -> bool {
    &&& b == (ModelAnimationsAnimation { frame_info: b.frame_info, frame_data: b.frame_data, default_data: b.default_data, ..a })
    &&& match a.frame_info_type {
        AnimationFrameInfoType::None => b.frame_info == a.frame_info,
        AnimationFrameInfoType::DxDy => infos::<ModelAnimationsFrameInfoDxDy, F, G>(a.frame_info.bytes@, b.frame_info.bytes@, a.frame_count as int),
        AnimationFrameInfoType::DxDyDyaw => infos::<ModelAnimationsFrameInfoDxDyDyaw, F, G>(a.frame_info.bytes@, b.frame_info.bytes@, a.frame_count as int),
        AnimationFrameInfoType::DxDyDzDyaw => infos::<ModelAnimationsFrameInfoDxDyDzDyaw, F, G>(a.frame_info.bytes@, b.frame_info.bytes@, a.frame_count as int) }
    &&& each::<F, G>(kept(a, 0, true), a.frame_data.bytes@, b.frame_data.bytes@, a.frame_count as int)
    &&& b.default_data.bytes@ == turned_all::<F, G>(kept(a, 0, false), a.default_data.bytes@)
}
proof fn same_flags(a: ModelAnimationsAnimation, m: ModelAnimationsAnimation, n: int, f: bool) requires a.node_count == m.node_count, a.node_rotation_flag_data == m.node_rotation_flag_data, a.node_transform_flag_data == m.node_transform_flag_data, a.node_scale_flag_data == m.node_scale_flag_data
    ensures kept(a, n, f) == kept(m, n, f) decreases a.node_count - n { if n < a.node_count { same_flags(a, m, n + 1, f); } }
/// a compressed animation gets empty uncompressed frames before its data, and empty default data
spec fn opened(a: ModelAnimationsAnimation, m: ModelAnimationsAnimation) -> bool {
    &&& m == (ModelAnimationsAnimation { frame_data: m.frame_data, default_data: m.default_data, offset_to_compressed_data: m.offset_to_compressed_data, ..a })
    &&& m.frame_data.bytes@ == zeroes(frame_bytes(a)) + a.frame_data.bytes@ && m.offset_to_compressed_data == frame_bytes(a) && m.default_data.bytes@ == zeroes(total(kept(a, 0, false)))
}
proof fn muls(a: int, b: int) requires 0 <= a <= 24 * 64, 0 <= b <= 65535 ensures 0 <= a * b <= 24 * 64 * 65535 { assert(0 <= a * b <= 24 * 64 * 65535) by(nonlinear_arith) requires 0 <= a <= 24 * 64, 0 <= b <= 65535; }
/// bytes of all frames
spec fn frame_bytes(a: ModelAnimationsAnimation) -> int { total(kept(a, 0, true)) * a.frame_count }
/// e is d with the first k frames turned, each on its own
spec fn each<F: ByteOrder, G: ByteOrder>(s: Seq<FrameDataType>, d: Seq<u8>, e: Seq<u8>, k: int) -> bool {
    let n = total(s);
    &&& e.len() == d.len() && k * n <= d.len() && e.skip(k * n) == d.skip(k * n)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] frame(e, j, n) == turned_all::<F, G>(s, frame(d, j, n))
}
proof fn lens<F: ByteOrder, G: ByteOrder>(s: Seq<FrameDataType>, d: Seq<u8>) requires total(s) <= d.len() ensures turned_all::<F, G>(s, d).len() == total(s), turned_all::<F, G>(s, d) == turned_all::<F, G>(s, d.take(total(s))), total(s) >= 0 decreases s.len() {
    if s.len() > 0 { let n = weight(s[0]); let c = d.take(total(s)); pos(s.skip(1)); lens::<F, G>(s.skip(1), d.skip(n)); lens::<F, G>(s.skip(1), c.skip(n));
        assert(c.take(n) =~= d.take(n)); assert(c.skip(n) =~= d.skip(n).take(total(s.skip(1)))); assert(c.skip(n).take(total(s.skip(1))) =~= c.skip(n));
        ModelAnimationsRotation::value::<F>(d.take(n)).stored_len::<G>(); ModelAnimationsTransform::value::<F>(d.take(n)).stored_len::<G>(); ModelAnimationsScale::value::<F>(d.take(n)).stored_len::<G>(); }
}
proof fn pos(s: Seq<FrameDataType>) ensures total(s) >= 0 decreases s.len() { if s.len() > 0 { pos(s.skip(1)); } }
/// one more frame
proof fn more<F: ByteOrder, G: ByteOrder>(s: Seq<FrameDataType>, d: Seq<u8>, b: Seq<u8>, e: Seq<u8>, k: int, lim: int)
    requires each::<F, G>(s, d, b, k), 0 <= k, (k + 1) * total(s) <= lim <= d.len(), b.len() == d.len(), k * total(s) <= lim,
        e == b.take(lim).take(k * total(s)) + flipped::<F, G>(s, b.take(lim).skip(k * total(s))) + b.skip(lim)
    ensures each::<F, G>(s, d, e, k + 1)
{
    let n = total(s); pos(s); let p = k * n; assert((k + 1) * n == p + n && p >= 0) by(nonlinear_arith) requires p == k * n, k >= 0, n >= 0;
    let c = b.take(lim).skip(p); lens::<F, G>(s, c); let t = turned_all::<F, G>(s, c);
    assert(e.skip(p + n) =~= b.skip(p).skip(n)); assert(d.skip(p).skip(n) =~= d.skip(p + n));
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] frame(e, j, n) == turned_all::<F, G>(s, frame(d, j, n)) by {
        if j < k { assert(j * n + n <= p && j * n >= 0) by(nonlinear_arith) requires 0 <= j < k, n >= 0, p == k * n; assert(frame(e, j, n) =~= frame(b, j, n)); }
        else { assert(frame(e, k, n) =~= t); assert(c.take(n) =~= b.skip(p).take(n)); assert(frame(d, k, n) == c.take(n)); }
    }
}
spec fn frame(d: Seq<u8>, j: int, n: int) -> Seq<u8> { d.skip(j * n).take(n) }

spec fn turn_one<F: ByteOrder, G: ByteOrder>(t: FrameDataType, d: Seq<u8>) -> Seq<u8> { let n = weight(t); match t {
        FrameDataType::Rotate => turned::<ModelAnimationsRotation, F, G>(d.take(n)),
        FrameDataType::Transform => turned::<ModelAnimationsTransform, F, G>(d.take(n)),
        FrameDataType::Scale => turned::<ModelAnimationsScale, F, G>(d.take(n)),
    } }
proof fn ahead<F: ByteOrder, G: ByteOrder>(t: FrameDataType, s: Seq<FrameDataType>, d: Seq<u8>, e: Seq<u8>, p: int)
    requires 0 <= p, 0 <= total(s), p + weight(t) + total(s) <= d.len(), turn_one::<F, G>(t, d.skip(p)).len() == weight(t), e == d.take(p) + turn_one::<F, G>(t, d.skip(p)) + d.skip(p + weight(t))
    ensures e.len() == d.len(), d.take(p) + flipped::<F, G>(seq![t] + s, d.skip(p)) == e.take(p + weight(t)) + flipped::<F, G>(s, e.skip(p + weight(t)))
{
    let n = weight(t); let x = seq![t] + s; assert(x.skip(1) =~= s); assert(x[0] == t);
    assert(e.skip(p + n) =~= d.skip(p).skip(n)); assert(e.take(p + n) =~= d.take(p) + turn_one::<F, G>(t, d.skip(p)));
    assert(d.skip(p).skip(n).skip(total(s)) =~= d.skip(p).skip(total(x)));
    assert(d.take(p) + flipped::<F, G>(x, d.skip(p)) =~= e.take(p + n) + flipped::<F, G>(s, e.skip(p + n)));
}

/// d with the first t bytes turned, value by value
spec fn flipped<F: ByteOrder, G: ByteOrder>(s: Seq<FrameDataType>, d: Seq<u8>) -> Seq<u8> { turned_all::<F, G>(s, d) + d.skip(total(s)) }
'''
FLIPS = [dict(
    name='flip', about='changing byte order: for any animation data, exactly the values the flags name are read in one order and written in the other, in place and in sequence; every size that disagrees is an error, and no access is out of bounds',
    trusted=True, spec=FRAMES + FLIP, lemmas='',
    items=[
        Item(A, 'fn', 'flip_all', within=r'impl FrameDataIterator', vis='', wrap=('impl FrameDataIterator {\n', '\n}\n'), attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ',
            rewrite=[(r'for i in self \{', 'let mut it = self; loop { let i = match it.next() { Some(i) => i, None => break };', '`for` written as `loop`'),],
            spec='''requires self.remaining_nodes <= 65535, old(data)@.len() <= usize::MAX, *old(offset) + total(rest(self)) <= old(data)@.len()
                ensures *final(offset) == *old(offset) + total(rest(self)), final(data)@ == old(data)@.take(*old(offset) as int) + flipped::<From, To>(rest(self), old(data)@.skip(*old(offset) as int))''',
            loops=[dict(spec='''invariant_except_break true, invariant *offset + total(rest(it)) == *old(offset) + total(rest(self)), it.remaining_nodes <= self.remaining_nodes, *offset + total(rest(it)) <= data@.len(), data@.len() == old(data)@.len(),
                    old(data)@.take(*old(offset) as int) + flipped::<From, To>(rest(self), old(data)@.skip(*old(offset) as int)) == data@.take(*offset as int) + flipped::<From, To>(rest(it), data@.skip(*offset as int))
                    ensures rest(it).len() == 0 decreases rest(it).len()''',
                start='let ghost b = it; proof { rest_total(it); }',
                end='proof { let e = turn_one::<From, To>(i, d0.skip(p0)); let n = weight(i); assert(data@ =~= d0.take(p0) + e + d0.skip(p0 + n)); ahead::<From, To>(i, rest(it), d0, data@, p0); }')],
            at=[(r'let frame_data =', 'before', 'proof { let x = seq![i] + rest(it); assert(x.skip(1) =~= rest(it)); assert(x[0] == i); rest_total(it); } let ghost d0 = data@; let ghost p0 = *offset as int;')]),
        Item(A, 'fn', 'flip_endianness_for_frame_data', vis='', ret='r', rewrite=[MSG, (r'\w+\.clone\(\)', 'frame_data_iterator', 'Copy, so clone is a copy'), (r'frame_size\.mul_overflow_checked\(frame_count\)\?', 'mul_overflow_checked(frame_size, frame_count)?', 'method call written as a function call (P18 proves it)'),
                     (r'&mut animation\.frame_data\.bytes\[\.\.total_size\]', 'upto(&mut animation.frame_data.bytes, total_size)', 'slicing, with its panic as a precondition'),
                     (r'debug_assert_eq!\(offset, total_size\);', 'assert(offset == total_size);', 'a debug assertion is an obligation'),
                     (r'let mut offset = 0usize;', 'let mut offset = 0usize; let ghost d0 = animation.frame_data.bytes@;', 'ghost')],
            attrs='#[verifier::loop_isolation(false)] ',
            spec='''requires old(animation).node_count <= 64, old(animation).flags.compressed_data ==> frame_bytes(*old(animation)) <= old(animation).frame_data.bytes@.len()
                ensures ({ let (a, b) = (*old(animation), *final(animation)); let n = frame_bytes(a);
                    &&& r is Ok <==> (if a.flags.compressed_data { a.offset_to_compressed_data == n } else { a.frame_data.bytes@.len() == n })
                    &&& r is Ok ==> b == (ModelAnimationsAnimation { frame_data: b.frame_data, ..a }) && each::<From, To>(kept(a, 0, true), a.frame_data.bytes@, b.frame_data.bytes@, a.frame_count as int)
                    &&& r is Err ==> a == b })''',
            start='let ghost a0 = *animation; let ghost f = kept(a0, 0, true); proof { kept_total(a0, 0, true); muls(total(f), a0.frame_count as int); }',
            loops=[dict(iter='k', spec='''invariant *animation == (ModelAnimationsAnimation { frame_data: animation.frame_data, ..a0 }), frame_size == total(f), rest(frame_data_iterator) == f, frame_data_iterator.remaining_nodes <= 64, total_size == frame_size * frame_count, offset == k.index@ * frame_size, total_size <= d0.len(),
                    each::<From, To>(f, d0, animation.frame_data.bytes@, k.index@ as int)''',
                start='let ghost b = animation.frame_data.bytes@; let ghost i = k.index@ as int; proof { rest_total(frame_data_iterator); assert((i + 1) * frame_size == i * frame_size + frame_size && (i + 1) * frame_size <= total_size && i * frame_size >= 0) by(nonlinear_arith) requires 0 <= i < frame_count, frame_size >= 0, total_size == frame_size * frame_count; }',
                end='proof { more::<From, To>(f, d0, b, animation.frame_data.bytes@, i, total_size as int); }',
                after='proof { assert(frame_size * frame_count == frame_count * frame_size) by(nonlinear_arith); }')]),
        Item(A, 'fn', 'flip_endianness_for_default_data', vis='', ret='r', rewrite=[MSG, (r'\w+\.clone\(\)', 'frame_data_iterator', 'Copy, so clone is a copy'), (r'&mut animation\.default_data\.bytes', 'whole(&mut animation.default_data.bytes)', 'deref of Vec'), (r'debug_assert_eq!\(offset, frame_size\);', 'assert(offset == frame_size);', 'a debug assertion is an obligation')],
            spec='''requires old(animation).node_count <= 64
                ensures ({ let (a, b) = (*old(animation), *final(animation)); let s = kept(a, 0, false);
                    &&& r is Ok <==> a.default_data.bytes@.len() == total(s)
                    &&& r is Ok ==> b == (ModelAnimationsAnimation { default_data: b.default_data, ..a }) && b.default_data.bytes@ == turned_all::<From, To>(s, a.default_data.bytes@)
                    &&& r is Err ==> a == b })''',
            start='let ghost a0 = *animation; proof { kept_total(a0, 0, false); }',
            at=[(r'assert\(offset', 'before', 'proof { let d = a0.default_data.bytes@; let s = kept(a0, 0, false); assert(d.skip(0) =~= d); lens::<From, To>(s, d); assert(d.take(0) + flipped::<From, To>(s, d) =~= turned_all::<From, To>(s, d)); }')]),
        Item(A, 'fn', 'flip_endianness_for_frame_info', vis='', ret='r', rewrite=[MSG, (r'let data = animation\.frame_info\.bytes\.as_mut_slice\(\);', 'let ghost d0 = animation.frame_info.bytes@; let data = whole(&mut animation.frame_info.bytes);', 'deref of Vec'),
                     (r'for f in \(0\.\.actual_size\)\.step_by\(frame_size\) \{', 'let mut next = 0usize; while next < actual_size { let f = next; next = if actual_size - f <= frame_size { actual_size } else { f + frame_size };', '`for` over step_by written as `while`')],
            attrs='#[verifier::loop_isolation(false)] ',
            spec='''ensures ({ let (a, b) = (*old(animation), *final(animation)); let n = D::bytes();
                    &&& r is Ok <==> a.frame_info.bytes@.len() == n * a.frame_count
                    &&& r is Ok ==> b == (ModelAnimationsAnimation { frame_info: b.frame_info, ..a }) && infos::<D, From, To>(a.frame_info.bytes@, b.frame_info.bytes@, a.frame_count as int)
                    &&& r is Err ==> a == b })''',
            start='let ghost a0 = *animation; let ghost mut k = 0int; proof { D::sized(); assert(0 <= D::bytes() * a0.frame_count <= 256 * 65535) by(nonlinear_arith) requires 0 < D::bytes() <= 256; }',
            loops=[dict(spec='''invariant 0 <= k <= frame_count, next == k * frame_size, frame_size == D::bytes(), actual_size == frame_size * frame_count, data@.len() == actual_size, infos::<D, From, To>(d0, data@, k) decreases actual_size - next''',
                start='let ghost b = data@; proof { assert(k < frame_count && (k + 1) * frame_size == k * frame_size + frame_size && (k + 1) * frame_size <= actual_size) by(nonlinear_arith) requires k * frame_size < actual_size, actual_size == frame_size * frame_count, frame_size > 0, 0 <= k; }',
                end='proof { one_more::<D, From, To>(d0, b, data@, k); k = k + 1; }',
                after='proof { assert(k == frame_count) by(nonlinear_arith) requires k * frame_size >= frame_size * frame_count, k <= frame_count, frame_size > 0; }')]),
        Item(A, 'fn', 'flip_endianness_for_model_animations_animation', vis='', ret='r', rewrite=[MSG, (r'!animation\.frame_info\.bytes\.is_empty\(\)', 'animation.frame_info.bytes.len() != 0', 'Vec::is_empty written out')],
            spec='''requires old(animation).flags.compressed_data && old(animation).node_count <= 64 ==> frame_bytes(*old(animation)) <= old(animation).frame_data.bytes@.len()
                ensures r is Ok <==> consistent(*old(animation)), r is Ok ==> swapped::<From, To>(*old(animation), *final(animation))''',
            start='let ghost a0 = *animation; proof { assert forall|m: ModelAnimationsAnimation, b: bool| #![trigger kept(m, 0, b)] m.node_count == a0.node_count && m.node_rotation_flag_data == a0.node_rotation_flag_data && m.node_transform_flag_data == a0.node_transform_flag_data && m.node_scale_flag_data == a0.node_scale_flag_data implies kept(m, 0, b) == kept(a0, 0, b) by { same_flags(a0, m, 0, b); } }'),
        Item(X, 'fn', 'fix_model_animations_animation', vis='', ret='r', rewrite=[
                     (r'FrameDataIterator::for_animation\(animation\)\.to_size\(\)\.mul_overflow_checked\(animation\.frame_count as usize\)\?', 'mul_overflow_checked(FrameDataIterator::for_animation(animation).to_size(), animation.frame_count as usize)?', 'method call written as a function call'),
                     (r'offset\.add_overflow_checked\(animation\.frame_data\.bytes\.len\(\)\)\?', 'add_overflow_checked(offset, animation.frame_data.bytes.len())?', 'method call written as a function call'),
                     (r'\.extend_from_slice\(&animation\.frame_data\.bytes\)', '.extend_from_slice(animation.frame_data.bytes.as_slice())', 'deref of Vec'),
                     (r'vec!\[0u8; (.*?)\];', r'zeros(\1);', 'assumed contract of vec!'), (r'flip_endianness_for_model_animations_animation::<LittleEndian, BigEndian>\(animation\)', 'let ghost m = *animation; proof { assert(frame_bytes(m) == frame_bytes(a0)); } let r = flip_endianness_for_model_animations_animation::<LittleEndian, BigEndian>(animation); proof { if r is Ok { assert(swapped::<LittleEndian, BigEndian>(m, *animation)); if a0.flags.compressed_data { same_flags(a0, m, 0, true); same_flags(a0, m, 0, false); assert(m.frame_data.bytes@ =~= zeroes(frame_bytes(a0)) + a0.frame_data.bytes@); assert(opened(a0, m)); } } } r', 'ghost')],
            spec='''ensures ({ let (a, b) = (*old(animation), *final(animation));
                &&& r is Ok && !a.flags.compressed_data ==> swapped::<LittleEndian, BigEndian>(a, b)
                &&& !a.flags.compressed_data ==> (r is Ok <==> consistent(a))
                &&& r is Ok && a.flags.compressed_data ==> exists|m: ModelAnimationsAnimation| #[trigger] swapped::<LittleEndian, BigEndian>(m, b) && opened(a, m) })''',
            start='let ghost a0 = *animation; proof { if a0.node_count <= 64 { kept_total(a0, 0, true); kept_total(a0, 0, false); muls(total(kept(a0, 0, true)), a0.frame_count as int); } assert forall|m: ModelAnimationsAnimation, b: bool| #![trigger kept(m, 0, b)] m.node_count == a0.node_count && m.node_rotation_flag_data == a0.node_rotation_flag_data && m.node_transform_flag_data == a0.node_transform_flag_data && m.node_scale_flag_data == a0.node_scale_flag_data implies kept(m, 0, b) == kept(a0, 0, b) by { same_flags(a0, m, 0, b); } }')
    ])]
UNITS = [dict(
    name='frames', about='FrameDataIterator: for any flags and up to 64 nodes, each node in turn gives its rotation, translation and scale when flagged (inverted: when not); to_size is the sum of their sizes',
    trusted=True, spec=FRAMES, lemmas='',
    items=[
        Item(A, 'enum', 'FrameDataType', attrs='#[derive(Clone, Copy)] '),
        Item(A, 'struct', 'FrameDataIterator', attrs='#[derive(Clone, Copy)] ', rewrite=[(r'(?m)\b(scale|transform|rotation|mask|remaining_nodes|mode):', r'pub \1:', 'fields made visible to the contracts')]),
        Item(A, 'fn', 'next', within=r'impl Iterator for FrameDataIterator', vis='', wrap=('impl FrameDataIterator {\n', '\n}\n'), ret='r',
            rewrite=[(r'Option<Self::Item>', 'Option<FrameDataType>', 'the associated type')],
            spec='ensures match r { None => rest(*old(self)) == Seq::<FrameDataType>::empty() && rest(*final(self)) == Seq::<FrameDataType>::empty(), Some(t) => rest(*old(self)) == seq![t] + rest(*final(self)) }, final(self).remaining_nodes <= old(self).remaining_nodes',
            attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ',
            loops=[dict(spec='invariant rest(*self) == rest(*old(self)), self.remaining_nodes <= old(self).remaining_nodes decreases self.remaining_nodes, (match self.mode { FrameDataType::Rotate => 2int, FrameDataType::Transform => 1, FrameDataType::Scale => 0 })',
                        start='let ghost before = *self;',)],
            at=[(r'if matched \{', 'before', 'proof { reveal_with_fuel(rest, 2); assert(seq![] + rest(*self) =~= rest(*self)); assert(rest(before) == one(matched, old_mode) + rest(*self)); }')]),
        Item(A, 'fn', 'to_size', within=r'impl FrameDataIterator', vis='', wrap=('impl FrameDataIterator {\n', '\n}\n'), ret='r', attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ',
            rewrite=[(r'for i in self \{', 'let mut it = self; loop { let i = match it.next() { Some(i) => i, None => break };', '`for` written as `loop`')],
            spec='requires self.remaining_nodes <= 65535 ensures r == total(rest(self))',
            start='proof { rest_total(self); }',
            loops=[dict(spec='invariant_except_break true, invariant size + total(rest(it)) == total(rest(self)), it.remaining_nodes <= self.remaining_nodes ensures size == total(rest(self)) decreases rest(it).len()',
                        start='let ghost b = it; proof { rest_total(it); }')],
            at=[(r'size \+=', 'before', 'proof { let x = seq![i] + rest(it); assert(x.skip(1) =~= rest(it)); assert(x[0] == i); rest_total(it); }')]),
        Item(A, 'fn', 'for_animation', within=r'impl FrameDataIterator', vis='', wrap=('impl FrameDataIterator {\n', '\n}\n'), ret='r',
            rewrite=[(r'FrameDataType::default\(\)', 'FrameDataType::Rotate', 'the #[default] variant (Rotate)'),
                     (r'let flag_data_to_u64 = \|data: \[u32; 2\]\| ([^;]*);', r'let flag_data_to_u64 = |data: [u32; 2]| -> (x: u64) ensures x == (((data@[1] as u64) << 32) | (data@[0] as u64)) { \1 };', 'contract written on the closure')],
            spec='ensures nth(r, *animation, 0, true), animation.node_count <= 64 ==> rest(r) == kept(*animation, 0, true)',
            start='''proof { assert(1u64 << 0 == 1) by(bit_vector); let a = *animation;
                assert forall|f: FrameDataIterator, i: u64| i < 64 && made(f, a, true) implies #[trigger] sees(f, a, i, true) by { bits(f.rotation, a.node_rotation_flag_data, i, true, a.node_rotation_flag_data@[0] as u64, a.node_rotation_flag_data@[1] as u64); bits(f.transform, a.node_transform_flag_data, i, true, a.node_transform_flag_data@[0] as u64, a.node_transform_flag_data@[1] as u64); bits(f.scale, a.node_scale_flag_data, i, true, a.node_scale_flag_data@[0] as u64, a.node_scale_flag_data@[1] as u64); }
                assert forall|f: FrameDataIterator| made(f, a, true) implies nth(f, a, 0, true) by { }
                assert forall|f: FrameDataIterator| made(f, a, true) && a.node_count <= 64 implies #[trigger] rest(f) == kept(a, 0, true) by { means(f, a, 0, true); } }'''),
        Item(A, 'fn', 'for_animation_inverted', within=r'impl FrameDataIterator', vis='', wrap=('impl FrameDataIterator {\n', '\n}\n'), ret='r',
            rewrite=[(r'FrameDataType::default\(\)', 'FrameDataType::Rotate', 'the #[default] variant (Rotate)'),
                     (r'let flag_data_to_u64 = \|data: \[u32; 2\]\| ([^;]*);', r'let flag_data_to_u64 = |data: [u32; 2]| -> (x: u64) ensures x == (((data@[1] as u64) << 32) | (data@[0] as u64)) { \1 };', 'contract written on the closure')],
            spec='ensures nth(r, *animation, 0, false), animation.node_count <= 64 ==> rest(r) == kept(*animation, 0, false)',
            start='''proof { assert(1u64 << 0 == 1) by(bit_vector); let a = *animation;
                assert forall|f: FrameDataIterator, i: u64| i < 64 && made(f, a, false) implies #[trigger] sees(f, a, i, false) by { bits(f.rotation, a.node_rotation_flag_data, i, false, a.node_rotation_flag_data@[0] as u64, a.node_rotation_flag_data@[1] as u64); bits(f.transform, a.node_transform_flag_data, i, false, a.node_transform_flag_data@[0] as u64, a.node_transform_flag_data@[1] as u64); bits(f.scale, a.node_scale_flag_data, i, false, a.node_scale_flag_data@[0] as u64, a.node_scale_flag_data@[1] as u64); }
                assert forall|f: FrameDataIterator| made(f, a, false) implies nth(f, a, 0, false) by { }
                assert forall|f: FrameDataIterator| made(f, a, false) && a.node_count <= 64 implies #[trigger] rest(f) == kept(a, 0, false) by { means(f, a, 0, false); } }'''),
    ])]
FRAME_ITEMS = UNITS[0]['items']
for u in FLIPS:
    u['items'] = FRAME_ITEMS + u['items']
UNITS += FLIPS

M = 'src/ringhopper/src/tag/model.rs'
MSG3 = (r'format!\((?:[^()"]|"[^"]*")*\)|"[^"]*"\.(?:to_string|to_owned)\(\)', 'message()', 'message text is not under contract')
MODEL = BASE + r'''
type Index = Option<u16>;
pub struct Reflexive<T> { pub items: Vec<T> }
pub struct Flags { pub zoner: bool }
pub struct ModelFlags { pub parts_have_local_nodes: bool }
pub struct ModelNode { pub next_sibling_node_index: Index, pub first_child_node_index: Index, pub parent_node_index: Index }
#[verifier::external_body] pub struct ModelShaderReference;
pub struct ModelRegionPermutationMarker { pub node_index: Index }
pub struct ModelRegionPermutation { pub super_low: Index, pub low: Index, pub medium: Index, pub high: Index, pub super_high: Index, pub markers: Reflexive<ModelRegionPermutationMarker> }
pub struct ModelRegion { pub permutations: Reflexive<ModelRegionPermutation> }
pub struct ModelVertexUncompressed { pub node0_index: Index, pub node1_index: Index }
#[verifier::external_body] pub struct ModelVertexCompressed;
pub struct ModelGeometryPart { pub flags: Flags, pub shader_index: Index, pub centroid_primary_node: Index, pub centroid_secondary_node: Index, pub uncompressed_vertices: Reflexive<ModelVertexUncompressed>, pub compressed_vertices: Reflexive<ModelVertexCompressed> }
pub struct GBXModelGeometryPart { pub model_geometry_part: ModelGeometryPart, pub local_node_count: u8, pub local_node_indices: [u8; 22] }
pub struct ModelGeometry { pub parts: Reflexive<ModelGeometryPart> }
pub struct GBXModelGeometry { pub parts: Reflexive<GBXModelGeometryPart> }
pub struct Model { pub nodes: Reflexive<ModelNode>, pub regions: Reflexive<ModelRegion>, pub shaders: Reflexive<ModelShaderReference>, pub geometries: Reflexive<ModelGeometry> }
pub struct GBXModel { pub flags: ModelFlags, pub nodes: Reflexive<ModelNode>, pub regions: Reflexive<ModelRegion>, pub shaders: Reflexive<ModelShaderReference>, pub geometries: Reflexive<GBXModelGeometry> }
pub uninterp spec fn small(v: ModelVertexUncompressed) -> ModelVertexCompressed;
pub uninterp spec fn full(v: ModelVertexCompressed) -> ModelVertexUncompressed;
#[verifier::external_body] fn compress_model_vertex(v: &ModelVertexUncompressed) -> (r: ModelVertexCompressed) ensures r == small(*v) { unimplemented!() }
#[verifier::external_body] fn decompress_model_vertex(v: &ModelVertexCompressed) -> (r: ModelVertexUncompressed) ensures r == full(*v) { unimplemented!() }
pub open spec fn fulls(s: Seq<ModelVertexCompressed>) -> Seq<ModelVertexUncompressed> { Seq::new(s.len(), |i: int| full(s[i])) }
pub open spec fn smalls(s: Seq<ModelVertexUncompressed>) -> Seq<ModelVertexCompressed> { Seq::new(s.len(), |i: int| small(s[i])) }
#[verifier::external_body] fn all_full(v: &Vec<ModelVertexCompressed>) -> (r: Vec<ModelVertexUncompressed>) ensures r@ == fulls(v@) { unimplemented!() }
#[verifier::external_body] fn copies(v: &Vec<ModelVertexUncompressed>) -> (r: Vec<ModelVertexUncompressed>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn firsts(a: &[u8; 22], n: usize) -> (r: Option<&[u8]>) ensures r is Some <==> n <= 22, r is Some ==> r->Some_0@ == a@.take(n as int) { unimplemented!() }
/// none, or below n
pub open spec fn inside(i: Index, n: int) -> bool { match i { None => true, Some(k) => k < n } }
trait ModelFunctions: Sized {
    spec fn ns(&self) -> Seq<ModelNode>; spec fn rs(&self) -> Seq<ModelRegion>; spec fn ss(&self) -> Seq<ModelShaderReference>; spec fn gc(&self) -> nat;
    fn nodes(&self) -> (r: &[ModelNode]) ensures r@ == self.ns();
    fn regions(&self) -> (r: &[ModelRegion]) ensures r@ == self.rs();
    fn shaders(&self) -> (r: &[ModelShaderReference]) ensures r@ == self.ss();
    fn geometry_count(&self) -> (r: usize) ensures r == self.gc();
}
impl ModelFunctions for Model {
    spec fn ns(&self) -> Seq<ModelNode> { self.nodes.items@ } spec fn rs(&self) -> Seq<ModelRegion> { self.regions.items@ } spec fn ss(&self) -> Seq<ModelShaderReference> { self.shaders.items@ } spec fn gc(&self) -> nat { self.geometries.items@.len() }
    fn nodes(&self) -> (r: &[ModelNode]) { self.nodes.items.as_slice() } fn regions(&self) -> (r: &[ModelRegion]) { self.regions.items.as_slice() } fn shaders(&self) -> (r: &[ModelShaderReference]) { self.shaders.items.as_slice() } fn geometry_count(&self) -> (r: usize) { self.geometries.items.len() }
}
impl ModelFunctions for GBXModel {
    spec fn ns(&self) -> Seq<ModelNode> { self.nodes.items@ } spec fn rs(&self) -> Seq<ModelRegion> { self.regions.items@ } spec fn ss(&self) -> Seq<ModelShaderReference> { self.shaders.items@ } spec fn gc(&self) -> nat { self.geometries.items@.len() }
    fn nodes(&self) -> (r: &[ModelNode]) { self.nodes.items.as_slice() } fn regions(&self) -> (r: &[ModelRegion]) { self.regions.items.as_slice() } fn shaders(&self) -> (r: &[ModelShaderReference]) { self.shaders.items.as_slice() } fn geometry_count(&self) -> (r: usize) { self.geometries.items.len() }
}
pub open spec fn node_ok(v: ModelNode, n: int) -> bool { inside(v.next_sibling_node_index, n) && inside(v.first_child_node_index, n) && inside(v.parent_node_index, n) }
pub open spec fn marker_ok(v: ModelRegionPermutationMarker, n: int) -> bool { inside(v.node_index, n) }
pub open spec fn permutation_ok(p: ModelRegionPermutation, n: int, g: int) -> bool { inside(p.super_low, g) && inside(p.low, g) && inside(p.medium, g) && inside(p.high, g) && inside(p.super_high, g) && (forall|k: int| 0 <= k < p.markers.items@.len() ==> marker_ok(#[trigger] p.markers.items@[k], n)) }
pub open spec fn region_ok(r: ModelRegion, n: int, g: int) -> bool { forall|k: int| 0 <= k < r.permutations.items@.len() ==> permutation_ok(#[trigger] r.permutations.items@[k], n, g) }
/// nodes, and geometries and markers of permutations
spec fn base_ok<M: ModelFunctions>(m: M) -> bool {
    let (n, g) = (m.ns().len() as int, m.gc() as int);
    (forall|k: int| 0 <= k < n ==> node_ok(#[trigger] m.ns()[k], n)) && (forall|k: int| 0 <= k < m.rs().len() ==> region_ok(#[trigger] m.rs()[k], n, g))
}
spec fn part_ok<M: ModelFunctions>(m: M, p: ModelGeometryPart) -> bool { inside(p.shader_index, m.ss().len() as int) && inside(p.centroid_primary_node, m.ns().len() as int) && inside(p.centroid_secondary_node, m.ns().len() as int) }
/// a node of a vertex, through the local nodes if there are any
pub open spec fn resolves(i: Index, n: int, local: Option<Seq<u8>>) -> bool { match i { None => true, Some(k) => match local { None => k < n, Some(l) => k < l.len() && l[k as int] < n } } }
pub open spec fn vertex_ok(v: ModelVertexUncompressed, n: int, local: Option<Seq<u8>>) -> bool { resolves(v.node0_index, n, local) && resolves(v.node1_index, n, local) }
pub open spec fn vertices_ok(s: Seq<ModelVertexUncompressed>, n: int, local: Option<Seq<u8>>) -> bool { forall|k: int| 0 <= k < s.len() ==> vertex_ok(#[trigger] s[k], n, local) }
pub open spec fn plain_ok(p: ModelGeometryPart, n: int) -> bool { vertices_ok(p.uncompressed_vertices.items@, n, None) && vertices_ok(fulls(p.compressed_vertices.items@), n, None) }
pub open spec fn local_ok(p: GBXModelGeometryPart, n: int) -> bool { p.local_node_count <= 22 && vertices_ok(p.model_geometry_part.uncompressed_vertices.items@, n, Some(p.local_node_indices@.take(p.local_node_count as int))) && vertices_ok(fulls(p.model_geometry_part.compressed_vertices.items@), n, None) }
pub open spec fn seen(l: Option<&[u8]>) -> Option<Seq<u8>> { match l { None => None, Some(x) => Some(x@) } }
spec fn gbxpart_ok(m: GBXModel, p: GBXModelGeometryPart) -> bool { part_ok(m, p.model_geometry_part) && (if m.flags.parts_have_local_nodes { local_ok(p, m.ns().len() as int) } else { plain_ok(p.model_geometry_part, m.ns().len() as int) }) }
spec fn model_part_ok(m: Model, p: ModelGeometryPart) -> bool { part_ok(m, p) && plain_ok(p, m.ns().len() as int) && !p.flags.zoner }
spec fn gbxmodel_part_ok(m: GBXModel, p: GBXModelGeometryPart) -> bool { gbxpart_ok(m, p) && p.model_geometry_part.flags.zoner == m.flags.parts_have_local_nodes }
spec fn model_geometry_ok(m: Model, g: ModelGeometry) -> bool { forall|k: int| 0 <= k < g.parts.items@.len() ==> model_part_ok(m, #[trigger] g.parts.items@[k]) }
spec fn gbxmodel_geometry_ok(m: GBXModel, g: GBXModelGeometry) -> bool { forall|k: int| 0 <= k < g.parts.items@.len() ==> gbxmodel_part_ok(m, #[trigger] g.parts.items@[k]) }
'''
ISO = '#[verifier::loop_isolation(false)] '
OVER = lambda v, of, seq: (rf'for {v} in {of} \{{', f'let mut n_{v} = 0usize; while n_{v} < {seq}.len() {{ let {v} = &{seq}[n_{v}]; n_{v} += 1;', '`for` over a list written as `while`')
def step(v, seq, ok, more=''):
    return dict(spec=f'invariant n_{v} <= {seq}@.len(), forall|k: int| 0 <= k < n_{v} ==> {ok.replace("@@", f"#[trigger] {seq}@[k]")}{more} decreases {seq}@.len() - n_{v}')
UNITS += [dict(
    name='model_check', about='ModelFunctions::check_indices: for every model and gbxmodel, it passes exactly when all node, geometry, shader and vertex node indices are in range (vertex nodes through the local nodes when parts have them) and zoner agrees',
    trusted=True, spec=MODEL, lemmas='',
    items=[
        Item(M, 'fn', 'check_base_model', vis='', attrs=ISO, rewrite=[MSG3,
                (r'let (bad_node_index|bad_geometry_index) = \|index: Index\|\s*if index\.is_some_and\(\|i\| (node_count|geometry_count) <= \(i as usize\)\) (\{[^{}]*\}\s*else \{[^{}]*\});', r'let \1 = |index: Index| -> (e: RinghopperResult<()>) ensures e is Ok <==> inside(index, \2 as int) { if (match index { Some(i) => \2 <= (i as usize), None => false }) \3 };', 'contract written on the closure; Option::is_some_and written out'),
                OVER('node', 'nodes', 'nodes'), (r'for region in model\.regions\(\) \{', 'let regions = model.regions(); for region in regions {', 'name for the list'), OVER('region', 'regions', 'regions'), OVER('permutation', r'&region\.permutations', 'region.permutations.items'), OVER('m', r'&permutation\.markers', 'permutation.markers.items')],
            spec='ensures r is Ok <==> base_ok(*model)',
            loops=[step('node', 'nodes', 'node_ok(@@, node_count as int)'), step('region', 'regions', 'region_ok(@@, node_count as int, geometry_count as int)'),
                   step('permutation', 'region.permutations.items', 'permutation_ok(@@, node_count as int, geometry_count as int)'), step('m', 'permutation.markers.items', 'marker_ok(@@, node_count as int)')]),
        Item(M, 'fn', 'check_base_part', vis='', rewrite=[MSG3, (r'(part\.\w+)\.is_some_and\(\|(\w)\| (\w+)\.get\(\2 as usize\)\.is_none\(\)\)', r'(match \1 { Some(\2) => \3.get(\2 as usize).is_none(), None => false })', 'Option::is_some_and written out')],
            spec='ensures r is Ok <==> part_ok(*model, *part)'),
        Item(M, 'fn', 'check_vertex_buffer', vis='', attrs=ISO, rewrite=[MSG3, (r'<I: Iterator<Item = ModelVertexUncompressed>>\(vertices: I', '(vertices: Vec<ModelVertexUncompressed>', 'the vertices as a list'),
                (r'let resolve = \|node: &Index\| -> RinghopperResult<\(\)> \{', 'let resolve = |node: &Index| -> (e: RinghopperResult<()>) ensures e is Ok <==> resolves(*node, nodes@.len() as int, seen(local_nodes)) {', 'contract written on the closure'),
                (r'let Some\(n\) = node\.map\(\|i\| i as usize\)', 'let Some(n) = (match *node { Some(i) => Some(i as usize), None => None })', 'Option::map written out'),
                (r'nodes\s*\.get\(real_index\)\s*\.map\(\|_\| \(\)\)\s*\.ok_or_else\(\|\| (.*?)\)\n', r'(match nodes.get(real_index) { Some(_) => Ok(()), None => Err(\1) })\n', 'Option::map and ok_or_else written out'),
                OVER('vertex', 'vertices', 'vertices')],
            spec='ensures r is Ok <==> vertices_ok(vertices@, nodes@.len() as int, seen(local_nodes))',
            loops=[step('vertex', 'vertices', 'vertex_ok(@@, nodes@.len() as int, seen(local_nodes))')]),
        Item(M, 'fn', 'check_indices_for_part', vis='', rewrite=[(r'part\.uncompressed_vertices\.items\.iter\(\)\.map\(ToOwned::to_owned\)', 'copies(&part.uncompressed_vertices.items)', 'a list of the mapped vertices'), (r'part\.compressed_vertices\.items\.iter\(\)\.map\(decompress_model_vertex\)', 'all_full(&part.compressed_vertices.items)', 'a list of the mapped vertices')],
            spec='ensures r is Ok <==> plain_ok(*part, model.ns().len() as int)'),
        Item(M, 'fn', 'check_indices_for_gbxpart', vis='', rewrite=[(r'gbxpart\.model_geometry_part\.uncompressed_vertices\.items\.iter\(\)\.map\(ToOwned::to_owned\)', 'copies(&gbxpart.model_geometry_part.uncompressed_vertices.items)', 'a list of the mapped vertices'), (r'gbxpart\.model_geometry_part\.compressed_vertices\.items\.iter\(\)\.map\(decompress_model_vertex\)', 'all_full(&gbxpart.model_geometry_part.compressed_vertices.items)', 'a list of the mapped vertices'),
                (r'gbxpart\s*\.local_node_indices\s*\.get\(\.\.gbxpart\.local_node_count as usize\)\s*\.ok_or_else\(\|\| (Error::InvalidTagData\("[^"]*"\.to_owned\(\)\))\)\?', r'match firsts(&gbxpart.local_node_indices, gbxpart.local_node_count as usize) { Some(x) => x, None => return Err(\1) }', 'slicing and ok_or_else written out'), MSG3],
            spec='ensures r is Ok <==> gbxpart_ok(*gbxmodel, *gbxpart)'),
        Item(M, 'fn', 'check_indices', within='impl ModelFunctions for Model', vis='', attrs=ISO, wrap=('impl Model {\n', '\n}\n'), rewrite=[MSG3, OVER('geometry', '&self\\.geometries', 'self.geometries.items'), OVER('part', '&geometry\\.parts', 'geometry.parts.items')],
            spec='ensures r is Ok <==> base_ok(*self) && forall|k: int| 0 <= k < self.geometries.items@.len() ==> model_geometry_ok(*self, #[trigger] self.geometries.items@[k])',
            loops=[step('geometry', 'self.geometries.items', 'model_geometry_ok(*self, @@)'), step('part', 'geometry.parts.items', 'model_part_ok(*self, @@)')]),
        Item(M, 'fn', 'check_indices', within='impl ModelFunctions for GBXModel', vis='', attrs=ISO, wrap=('impl GBXModel {\n', '\n}\n'), rewrite=[MSG3, OVER('geometry', '&self\\.geometries', 'self.geometries.items'), OVER('part', '&geometry\\.parts', 'geometry.parts.items')],
            spec='ensures r is Ok <==> base_ok(*self) && forall|k: int| 0 <= k < self.geometries.items@.len() ==> gbxmodel_geometry_ok(*self, #[trigger] self.geometries.items@[k])',
            loops=[step('geometry', 'self.geometries.items', 'gbxmodel_geometry_ok(*self, @@)'), step('part', 'geometry.parts.items', 'gbxmodel_part_ok(*self, @@)')]),
    ])]
VERTICES = MODEL + r'''
pub struct ModelDetailCutoff { pub super_low: u64, pub low: u64, pub medium: u64, pub high: u64, pub super_high: u64 }
spec fn but_small(a: ModelGeometryPart, b: ModelGeometryPart) -> bool { b == ModelGeometryPart { compressed_vertices: b.compressed_vertices, ..a } }
spec fn but_full(a: ModelGeometryPart, b: ModelGeometryPart) -> bool { b == ModelGeometryPart { uncompressed_vertices: b.uncompressed_vertices, ..a } }
#[verifier::external_body] fn reserve<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { unimplemented!() }
'''
EMPTY = (r'(part\.\w+\.items)\.is_empty\(\)', r'(\1.len() == 0)', 'Vec::is_empty written out')
RES = (r'(part\.\w+\.items)\.reserve_exact\(([^;]*)\);', r'let n_all = \2; reserve(&mut \1, n_all);', 'assumed contract of reserve_exact')
UNITS += [dict(
    name='model_vertices', about='the parts of recompression: compressed vertices are dropped only when full ones exist; the missing form becomes the conversion of the other, vertex by vertex in order, and nothing else changes; cutoffs are mirrored',
    trusted=True, spec=VERTICES, lemmas='',
    items=[
        Item(M, 'fn', 'restore_missing_compressed_vertices', vis='', attrs=ISO, rewrite=[EMPTY, RES, OVER('vert', r'&part\.uncompressed_vertices', 'part.uncompressed_vertices.items'), (r'&vert\b', 'vert', 'deref of a reference to a reference')],
            spec='ensures ({ let (a, b) = (*old(part), *final(part)); r == (a.compressed_vertices.items@.len() == 0) && but_small(a, b) && (r ==> b.compressed_vertices.items@ == smalls(a.uncompressed_vertices.items@)) && (!r ==> a == b) })',
            start='let ghost a = *part;',
            loops=[dict(spec='invariant n_vert <= part.uncompressed_vertices.items@.len(), but_small(a, *part), part.compressed_vertices.items@ == smalls(part.uncompressed_vertices.items@.take(n_vert as int)) decreases part.uncompressed_vertices.items@.len() - n_vert',
                end='proof { let s = part.uncompressed_vertices.items@; assert(part.compressed_vertices.items@ =~= smalls(s.take(n_vert as int))); }',
                after='proof { let s = part.uncompressed_vertices.items@; assert(s.take(n_vert as int) =~= s); }')],
            at=[(r'reserve\(&mut part\.compressed_vertices\.items, n_all\);', 'after', 'proof { assert(part.compressed_vertices.items@ =~= smalls(part.uncompressed_vertices.items@.take(0))); }')]),
        Item(M, 'fn', 'restore_missing_uncompressed_vertices', vis='', attrs=ISO, rewrite=[EMPTY, RES, OVER('vert', r'&part\.compressed_vertices', 'part.compressed_vertices.items'), (r'&vert\b', 'vert', 'deref of a reference to a reference')],
            spec='ensures ({ let (a, b) = (*old(part), *final(part)); r == (a.uncompressed_vertices.items@.len() == 0) && but_full(a, b) && (r ==> b.uncompressed_vertices.items@ == fulls(a.compressed_vertices.items@)) && (!r ==> a == b) })',
            start='let ghost a = *part;',
            loops=[dict(spec='invariant n_vert <= part.compressed_vertices.items@.len(), but_full(a, *part), part.uncompressed_vertices.items@ == fulls(part.compressed_vertices.items@.take(n_vert as int)) decreases part.compressed_vertices.items@.len() - n_vert',
                end='proof { let s = part.compressed_vertices.items@; assert(part.uncompressed_vertices.items@ =~= fulls(s.take(n_vert as int))); }',
                after='proof { let s = part.compressed_vertices.items@; assert(s.take(n_vert as int) =~= s); }')],
            at=[(r'reserve\(&mut part\.uncompressed_vertices\.items, n_all\);', 'after', 'proof { assert(part.uncompressed_vertices.items@ =~= fulls(part.compressed_vertices.items@.take(0))); }')]),
        Item(M, 'fn', 'destroy_compressed_vertices', vis='', rewrite=[EMPTY],
            spec='ensures ({ let (a, b) = (*old(part), *final(part)); r == (a.uncompressed_vertices.items@.len() != 0) && but_small(a, b) && (r ==> b.compressed_vertices.items@.len() == 0) && (!r ==> a == b) })'),
        Item(M, 'fn', 'flip_lod_cutoffs(cutoff', vis='',
            spec='ensures ({ let (a, b) = (*old(cutoff), *final(cutoff)); b == ModelDetailCutoff { super_low: a.super_high, super_high: a.super_low, low: a.high, high: a.low, medium: a.medium } })'),
    ])]
