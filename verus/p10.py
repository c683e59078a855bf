from extract import Item
from tagdata import *
G = 'src/ringhopper-primitives/src/primitive/group.rs'
PT = 'src/ringhopper-primitives/src/primitive/path.rs'
AR = 'src/ringhopper-primitives/src/primitive/array.rs'
STRUCTS = [
    Item(D, 'struct', 'Address', attrs='#[derive(Clone, Copy)]\n'),
    Item(D, 'struct', 'Padding', rewrite=[('T: Sized \\+ Default', 'T: Sized', 'bound not needed')]),
    Item(D, 'struct', 'ReflexiveC'),
    Item(D, 'struct', 'Reflexive'),
]
PRIMS = '''
use std::marker::PhantomData;
// contracts of the numbers: discharged by Kani for every value and position in check P04
impl SimpleTagData for u32 {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(*self, big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
impl Default for Address { fn default() -> (r: Self) ensures r.address == 0 { Address { address: 0 } } }
// padding: discharged by Kani in check P04
impl SimpleTagData for Padding<[u8; 4]> {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { true }
    open spec fn enc(&self, big: bool) -> Seq<u8> { zeros(4) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) { unimplemented!() }
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) { unimplemented!() }
}
'''
SUB = ('''
/// splitting what was written
proof fn put_put(d: Seq<u8>, at: int, x: Seq<u8>, y: Seq<u8>) requires 0 <= at, at + x.len() + y.len() <= d.len()
    ensures put(put(d, at, x), at + x.len(), y) == put(d, at, x + y) { assert(put(put(d, at, x), at + x.len(), y) =~= put(d, at, x + y)); }
proof fn pos_split(x: Seq<u8>, y: Seq<u8>, d: Seq<u8>, at: int) requires 0 <= at, at_pos(x + y, d, at) ensures at_pos(x, d, at), at_pos(y, d, at + x.len()) {
    let z = cut(d, at, (x + y).len() as int);
    assert(z =~= x + y);
    assert forall|i: int| 0 <= i < x.len() implies d[at + i] == x[i] by { assert(z[i] == (x + y)[i]); }
    assert forall|i: int| 0 <= i < y.len() implies d[at + x.len() + i] == y[i] by { assert(z[x.len() + i] == (x + y)[x.len() + i]); }
    assert(cut(d, at, x.len() as int) =~= x);
    assert(cut(d, at + x.len(), y.len() as int) =~= y);
}
''')
ADDR = [
    Item(D, 'fn', 'simple_size', within=r'impl SimpleTagData for Address', vis='', wrap=('''impl SimpleTagData for Address {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(self.address, big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
''', '')),
    Item(D, 'fn', 'read', within=r'impl SimpleTagData for Address', vis='', start='''proof { assert forall|v: Self| at_pos(#[trigger] v.enc(B::big()), data@, at as int) implies at_pos(v.address.enc(B::big()), data@, at as int) by {} }'''),
    Item(D, 'fn', 'write', within=r'impl SimpleTagData for Address', vis='', wrap=('', '\n}\n')),
]
REFC = [
    Item(D, 'fn', 'with_params', within=r'impl<T: TagData \+ Sized> ReflexiveC<T>', vis='', wrap=('impl<T: TagData> ReflexiveC<T> {\n', '\n}\n'), spec='ensures r.count == count, r.address == address',
        rewrite=[(r'\bPhantomData \{ \}', 'PhantomData', 'the other spelling of the unit struct')]),
    Item(D, 'fn', 'read', within=r'SimpleTagData for ReflexiveC<T>', vis='', wrap=('''impl<T: TagData> SimpleTagData for ReflexiveC<T> {
    open spec fn ssz() -> nat { 12 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { self.count == o.count && self.address == o.address }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(self.count, big) + enc32(self.address.address, big) + zeros(4) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    #[verifier::external_body] fn simple_size() -> (r: usize) { unimplemented!() }
''', ''), start='''proof { assert forall|v: Self| #[trigger] at_pos(v.enc(B::big()), data@, at as int) implies at_pos(v.count.enc(B::big()), data@, at as int) && at_pos(v.address.enc(B::big()), data@, at + 4) by {
        pos_split(enc32(v.count, B::big()) + enc32(v.address.address, B::big()), zeros(4), data@, at as int);
        pos_split(enc32(v.count, B::big()), enc32(v.address.address, B::big()), data@, at as int); } }'''),
    Item(D, 'fn', 'write', within=r'SimpleTagData for ReflexiveC<T>', vis='', wrap=('', '\n}\n'),
        start='''let ghost d = data@;''',
        at=[(r'Ok\(\(\)\)', 'before', '''proof { let (a, b, c) = (enc32(self.count, B::big()), enc32(self.address.address, B::big()), zeros(4));
            put_put(d, at as int, a, b); put_put(d, at as int, a + b, c); }''')]),
]
REFSPEC = '''
pub open spec fn heads<T: TagData>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { heads(s.drop_last()) + s.last().head() } }
pub open spec fn tails<T: TagData>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { tails(s.drop_last()) + s.last().tail() } }
pub open spec fn all_ok<T: TagData>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
proof fn heads_len<T: TagData>(s: Seq<T>) requires all_ok(s) ensures heads(s).len() == s.len() * T::sz() decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).ok() by { assert(d[i] == s[i]); }
        heads_len(d); s.last().law(); assert(s.last() == s[s.len() - 1]); assert(s[s.len() - 1].ok()); assert(s.len() * T::sz() == (s.len() - 1) * T::sz() + T::sz()) by (nonlinear_arith); }
}
'''
REFSPEC += """
proof fn put_mid(a: Seq<u8>, z: nat, z1: nat, t: Seq<u8>, h: Seq<u8>) requires z == h.len() + z1 ensures put(a + zeros(z) + t, a.len() as int, h) == a + h + zeros(z1) + t { assert(put(a + zeros(z) + t, a.len() as int, h) =~= a + h + zeros(z1) + t); }
pub open spec fn cref<T: TagData>(n: u32) -> ReflexiveC<T> { ReflexiveC { count: n, address: Address { address: 0 }, padding: arbitrary(), phantom: PhantomData } }
proof fn cref_enc<T: TagData>(n: u32) ensures enc32(n, true) + enc32(0, true) + zeros(4) == enc32(n, true) + zeros(8), cref::<T>(n).enc(true) == enc32(n, true) + zeros(8) {
    assert((0u32 >> 8) & 0xFF == 0 && (0u32 >> 16) & 0xFF == 0 && (0u32 >> 24) & 0xFF == 0 && 0u32 & 0xFF == 0) by (bit_vector);
    assert(enc32(n, true) + enc32(0, true) + zeros(4) =~= enc32(n, true) + zeros(8));
}
proof fn ok_prefix<T: TagData>(s: Seq<T>, k: int) requires all_ok(s), 0 <= k <= s.len() ensures all_ok(s.take(k)) { assert forall|i: int| 0 <= i < k implies (#[trigger] s.take(k)[i]).ok() by { assert(s[i].ok()); } }
proof fn heads_at<T: TagData>(s: Seq<T>, k: int, d: Seq<u8>, at: int) requires all_ok(s), 0 <= k < s.len(), 0 <= at, at_pos(heads(s), d, at) ensures at_pos(s[k].head(), d, at + k * T::sz()) decreases s.len() {
    let p = s.drop_last(); assert(p =~= s.take(s.len() - 1)); ok_prefix(s, s.len() - 1); heads_len(p);
    pos_split(heads(p), s.last().head(), d, at);
    if k < s.len() - 1 { heads_at(p, k, d, at); assert(p[k] == s[k]); }
}
proof fn tails_at<T: TagData>(s: Seq<T>, k: int, d: Seq<u8>, at: int) requires 0 <= k < s.len(), 0 <= at, at_pos(tails(s), d, at) ensures at_pos(s[k].tail(), d, at + tails(s.take(k)).len()) decreases s.len() {
    let p = s.drop_last(); assert(p =~= s.take(s.len() - 1));
    pos_split(tails(p), s.last().tail(), d, at);
    if k < s.len() - 1 { tails_at(p, k, d, at); assert(p[k] == s[k]); assert(p.take(k) =~= s.take(k)); }
}
proof fn step<T: TagData>(s: Seq<T>, k: int) requires 0 <= k < s.len() ensures heads(s.take(k + 1)) == heads(s.take(k)) + s[k].head(), tails(s.take(k + 1)) == tails(s.take(k)) + s[k].tail() { assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
proof fn tails_mono<T: TagData>(s: Seq<T>, k: int) requires 0 <= k <= s.len() ensures tails(s.take(k)).len() <= tails(s).len() decreases s.len() - k { if k < s.len() { step(s, k); tails_mono(s, k + 1); } else { assert(s.take(k) =~= s); } }
"""
REF = [
    Item(D, 'fn', 'size', within=r'TagData for Reflexive<T>', vis='', wrap=('''impl<T: TagData> TagData for Reflexive<T> {
    open spec fn sz() -> nat { 12 }
    open spec fn ok(&self) -> bool { self.items@.len() <= u32::MAX && all_ok(self.items@) }
    open spec fn same(&self, o: &Self) -> bool { self.items@.len() == o.items@.len() && forall|i: int| 0 <= i < self.items@.len() ==> (#[trigger] self.items@[i]).same(&o.items@[i]) }
    open spec fn head(&self) -> Seq<u8> { enc32(self.items@.len() as u32, true) + zeros(8) }
    open spec fn tail(&self) -> Seq<u8> { heads(self.items@) + tails(self.items@) }
    proof fn sz_law() {}
    proof fn law(&self) {}
''', '')),
    Item(D, 'fn', 'read_from_tag_file', within=r'TagData for Reflexive<T>', vis='',
        rewrite=[(r'for _ in 0\.\.count', 'for k in 0..count', 'the loop counter is named')],
        start="""let ghost c0 = *extra_data_cursor as int; proof { assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies
                cref::<T>(v.items@.len() as u32).sok() && encoded(cref::<T>(v.items@.len() as u32).head(), cref::<T>(v.items@.len() as u32).tail(), data@, at as int, c0) by {
            cref_enc::<T>(v.items@.len() as u32); assert(cut(data@, c0, 0) =~= Seq::<u8>::empty()); } }""",
        loops=[dict(iter='it', spec="""invariant
            item_size == T::sz(), count <= u32::MAX, 0 <= c0, c0 == *old(extra_data_cursor), total_length == count * T::sz(), item_offset == c0 + k * T::sz(), c0 + total_length <= data@.len(),
            result.items@.len() == k, all_ok(result.items@),
            *extra_data_cursor >= c0 + total_length, *extra_data_cursor <= data@.len(),
            forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) ==> v.items@.len() == count && *extra_data_cursor == c0 + total_length + tails(v.items@.take(k as int)).len()
                && forall|i: int| 0 <= i < k ==> (#[trigger] v.items@[i]).same(&result.items@[i]),""",
            start="""proof {
                assert(k * item_size + item_size <= count * item_size) by (nonlinear_arith) requires k + 1 <= count;
                assert(k * item_size + item_size == (k + 1) * item_size) by (nonlinear_arith);
                assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies
                    v.items@[k as int].ok() && encoded(v.items@[k as int].head(), v.items@[k as int].tail(), data@, item_offset as int, *extra_data_cursor as int)
                    && tails(v.items@.take(k + 1)).len() == tails(v.items@.take(k as int)).len() + v.items@[k as int].tail().len() by {
                    heads_len(v.items@);
                    pos_split(heads(v.items@), tails(v.items@), data@, c0);
                    heads_at(v.items@, k as int, data@, c0);
                    tails_at(v.items@, k as int, data@, c0 + total_length);
                    step(v.items@, k as int);
                } }""",
            after="""proof { assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies v.same(&result) && *extra_data_cursor == c0 + v.tail().len() by {
                assert(v.items@.take(count as int) =~= v.items@); heads_len(v.items@); } }""")],
        at=[(r'let total_length', 'before', """proof { T::sz_law(); assert(0 <= count * item_size <= 0x1_0000_0000 * 0x10000) by (nonlinear_arith) requires 0 <= count <= u32::MAX, 0 <= item_size <= 0x10000;
                assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies v.items@.len() == count && c0 + count * item_size <= data@.len() by { heads_len(v.items@); } }"""),
            (r'let mut result', 'before', """proof { assert(0 * T::sz() == 0) by (nonlinear_arith); assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies v.items@.len() == count && tails(v.items@.take(0)).len() == 0 by { } }""")]),
    Item(D, 'fn', 'write_to_tag_file', within=r'TagData for Reflexive<T>', vis='', wrap=('', '\n}\n'),
        rewrite=[(r'for i in self \{', 'for i in self.items.iter() {', 'IntoIterator for &Reflexive is iteration over its items')],
        start="proof { T::sz_law(); } let ghost d0 = data@; let ghost s = self.items@; let ghost n = s.len();",
        at=[(r'let item_size', 'before', """let ghost d1 = data@; proof { cref_enc::<T>(n as u32); assert(data@ =~= put(d0, at as int, self.head())); if self.ok() { heads_len(s); } }"""),
            (r'let mut write_offset', 'before', """proof { }""")],
        loops=[dict(iter='it', spec="""invariant
            n == s.len(), s == self.items@, d0 == old(data)@, self.ok() ==> self.tail().len() == n * T::sz() + tails(s).len(), T::sz() <= 0x10000, it.seq() =~= s.map_values(|x: T| &x), item_size == T::sz(), n <= u32::MAX, d1 == put(d0, at as int, self.head()), d1.len() == d0.len(),
            write_offset == d0.len() + it.index@ * T::sz(), d0.len() + n * T::sz() <= usize::MAX,
            all_ok(s.take(it.index@ as int)),
            data@ == d1 + heads(s.take(it.index@ as int)) + zeros(((n - it.index@) * T::sz()) as nat) + tails(s.take(it.index@ as int)),""",
            start="""let ghost k = it.index@ as int; let ghost dk = data@; proof {
                assert(i == s[k]);
                assert(k * T::sz() + T::sz() <= n * T::sz()) by (nonlinear_arith) requires k + 1 <= n;
                assert(k * T::sz() + T::sz() == (k + 1) * T::sz() && n * T::sz() == k * T::sz() + (n - k) * T::sz() && (n - k) * T::sz() == T::sz() + (n - k - 1) * T::sz()) by (nonlinear_arith);
                heads_len(s.take(k)); step(s, k); tails_mono(s, k + 1); if self.ok() { heads_len(s); } assert(all_ok(s) ==> s[k].ok()); }""",
            end="""proof { let h = s[k].head(); s[k].law();
                let z = (n - k) * T::sz(); let z1 = (n - k - 1) * T::sz();
                assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] s.take(k + 1)[j]).ok() by { if j < k { assert(s.take(k)[j].ok()); } }
                put_mid(d1 + heads(s.take(k)), z as nat, z1 as nat, tails(s.take(k)), h);
                assert(data@ =~= d1 + heads(s.take(k + 1)) + zeros(z1 as nat) + tails(s.take(k + 1))); }""",
            after="""proof { assert(s.take(n as int) =~= s); assert((n - n) * T::sz() == 0) by (nonlinear_arith); assert(data@ =~= d1 + self.tail()); }""")]),
]

BO = [
    Item(AR, 'struct', 'Bounds', rewrite=[('T: TagData', 'T', 'bound not needed')]),
    Item(AR, 'fn', 'size', within=r'impl<T: TagData> TagData for Bounds<T>', vis='', start='proof { T::ssz_law(); }', wrap=("""impl<T: SimpleTagData> TagData for Bounds<T> {
    open spec fn sz() -> nat { T::ssz() * 2 }
    open spec fn ok(&self) -> bool { self.lower.ok() && self.upper.ok() }
    open spec fn same(&self, o: &Self) -> bool { self.lower.same(&o.lower) && self.upper.same(&o.upper) }
    open spec fn head(&self) -> Seq<u8> { self.lower.head() + self.upper.head() }
    open spec fn tail(&self) -> Seq<u8> { Seq::empty() }
    proof fn sz_law() { T::ssz_law(); }
    proof fn law(&self) { self.lower.slaw(); self.upper.slaw(); }
""", '')),
    Item(AR, 'fn', 'read_from_tag_file', within=r'impl<T: TagData> TagData for Bounds<T>', vis='', start="""let ghost c0 = *extra_data_cursor as int; proof { T::ssz_law(); assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies
            encoded(v.lower.head(), v.lower.tail(), data@, at as int, c0) && encoded(v.upper.head(), v.upper.tail(), data@, at + T::ssz(), c0) by {
        v.lower.slaw(); pos_split(v.lower.head(), v.upper.head(), data@, at as int); } }"""),
    Item(AR, 'fn', 'write_to_tag_file', within=r'impl<T: TagData> TagData for Bounds<T>', vis='', wrap=('', '\n}\n'), start="""let ghost d = data@; proof { T::ssz_law(); self.lower.slaw(); self.upper.slaw(); }""",
        at=[(r'Ok\(\(\)\)', 'before', 'proof { put_put(d, at as int, self.lower.head(), self.upper.head()); assert(data@ =~= put(d, at as int, self.head()) + self.tail()); }'),
            (r'self\.upper\.write', 'before', 'proof { assert(data@ =~= put(d, at as int, self.lower.head())); }')]),
]
# ---- byte containers
DATA_SPEC = """
pub trait DataData: Sized {
    spec fn content(&self) -> Seq<u8>;
    spec fn valid(b: Seq<u8>) -> bool;
    proof fn data_law(&self) ensures Self::valid(self.content());
    fn from_bytes(bytes: &[u8]) -> (r: RinghopperResult<Self>) ensures match r { Ok(x) => x.content() == bytes@, Err(_) => !Self::valid(bytes@) };
    fn get_bytes(&self) -> (r: &[u8]) ensures r@ == self.content();
}
impl Default for Padding<[u8; 4]> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
// what derive(Default) gives
impl Default for DataC { fn default() -> (r: Self) ensures r.size == 0, r.flags == 0, r.file_offset == 0, r.address.address == 0 { DataC { size: 0, flags: 0, file_offset: 0, padding: Padding { internal: [0u8; 4] }, address: Address { address: 0 } } } }
#[verifier::external_body] fn copied(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
proof fn zero_enc() ensures enc32(0, true) == zeros(4) { assert((0u32 >> 8) & 0xFF == 0 && (0u32 >> 16) & 0xFF == 0 && (0u32 >> 24) & 0xFF == 0 && 0u32 & 0xFF == 0) by (bit_vector); assert(enc32(0, true) =~= zeros(4)); }
pub open spec fn cdata(n: u32) -> DataC { DataC { size: n, flags: 0, file_offset: 0, padding: arbitrary(), address: Address { address: 0 } } }
proof fn cdata_enc(n: u32) ensures cdata(n).enc(true) == enc32(n, true) + zeros(16), enc32(n, true) + enc32(0, true) + enc32(0, true) + enc32(0, true) + zeros(4) == enc32(n, true) + zeros(16) {
    zero_enc(); assert(enc32(n, true) + zeros(4) + zeros(4) + zeros(4) + zeros(4) =~= enc32(n, true) + zeros(16)); }
"""
DATAC = [
    Item(D, 'struct', 'DataC'),
    Item(D, 'fn', 'read', within=r'SimpleTagData for DataC\b', vis='', wrap=("""impl SimpleTagData for DataC {
    open spec fn ssz() -> nat { 20 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { self.size == o.size && self.flags == o.flags && self.file_offset == o.file_offset && self.address == o.address }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(self.size, big) + enc32(self.flags, big) + enc32(self.file_offset, big) + enc32(self.address.address, big) + zeros(4) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    #[verifier::external_body] fn simple_size() -> (r: usize) { unimplemented!() }
""", ''), start="""proof { assert forall|v: Self| #[trigger] at_pos(v.enc(B::big()), data@, at as int) implies
            at_pos(v.size.enc(B::big()), data@, at as int) && at_pos(v.flags.enc(B::big()), data@, at + 4) && at_pos(v.file_offset.enc(B::big()), data@, at + 8) && at_pos(v.address.enc(B::big()), data@, at + 12) by {
        let b = B::big(); let (p, q, r, s) = (enc32(v.size, b), enc32(v.flags, b), enc32(v.file_offset, b), enc32(v.address.address, b));
        pos_split(p + q + r + s, zeros(4), data@, at as int); pos_split(p + q + r, s, data@, at as int); pos_split(p + q, r, data@, at as int); pos_split(p, q, data@, at as int); } }"""),
    Item(D, 'fn', 'write', within=r'SimpleTagData for DataC\b', vis='', wrap=('', '\n}\n'), start='let ghost d = data@;',
        at=[(r'Ok\(\(\)\)', 'before', """proof { let b = B::big(); let (p, q, r, s) = (enc32(self.size, b), enc32(self.flags, b), enc32(self.file_offset, b), enc32(self.address.address, b));
            put_put(d, at as int, p, q); put_put(d, at as int, p + q, r); put_put(d, at as int, p + q + r, s); put_put(d, at as int, p + q + r + s, zeros(4)); }""")]),
]
def container(t):
    return [
        Item(D, 'struct', t),
        Item(D, 'fn', 'from_bytes', within=rf'impl DataData for {t}\b', vis='', wrap=(f"impl DataData for {t} {{\n    open spec fn content(&self) -> Seq<u8> {{ self.bytes@ }}\n    open spec fn valid(b: Seq<u8>) -> bool {{ true }}\n    proof fn data_law(&self) {{}}\n", ''),
            rewrite=[(r'bytes\.to_owned\(\)', 'copied(bytes)', 'assumed contract of ToOwned for slices')]),
        Item(D, 'fn', 'get_bytes', within=rf'impl DataData for {t}\b', vis='', wrap=('', '\n}\n'), rewrite=[(r'self\.bytes\.as_ref\(\)', 'self.bytes.as_slice()', 'AsRef of a Vec is as_slice')]),
        *container_io(t)]
def container_io(t):
    M = r'impl TagData for \$ty'
    return [
        Item(D, 'fn', 'size', within=M, vis='', wrap=(f"""impl TagData for {t} {{
    open spec fn sz() -> nat {{ 20 }}
    open spec fn ok(&self) -> bool {{ self.content().len() <= u32::MAX }}
    open spec fn same(&self, o: &Self) -> bool {{ self.content() == o.content() }}
    open spec fn head(&self) -> Seq<u8> {{ enc32(self.content().len() as u32, true) + zeros(16) }}
    open spec fn tail(&self) -> Seq<u8> {{ self.content() }}
    proof fn sz_law() {{}}
    proof fn law(&self) {{}}
""", '')),
        Item(D, 'fn', 'read_from_tag_file', within=M, vis='', start="""let ghost c0 = *extra_data_cursor as int; proof { assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies
                cdata(v.content().len() as u32).sok() && encoded(cdata(v.content().len() as u32).head(), cdata(v.content().len() as u32).tail(), data@, at as int, c0) && Self::valid(v.content()) by {
            cdata_enc(v.content().len() as u32); v.data_law(); assert(cut(data@, c0, 0) =~= Seq::<u8>::empty()); } }"""),
        Item(D, 'fn', 'write_to_tag_file', within=M, vis='', wrap=('', '\n}\n'), start='let ghost d0 = data@; proof { cdata_enc(self.content().len() as u32); }'),
    ]

REFERENCE_SPEC = """
proof fn zero_enc() ensures enc32(0, true) == zeros(4) { assert((0u32 >> 8) & 0xFF == 0 && (0u32 >> 16) & 0xFF == 0 && (0u32 >> 24) & 0xFF == 0 && 0u32 & 0xFF == 0) by (bit_vector); assert(enc32(0, true) =~= zeros(4)); }
// group codes: their agreement is discharged by Kani for all 32-bit codes in check P07
pub uninterp spec fn code(g: TagGroup) -> u32;
pub uninterp spec fn group_of(c: u32) -> Option<TagGroup>;
pub broadcast axiom fn code_round_trip(g: TagGroup) ensures #[trigger] group_of(code(g)) == Some(g);
impl TagGroup {
    #[verifier::external_body] fn from_fourcc(c: u32) -> (r: Option<TagGroup>) ensures r == group_of(c) { unimplemented!() }
    #[verifier::external_body] fn as_fourcc(&self) -> (r: u32) ensures r == code(*self) { unimplemented!() }
}
type FourCC = u32;
// UTF-8 in the standard library
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn utf8_empty(s: Seq<char>) ensures (#[trigger] utf8(s)).len() == 0 <==> s.len() == 0;
#[verifier::external_body] fn bytes_of(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] fn byte_len(s: &String) -> (r: usize) ensures r == utf8(s@).len() { unimplemented!() }
#[verifier::external_body] fn text_of(b: &[u8]) -> (r: RinghopperResult<String>) ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => true }, forall|s: Seq<char>| #[trigger] utf8(s) == b@ ==> r is Ok && r->Ok_0@ == s { unimplemented!() }
// what derive(Default) gives
impl Default for TagReferenceC { fn default() -> (r: Self) ensures r.path_address.address == 0, r.path_length == 0, r.tag_id.id == 0xFFFFFFFF { TagReferenceC { tag_group: TagGroup::_Unset, path_address: Address { address: 0 }, path_length: 0, tag_id: ID { id: 0xFFFFFFFF } } } }
pub open spec fn cpath(g: TagGroup, n: u32) -> TagReferenceC { TagReferenceC { tag_group: g, path_address: Address { address: 0 }, path_length: n, tag_id: ID { id: 0xFFFFFFFF } } }
impl TagReference {
    pub open spec fn rgroup(&self) -> TagGroup { match self { TagReference::Null(g) => *g, TagReference::Set(p) => p.group } }
    pub open spec fn rpath(&self) -> Seq<char> { match self { TagReference::Null(g) => Seq::empty(), TagReference::Set(p) => p.path@ } }
    pub open spec fn rlen(&self) -> int { match self { TagReference::Null(g) => 0, TagReference::Set(p) => utf8(p.path@).len() as int } }
}
/// struct part: group code, no address, length, null identifier
pub open spec fn ref_head(g: TagGroup, n: u32) -> Seq<u8> { enc32(code(g), true) + zeros(4) + enc32(n, true) + enc32(0xFFFFFFFF, true) }
"""
IDS = [
    Item(D, 'struct', 'ID', attrs='#[derive(Copy, Clone)]\n', rewrite=[(r'\bid: u32', 'pub id: u32', 'field visibility')]),
    Item(D, 'fn', 'null', within=r'impl ID\b', vis='', spec='ensures r.id == 0xFFFFFFFF', wrap=('impl ID {\n', '')),
    Item(D, 'fn', 'from_u32', within=r'impl ID\b', vis='', spec='ensures r.id == id'),
    Item(D, 'fn', 'as_u32', within=r'impl ID\b', vis='', spec='ensures r == self.id', wrap=('', '\n}\n')),
    Item(D, 'fn', 'read', within=r'impl SimpleTagData for ID\b', vis='', wrap=("""impl SimpleTagData for ID {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(self.id, big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
""", ''), start='proof { assert forall|v: Self| at_pos(#[trigger] v.enc(B::big()), data@, at as int) implies at_pos(v.id.enc(B::big()), data@, at as int) by {} }'),
    Item(D, 'fn', 'write', within=r'impl SimpleTagData for ID\b', vis='', wrap=('', '\n}\n'), rewrite=[(r'\(\*self\)\.into\(\)', 'self.as_u32()', 'From<ID> for u32 is as_u32')]),
    Item(G, 'enum', 'TagGroup', attrs='#[derive(Copy, Clone)]\n'),
    Item(G, 'fn', 'write', within=r'impl SimpleTagData for TagGroup', vis='', wrap=("""impl SimpleTagData for TagGroup {
    open spec fn ssz() -> nat { 4 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { *self == *o }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(code(*self), big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    fn simple_size() -> (r: usize) { 4 }
""", '')),
    Item(G, 'fn', 'read', within=r'impl SimpleTagData for TagGroup', vis='', wrap=('', '\n}\n'), start='proof { broadcast use code_round_trip; assert forall|v: Self| at_pos(#[trigger] v.enc(B::big()), data@, at as int) implies at_pos(code(v).enc(B::big()), data@, at as int) && group_of(code(v)) == Some(v) by {} }',
        rewrite=[(r'(u32::read::<B>\(data, at, struct_end\)\?)\.try_into\(\)', r'let c = \1; match TagGroup::from_fourcc(c) { Some(g) => Ok(g), None => Err(Error::InvalidFourCC) }', 'TryFrom<FourCC> is from_fourcc with ok_or')]),
]
PATHS = [
    Item(PT, 'struct', 'TagPath', rewrite=[(r'pub\(crate\) ', 'pub ', 'field visibility')]),
    Item(PT, 'enum', 'TagReference'),
    Item(PT, 'struct', 'TagReferenceC'),
    Item(PT, 'fn', 'read', within=r'impl SimpleTagData for TagReferenceC', vis='', wrap=("""impl SimpleTagData for TagReferenceC {
    open spec fn ssz() -> nat { 16 }
    open spec fn sok(&self) -> bool { true }
    open spec fn ssame(&self, o: &Self) -> bool { self.tag_group == o.tag_group && self.path_address == o.path_address && self.path_length == o.path_length && o.tag_id.id == (if self.tag_id.id == 0 { 0xFFFFFFFFu32 } else { self.tag_id.id }) }
    open spec fn enc(&self, big: bool) -> Seq<u8> { enc32(code(self.tag_group), big) + enc32(self.path_address.address, big) + enc32(self.path_length, big) + enc32(self.tag_id.id, big) }
    proof fn ssz_law() {}
    proof fn slaw(&self) {}
    #[verifier::external_body] fn simple_size() -> (r: usize) { unimplemented!() }
""", ''), start="""proof { broadcast use code_round_trip; assert forall|v: Self| #[trigger] at_pos(v.enc(B::big()), data@, at as int) implies
            at_pos(code(v.tag_group).enc(B::big()), data@, at as int) && at_pos(v.path_address.enc(B::big()), data@, at + 4) && at_pos(v.path_length.enc(B::big()), data@, at + 8) && at_pos(v.tag_id.id.enc(B::big()), data@, at + 12) && group_of(code(v.tag_group)) == Some(v.tag_group) by {
        let b = B::big(); let (p, q, r, s) = (enc32(code(v.tag_group), b), enc32(v.path_address.address, b), enc32(v.path_length, b), enc32(v.tag_id.id, b));
        pos_split(p + q + r, s, data@, at as int); pos_split(p + q, r, data@, at as int); pos_split(p, q, data@, at as int); } }"""),
    Item(PT, 'fn', 'write', within=r'impl SimpleTagData for TagReferenceC', vis='', wrap=('', '\n}\n'), start='let ghost d = data@;',
        at=[(r'Ok\(\(\)\)', 'before', """proof { let b = B::big(); let (p, q, r, s) = (enc32(code(self.tag_group), b), enc32(self.path_address.address, b), enc32(self.path_length, b), enc32(self.tag_id.id, b));
            put_put(d, at as int, p, q); put_put(d, at as int, p + q, r); put_put(d, at as int, p + q + r, s); }""")]),
    Item(PT, 'fn', 'size', within=r'impl TagData for TagReference\b', vis='', wrap=("""impl TagData for TagReference {
    open spec fn sz() -> nat { 16 }
    open spec fn ok(&self) -> bool { match self { TagReference::Null(_) => true, TagReference::Set(p) => utf8(p.path@).len() <= u32::MAX } }
    open spec fn same(&self, o: &Self) -> bool { match (self, o) { (TagReference::Null(g), TagReference::Null(h)) => g == h, (TagReference::Set(p), TagReference::Set(q)) => p.path@ == q.path@ && p.group == q.group, (TagReference::Set(p), TagReference::Null(h)) => p.path@.len() == 0 && p.group == h, _ => false } }
    open spec fn head(&self) -> Seq<u8> { match self { TagReference::Null(g) => ref_head(*g, 0), TagReference::Set(p) => ref_head(p.group, utf8(p.path@).len() as u32) } }
    open spec fn tail(&self) -> Seq<u8> { match self { TagReference::Null(g) => Seq::empty(), TagReference::Set(p) => if p.path@.len() == 0 { Seq::empty() } else { utf8(p.path@).push(0) } } }
    proof fn sz_law() {}
    proof fn law(&self) {}
""", '')),
    Item(PT, 'fn', 'read_from_tag_file', within=r'impl TagData for TagReference\b', vis='',
        rewrite=[(r'std::str::from_utf8\(([^)]*)\)\.map_err\(\|_\| Error::InvalidTagPath\)\?\.to_owned\(\)', r'text_of(\1)?', 'assumed contract of str::from_utf8')],
        start="""let ghost c0 = *extra_data_cursor as int; proof { broadcast use utf8_empty, code_round_trip; zero_enc();
            assert forall|v: Self| v.ok() && #[trigger] encoded(v.head(), v.tail(), data@, at as int, c0) implies ({
                    let c = cpath(v.rgroup(), v.rlen() as u32);
                    &&& encoded(c.head(), c.tail(), data@, at as int, c0)
                    &&& v.rlen() > 0 ==> c0 + v.rlen() + 1 <= data@.len() && data@.subrange(c0, c0 + v.rlen()) == utf8(v.rpath()) && data@[c0 + v.rlen()] == 0 }) by {
                assert(cut(data@, c0, 0) =~= Seq::<u8>::empty());
                if v.rlen() > 0 { let t = v.tail(); assert(cut(data@, c0, t.len() as int) == t); assert(data@[c0 + v.rlen()] == t[v.rlen()]);
                    assert(data@.subrange(c0, c0 + v.rlen()) =~= t.subrange(0, v.rlen())); assert(t.subrange(0, v.rlen()) =~= utf8(v.rpath())); }
            } }"""),
    Item(PT, 'fn', 'write_to_tag_file', within=r'impl TagData for TagReference\b', vis='', wrap=('', '\n}\n'),
        rewrite=[(r'path\.path\.as_bytes\(\)', 'bytes_of(&path.path)', 'assumed contract of String::as_bytes'), (r'path\.path\.len\(\)', 'byte_len(&path.path)', 'assumed contract of String::len'), (r'path\.path\.is_empty\(\)', '(byte_len(&path.path) == 0)', 'assumed contract of String::is_empty')],
        start="""let ghost d0 = data@; proof { broadcast use utf8_empty; zero_enc(); assert(forall|d: Seq<u8>, t: Seq<u8>, h: Seq<u8>| at + h.len() <= d.len() ==> #[trigger] put(d + t, at as int, h) =~= put(d, at as int, h) + t); }"""),
]
UNITS = [
    dict(name='reflexive', about='Reflexive<T> for any element type T that keeps the contract of tag data, any number of elements: written as a count with zeroed address, then all elements, then what they append; reading what was written gives the same elements back and leaves the cursor after them; no overflow or out-of-bounds access for any input', trusted=True, spec=ERRORS + TRAIT + PRIMS + SUB + REFSPEC, items=STRUCTS[:4] + BASE + SIMPLE + ADDR + REFC + REF),
    dict(name='data', about='Data, FileData, BSPVertexData of any length: written as a length with the other fields zeroed, then the bytes; read back the same; no overflow or out-of-bounds access for any input', trusted=True, spec=ERRORS + TRAIT + PRIMS + SUB + DATA_SPEC, items=STRUCTS[:2] + DATAC[:1] + BASE + SIMPLE + ADDR + DATAC[1:] + container('Data') + container('FileData') + container('BSPVertexData')),
    dict(name='bounds', about='Bounds<T> for every fixed-size T: lower then upper, and back', trusted=True, spec=ERRORS + TRAIT + SUB, items=BASE + SIMPLE + BO),
    dict(name='reference', about='TagReference with a path of any length: path and terminator appended, group code, length and null identifier in the struct; read back the same (a reference to the empty path reads back as a null reference of its group); no overflow or out-of-bounds access for any input', trusted=True,
        spec=ERRORS + TRAIT + PRIMS + SUB + REFERENCE_SPEC, items=STRUCTS[:2] + BASE + SIMPLE + ADDR + IDS + PATHS),
]
