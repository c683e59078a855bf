from extract import Item
D = 'src/ringhopper-primitives/src/primitive/data.rs'
UNITS = [dict(
    name='padding', about='calculate_padding_for_alignment(size, alignment) is less than alignment and makes size a multiple of it, for every size and non-zero alignment',
    items=[Item(D, 'fn', 'calculate_padding_for_alignment', vis='', spec='requires alignment != 0\nensures r < alignment, (size + r) % (alignment as int) == 0',
        rewrite=[(r'debug_assert!\(([^;]*)\);', r'assert(\1);', 'debug assertion becomes an obligation')],
        start='''proof {
            let (s, a) = (size as int, alignment as int);
            let m = s % a;
            assert(0 <= m < a) by (nonlinear_arith) requires a > 0, m == s % a;
            lemma_fundamental_div_mod(s, a);
            if m == 0 {
                assert((a - m) % a == 0) by (nonlinear_arith) requires a > 0, m == 0;
            } else {
                lemma_small_mod((a - m) as nat, a as nat);
                let q = s / a + 1;
                assert(s + (a - m) == a * q) by (nonlinear_arith) requires s == a * (s / a) + m, q == s / a + 1;
                lemma_mod_multiples_basic(q, a);
                assert(a * q == q * a) by (nonlinear_arith);
            }
        }''')]),
    dict(
    name='id', about='ID::new/index/salt/from_u32/is_null/is_valid: index (up to 65534) and 15-bit salt come back from every identifier made, made identifiers are valid and never null, for all inputs',
    spec='type Index = Option<u16>;',
    items=[
        Item(D, 'struct', 'ID', attrs='#[derive(Copy, Clone)]\n'),
        Item(D, 'fn', 'new', within=r'impl ID\b', vis='', wrap=('impl ID {\n', '\n'), rewrite=[(r'debug_assert!\(([^;]*)\);', r'assert(\1);', 'debug assertion becomes an obligation'), (r'assert\(!rv\.is_null\(\)\)', 'assert(rv.id != 0xFFFFFFFFu32)', 'is_null stated by its contract')],
             spec='requires index != Some(0xFFFFu16)\nensures index is None ==> r.id == 0xFFFFFFFF, index is Some ==> r.id == index->0 as u32 | ((((salt ^ index->0) as u32) | 0x8000) << 16) && r.id != 0xFFFFFFFF && r.id & 0x80000000 != 0',
             at=[(r'let rv = Self \{ id \};', 'before', 'proof { let i = index; assert(i != 0xFFFFu16 ==> ((((salt ^ i) as u32 | 0x8000) << 16) | (i as u32)) == ((i as u32) | ((((salt ^ i) as u32) | 0x8000) << 16)) && ((((salt ^ i) as u32 | 0x8000) << 16) | (i as u32)) != 0xFFFFFFFFu32 && (((((salt ^ i) as u32 | 0x8000) << 16) | (i as u32)) & 0x80000000u32) != 0) by (bit_vector); }')]),
        Item(D, 'fn', 'null', within=r'impl ID\b', vis='', spec='ensures r.id == 0xFFFFFFFF'),
        Item(D, 'fn', 'is_null', within=r'impl ID\b', vis='', spec='ensures r == (self.id == 0xFFFFFFFF)'),
        Item(D, 'fn', 'is_valid', within=r'impl ID\b', vis='', spec='ensures r == (self.id & 0x80000000 != 0)'),
        Item(D, 'fn', 'index', within=r'impl ID\b', vis='', spec='ensures r == (if self.id == 0xFFFFFFFF { None } else { Some((self.id & 0xFFFF) as u16) })'),
        Item(D, 'fn', 'salt', within=r'impl ID\b', vis='', 
             spec='ensures r is None <==> self.id == 0xFFFFFFFF, r is Some ==> r->0 as u32 == ((self.id >> 16) ^ (self.id & 0xFFFF)) & 0x7FFF',
             at=[(r'Some\(salt & !0x8000\)', 'before', 'proof { let v = self.id; let i = (v & 0xFFFF) as u16; assert(i == (v & 0xFFFF) as u16 ==> ((((v ^ ((i as u32) << 16)) >> 16) as u16 & !0x8000u16) as u32) == ((v >> 16) ^ (v & 0xFFFF)) & 0x7FFF) by (bit_vector); }')],
             wrap=('', '\n}\n')),
    ],
    lemmas='''
/// what was put in comes out
fn round_trip(i: u16, s: u16) requires i != 0xFFFF {
    let id = ID::new(Some(i), s);
    proof { let v = id.id; assert(v == (i as u32 | ((((s ^ i) as u32) | 0x8000) << 16)) ==> (v & 0xFFFF) as u16 == i && (((v >> 16) ^ (v & 0xFFFF)) & 0x7FFF) == (s & 0x7FFF) as u32) by (bit_vector); }
    assert((i as u32 | ((((s ^ i) as u32) | 0x8000) << 16)) == id.id);
    let x = id.index();
    let y = id.salt();
    assert(x == Some(i) && y is Some && y->0 as u32 == (s & 0x7FFF) as u32);
}
''')]
