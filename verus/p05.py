from extract import Item
F = 'src/ringhopper-primitives/src/crc32.rs'
SPEC = '''
spec fn bit(c: u32) -> u32 { if c & 1 == 1 { (c >> 1) ^ 0xEDB88320u32 } else { c >> 1 } }
spec fn byte8(c: u32) -> u32 { bit(bit(bit(bit(bit(bit(bit(bit(c)))))))) }
/// the checksum register after shifting in every bit of s, one at a time, with the reflected polynomial
spec fn crc_seq(c: u32, s: Seq<u8>) -> u32 decreases s.len() { if s.len() == 0 { c } else { byte8(crc_seq(c, s.drop_last()) ^ (s.last() as u32)) } }
proof fn lin(a: u32, b: u32) ensures bit(a ^ b) == bit(a) ^ bit(b) {
  let x = a ^ b;
  assert(x == a ^ b ==> (if x & 1 == 1 { (x >> 1) ^ 0xEDB88320u32 } else { x >> 1 }) == (if a & 1 == 1 { (a >> 1) ^ 0xEDB88320u32 } else { a >> 1 }) ^ (if b & 1 == 1 { (b >> 1) ^ 0xEDB88320u32 } else { b >> 1 })) by (bit_vector);
}
proof fn lin8(a: u32, b: u32) ensures byte8(a ^ b) == byte8(a) ^ byte8(b) {
  let (a1, b1) = (bit(a), bit(b)); let (a2, b2) = (bit(a1), bit(b1)); let (a3, b3) = (bit(a2), bit(b2)); let (a4, b4) = (bit(a3), bit(b3));
  let (a5, b5) = (bit(a4), bit(b4)); let (a6, b6) = (bit(a5), bit(b5)); let (a7, b7) = (bit(a6), bit(b6));
  lin(a, b); lin(a1, b1); lin(a2, b2); lin(a3, b3); lin(a4, b4); lin(a5, b5); lin(a6, b6); lin(a7, b7);
}
proof fn high(c: u32) ensures byte8(c << 8) == c & 0xFFFFFF {
  let h = c << 8;
  assert(h == c << 8 ==> h & 1 == 0 && (h >> 1) & 1 == 0 && ((h >> 1) >> 1) & 1 == 0 && (((h >> 1) >> 1) >> 1) & 1 == 0 && ((((h >> 1) >> 1) >> 1) >> 1) & 1 == 0
    && (((((h >> 1) >> 1) >> 1) >> 1) >> 1) & 1 == 0 && ((((((h >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) & 1 == 0 && (((((((h >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) & 1 == 0
    && ((((((((h >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) >> 1) == c & 0xFFFFFF) by (bit_vector);
}
proof fn step(c: u32, b: u8) ensures byte8(c ^ (b as u32)) == byte8((c ^ (b as u32)) & 0xFF) ^ (c >> 8), (c ^ (b as u32)) & 0xFF < 256 {
   let x = c ^ (b as u32);
   assert(x == c ^ (b as u32) ==> x >> 8 == c >> 8 && x == (x & 0xFF) ^ ((c >> 8) << 8) && (c >> 8) & 0xFFFFFF == c >> 8 && x & 0xFF < 256) by (bit_vector);
   lin8(x & 0xFF, (c >> 8) << 8); high(c >> 8);
}
'''
TABLE = '''
spec fn all_ok(n: nat) -> bool decreases n { n == 0 || (CRC32_TABLE@[n - 1] == byte8((n - 1) as u32) && all_ok((n - 1) as nat)) }
proof fn all_lemma(n: nat, i: nat) requires all_ok(n), i < n ensures CRC32_TABLE@[i as int] == byte8(i as u32) decreases n { if i + 1 < n { all_lemma((n - 1) as nat, i) } }
/// every table entry is eight steps of the polynomial
proof fn table(i: u32) requires i < 256 ensures CRC32_TABLE@[i as int] == byte8(i) { assert(all_ok(256)) by (compute_only); all_lemma(256, i as nat); }
/// checksumming in pieces is checksumming the concatenation
proof fn incremental(c: u32, a: Seq<u8>, b: Seq<u8>) ensures crc_seq(c, a + b) == crc_seq(crc_seq(c, a), b) decreases b.len() {
  if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); incremental(c, a, b.drop_last()); }
}
/// two buffers of the same length that differ in one byte only never have the same checksum register
proof fn bit_injective(a: u32, b: u32) requires bit(a) == bit(b) ensures a == b {
  assert((if a & 1 == 1 { (a >> 1) ^ 0xEDB88320u32 } else { a >> 1 }) == (if b & 1 == 1 { (b >> 1) ^ 0xEDB88320u32 } else { b >> 1 }) ==> a == b) by (bit_vector);
}
proof fn byte_injective(a: u32, b: u32) requires byte8(a) == byte8(b) ensures a == b {
  let (a1, b1) = (bit(a), bit(b)); let (a2, b2) = (bit(a1), bit(b1)); let (a3, b3) = (bit(a2), bit(b2)); let (a4, b4) = (bit(a3), bit(b3));
  let (a5, b5) = (bit(a4), bit(b4)); let (a6, b6) = (bit(a5), bit(b5)); let (a7, b7) = (bit(a6), bit(b6));
  bit_injective(a7, b7); bit_injective(a6, b6); bit_injective(a5, b5); bit_injective(a4, b4); bit_injective(a3, b3); bit_injective(a2, b2); bit_injective(a1, b1); bit_injective(a, b);
}
proof fn tail_injective(c: u32, d: u32, s: Seq<u8>) requires c != d ensures crc_seq(c, s) != crc_seq(d, s) decreases s.len() {
  if s.len() > 0 {
    tail_injective(c, d, s.drop_last());
    let (x, y, z) = (crc_seq(c, s.drop_last()), crc_seq(d, s.drop_last()), s.last() as u32);
    assert(x != y ==> x ^ z != y ^ z) by (bit_vector);
    if byte8(x ^ z) == byte8(y ^ z) { byte_injective(x ^ z, y ^ z); }
  }
}
proof fn one_byte_damage_detected(c: u32, a: Seq<u8>, x: u8, y: u8, t: Seq<u8>) requires x != y ensures crc_seq(c, a.push(x) + t) != crc_seq(c, a.push(y) + t) {
  incremental(c, a.push(x), t); incremental(c, a.push(y), t);
  assert(a.push(x).drop_last() =~= a); assert(a.push(y).drop_last() =~= a);
  let k = crc_seq(c, a);
  assert(x != y ==> k ^ (x as u32) != k ^ (y as u32)) by (bit_vector);
  if byte8(k ^ (x as u32)) == byte8(k ^ (y as u32)) { byte_injective(k ^ (x as u32), k ^ (y as u32)); }
  tail_injective(byte8(k ^ (x as u32)), byte8(k ^ (y as u32)), t);
}
'''
UNITS = [dict(
    name='crc32', about='crc32(c, data) is the bit-by-bit reflected polynomial division of data starting from c, for data of any length; CRC32::new starts at FFFFFFFF; update composes over concatenation; one damaged byte always changes the result',
    spec=SPEC, lemmas=TABLE,
    items=[
        Item(F, 'const', 'CRC32_TABLE'),
        Item(F, 'fn', 'crc32', spec='ensures r == crc_seq(crc, data@)', start='let ghost crc0 = crc;', loops=[dict(iter='it',
            spec='invariant crc == crc_seq(crc0, data@.take(it.index@ as int)),',
            start='proof { step(crc, *byte); table((crc ^ (*byte as u32)) & 0xFF); assert(data@.take(it.index@ + 1).drop_last() =~= data@.take(it.index@ as int)); }',
            after='proof { assert(data@.take(data@.len() as int) =~= data@); }')]),
        Item(F, 'struct', 'CRC32'),
        Item(F, 'fn', 'new', within=r'impl CRC32\b', vis='', spec='ensures r.crc == 0xFFFFFFFFu32', wrap=('impl CRC32 {\n', '\n')),
        Item(F, 'fn', 'init', within=r'impl CRC32\b', vis='', spec='ensures r.crc == crc'),
        Item(F, 'fn', 'crc', within=r'impl CRC32\b', vis='', spec='ensures r == self.crc'),
        Item(F, 'fn', 'update', within=r'impl CRC32\b', vis='', spec='ensures final(self).crc == crc_seq(old(self).crc, data@)', wrap=('', '\n}\n')),
    ])]
