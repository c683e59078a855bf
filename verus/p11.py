from extract import Item
S = 'src/ringhopper/src/tag/bitmap/swizzle.rs'
MSG = (r'"[^"]*"\.(?:to_string|to_owned)\(\)|format!\((?:[^()"]|"[^"]*"|\((?:[^()"]|"[^"]*")*\))*\)', 'message()', 'message text is not under contract')
BASE = r'''
global size_of usize == 8;
pub trait Swizzlable: Sized + Copy {}
pub struct Message;
#[verifier::external_body] fn message() -> Message { unimplemented!() }
pub enum Error { InvalidTagData(Message), Other }
type RinghopperResult<T> = Result<T, Error>;
'''
LAYOUT = r'''
/// 2, 4, 8, ...
pub open spec fn two(w: int) -> bool decreases w { w == 2 || (w > 2 && w % 2 == 0 && two(w / 2)) }
/// column and row of the k-th pixel of a swizzled w by w block: quadrants in the order top left, top right, bottom left, bottom right, each of them swizzled
pub open spec fn px(k: int, w: int) -> int decreases w { if w <= 2 { k % 2 } else { let h = w / 2; ((k / (h * h)) % 2) * h + px(k % (h * h), h) } }
pub open spec fn py(k: int, w: int) -> int decreases w { if w <= 2 { (k / 2) % 2 } else { let h = w / 2; ((k / (h * h)) / 2 % 2) * h + py(k % (h * h), h) } }
/// its place in an image with rows of s pixels
pub open spec fn at(k: int, w: int, s: int) -> int { py(k, w) * s + px(k, w) }
/// where the pixel in this column and row is
pub open spec fn place(x: int, y: int, w: int) -> int decreases w { if w <= 2 { y * 2 + x } else { let h = w / 2; (y / h * 2 + x / h) * (h * h) + place(x % h, y % h, h) } }
/// place in the image of the k-th swizzled pixel: square tiles of the shorter side, one after another along the longer side
pub open spec fn order(k: int, w: int, h: int) -> int {
    if h <= 1 || w <= 2 { k } else if w < h { (k / (w * w)) * (w * w) + at(k % (w * w), w, w) } else { (k / (h * h)) * h + at(k % (h * h), h, w) }
}
pub open spec fn pixel(x: int, y: int, w: int, h: int) -> int {
    if h <= 1 || w <= 2 { y * w + x } else if w < h { (y / w) * (w * w) + place(x, y % w, w) } else { (x / h) * (h * h) + place(x % h, y, h) }
}
proof fn pos(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }
proof fn mono(a: int, b: int, c: int) requires a <= b, c >= 0 ensures a * c <= b * c { assert(a * c <= b * c) by(nonlinear_arith) requires a <= b, c >= 0; }
proof fn split(q: int, j: int, n: int) requires 0 <= j < n ensures (q * n + j) / n == q, (q * n + j) % n == j { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * n + j, n, q, j); }
proof fn join(k: int, n: int) requires n > 0, k >= 0 ensures k == (k / n) * n + k % n, 0 <= k % n < n, 0 <= k / n {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, n);
    assert(n * (k / n) == (k / n) * n) by(nonlinear_arith); }
proof fn below(k: int, n: int, c: int) requires n > 0, 0 <= k < c * n ensures 0 <= k / n < c { join(k, n); let q = k / n; if q >= c { mono(c, q, n); } }
proof fn half(w: int) requires two(w), w > 2 ensures two(w / 2), w == 2 * (w / 2), w / 2 >= 2, w * w == 4 * (w / 2 * (w / 2)), w / 2 * (w / 2) >= 4 { let h = w / 2; small(h); assert(2 * h * (2 * h) == 4 * (h * h)) by(nonlinear_arith); assert(h * h >= 4) by(nonlinear_arith) requires h >= 2; }
proof fn small(w: int) requires two(w) ensures w >= 2 decreases w {}
proof fn quad(q: int, j: int, w: int, s: int) requires two(w), w > 2, 0 <= q < 4, 0 <= j < (w / 2) * (w / 2)
    ensures px(q * (w / 2 * (w / 2)) + j, w) == (q % 2) * (w / 2) + px(j, w / 2), py(q * (w / 2 * (w / 2)) + j, w) == (q / 2) * (w / 2) + py(j, w / 2),
        at(q * (w / 2 * (w / 2)) + j, w, s) == at(j, w / 2, s) + (q % 2) * (w / 2) + (q / 2) * (s * (w / 2))
{
    let h = w / 2; half(w); split(q, j, h * h); let k = q * (h * h) + j;
    assert(q / 2 % 2 == q / 2);
    let (a, b) = (q / 2, py(j, h)); assert((a * h + b) * s == b * s + a * (s * h)) by(nonlinear_arith);
}
proof fn inside(k: int, w: int) requires two(w), 0 <= k < w * w ensures 0 <= px(k, w) < w, 0 <= py(k, w) < w decreases w {
    if w > 2 { half(w); let h = w / 2; below(k, h * h, 4); join(k, h * h); inside(k % (h * h), h); quad(k / (h * h), k % (h * h), w, w);
        let q = k / (h * h); assert((q % 2) * h <= h && (q / 2) * h <= h && (q % 2) * h >= 0 && (q / 2) * h >= 0) by(nonlinear_arith) requires 0 <= q < 4, h >= 2; }
}
proof fn placed(k: int, w: int) requires two(w), 0 <= k < w * w ensures place(px(k, w), py(k, w), w) == k decreases w {
    if w > 2 { half(w); let h = w / 2; below(k, h * h, 4); join(k, h * h); let (q, j) = (k / (h * h), k % (h * h)); inside(j, h); quad(q, j, w, w); placed(j, h);
        split(q % 2, px(j, h), h); split(q / 2, py(j, h), h); assert(q == q / 2 * 2 + q % 2); }
    else { assert(w * w == 4) by(nonlinear_arith) requires w == 2; assert(k == k / 2 * 2 + k % 2 && k / 2 % 2 == k / 2); }
}
proof fn found(x: int, y: int, w: int) requires two(w), 0 <= x < w, 0 <= y < w ensures 0 <= place(x, y, w) < w * w, px(place(x, y, w), w) == x, py(place(x, y, w), w) == y decreases w {
    if w > 2 { half(w); let h = w / 2; join(x, h); join(y, h); below(x, h, 2); below(y, h, 2); let (a, b) = (x % h, y % h); found(a, b, h); let q = y / h * 2 + x / h; let j = place(a, b, h); quad(q, j, w, w);
        assert(0 <= q < 4); assert(q % 2 == x / h && q / 2 == y / h);
        assert(q * (h * h) + j < 4 * (h * h) && q * (h * h) + j >= 0) by(nonlinear_arith) requires 0 <= q <= 3, 0 <= j < h * h; }
    else { assert(w * w == 4) by(nonlinear_arith) requires w == 2; }
}
proof fn room(k: int, w: int, s: int) requires two(w), 0 <= k < w * w, s >= w ensures 0 <= at(k, w, s) < (w - 1) * s + w { inside(k, w); mono(py(k, w), w - 1, s); pos(py(k, w), s); }
proof fn apart(k: int, l: int, w: int, s: int) requires two(w), 0 <= k < w * w, 0 <= l < w * w, s >= w, at(k, w, s) == at(l, w, s) ensures k == l {
    inside(k, w); inside(l, w); split(py(k, w), px(k, w), s); split(py(l, w), px(l, w), s); placed(k, w); placed(l, w); }
proof fn four(s: int) ensures at(0, 2, s) == 0, at(1, 2, s) == 1, at(2, 2, s) == s, at(3, 2, s) == s + 1 {
    assert(px(0, 2) == 0 && py(0, 2) == 0 && px(1, 2) == 1 && py(1, 2) == 0 && px(2, 2) == 0 && py(2, 2) == 1 && px(3, 2) == 1 && py(3, 2) == 1); assert(0 * s == 0 && 1 * s == s); }
proof fn halves(w: int, s: int) requires two(w), w > 2, s >= w ensures ({ let h = w / 2; &&& (w - 1) * s + w == s * h + h + ((h - 1) * s + h) &&& s * h >= 0 &&& (h - 1) * s >= 0 }) {
    half(w); let h = w / 2; assert((2 * h - 1) * s == s * h + (h - 1) * s) by(nonlinear_arith); pos(s, h); pos(h - 1, s); }
'''
STEPS = r'''
/// b is a with the first n pixels of the swizzled block taken from the image v, and put at c onwards
pub open spec fn gathered<S>(v: Seq<S>, a: Seq<S>, b: Seq<S>, w: int, s: int, c: int, n: int) -> bool {
    &&& b.len() == a.len() && (forall|k: int| 0 <= k < n ==> b[c + k] == v[#[trigger] at(k, w, s)])
    &&& (forall|p: int| 0 <= p < a.len() && !(c <= p < c + n) ==> #[trigger] b[p] == a[p])
}
/// b is a with the first n pixels of the swizzled block, which starts at c in v, put at their places
pub open spec fn scattered<S>(v: Seq<S>, a: Seq<S>, b: Seq<S>, w: int, s: int, c: int, n: int) -> bool {
    &&& b.len() == a.len() && (forall|k: int| 0 <= k < n ==> b[#[trigger] at(k, w, s)] == v[c + k])
    &&& (forall|p: int| 0 <= p < a.len() && (forall|k: int| 0 <= k < n ==> #[trigger] at(k, w, s) != p) ==> #[trigger] b[p] == a[p])
}
proof fn gather<S>(v: Seq<S>, a: Seq<S>, b: Seq<S>, d: Seq<S>, w: int, s: int, c: int, q: int, off: int)
    requires two(w), w > 2, s >= w, 0 <= q < 4, c >= 0, ({ let h = w / 2; let n = h * h; &&& off == (q % 2) * h + (q / 2) * (s * h) &&& c + (q + 1) * n <= a.len() &&& off + (h - 1) * s + h <= v.len() &&& gathered(v, a, b, w, s, c, q * n) &&& gathered(v.skip(off), b, d, h, s, c + q * n, n) })
    ensures gathered(v, a, d, w, s, c, (q + 1) * (w / 2 * (w / 2)))
{
    let h = w / 2; let n = h * h; half(w); assert((q + 1) * n == q * n + n && q * n >= 0) by(nonlinear_arith) requires q >= 0, n >= 4;
    pos(q % 2, h); pos(s, h); pos(q / 2, s * h);
    assert forall|k: int| 0 <= k < (q + 1) * n implies d[c + k] == v[#[trigger] at(k, w, s)] by {
        if k >= q * n { let j = k - q * n; quad(q, j, w, s); room(j, h, s); assert(at(j, h, s) + off == at(k, w, s)); assert(d[c + q * n + j] == v.skip(off)[at(j, h, s)]); }
        else { assert(d[c + k] == b[c + k]); }
    }
}
proof fn scatter<S>(v: Seq<S>, a: Seq<S>, b: Seq<S>, d: Seq<S>, w: int, s: int, c: int, q: int, off: int)
    requires two(w), w > 2, s >= w, 0 <= q < 4, c >= 0, ({ let h = w / 2; let n = h * h; &&& off == (q % 2) * h + (q / 2) * (s * h) &&& c + (q + 1) * n <= v.len() &&& off + (h - 1) * s + h <= a.len() &&& d.len() == b.len() &&& scattered(v, a, b, w, s, c, q * n) &&& b.take(off) == d.take(off) &&& scattered(v, b.skip(off), d.skip(off), h, s, c + q * n, n) })
    ensures scattered(v, a, d, w, s, c, (q + 1) * (w / 2 * (w / 2)))
{
    let h = w / 2; let n = h * h; half(w); assert((q + 1) * n == q * n + n && q * n >= 0 && q * n + n <= 4 * n) by(nonlinear_arith) requires 0 <= q < 4, n >= 4;
    pos(q % 2, h); pos(s, h); pos(q / 2, s * h); pos(h - 1, s);
    assert forall|p: int| 0 <= p < b.len() && (forall|j: int| 0 <= j < n ==> #[trigger] at(j, h, s) + off != p) implies #[trigger] d[p] == b[p] by {
        if p < off { let (x, y) = (b.take(off), d.take(off)); assert(x == y); assert(x[p] == b[p]); assert(y[p] == d[p]); assert(d[p] == b[p]); } else { let (x, y, p0) = (b.skip(off), d.skip(off), p - off); assert forall|j: int| 0 <= j < n implies #[trigger] at(j, h, s) != p0 by { assert(at(j, h, s) + off != p); } assert(0 <= p0 < x.len()); assert(y[p0] == x[p0]); assert(y[p0] == d[p]); assert(x[p0] == b[p]); assert(d[p] == b[p]); }
    }
    assert forall|k: int| 0 <= k < (q + 1) * n implies d[#[trigger] at(k, w, s)] == v[c + k] by {
        if k >= q * n { let j = k - q * n; quad(q, j, w, s); room(j, h, s); assert(at(j, h, s) + off == at(k, w, s)); assert(d.skip(off)[at(j, h, s)] == v[c + q * n + j]); }
        else { let p = at(k, w, s); room(k, w, s); extent(w, s, q, off, a.len() as int, k);
            assert forall|j: int| 0 <= j < n implies #[trigger] at(j, h, s) + off != p by { quad(q, j, w, s); if at(j, h, s) + off == p { apart(k, q * n + j, w, s); } } }
    }
    assert forall|p: int| 0 <= p < a.len() && (forall|k: int| 0 <= k < (q + 1) * n ==> #[trigger] at(k, w, s) != p) implies #[trigger] d[p] == a[p] by {
        assert forall|j: int| 0 <= j < n implies #[trigger] at(j, h, s) + off != p by { quad(q, j, w, s); assert(at(q * n + j, w, s) != p); }
        assert(d[p] == b[p]); assert(forall|k: int| 0 <= k < q * n ==> #[trigger] at(k, w, s) != p);
    }
}
/// pixels of earlier quadrants lie before the end of a later one
proof fn extent(w: int, s: int, q: int, off: int, len: int, k: int)
    requires two(w), w > 2, s >= w, 0 <= q < 4, ({ let h = w / 2; &&& off == (q % 2) * h + (q / 2) * (s * h) &&& off + (h - 1) * s + h <= len &&& 0 <= k < q * (h * h) })
    ensures 0 <= at(k, w, s) < len
{
    let h = w / 2; half(w); let n = h * h; pos(q, n); assert(q * n <= 4 * n) by(nonlinear_arith) requires q <= 4, n >= 0;
    below(k, n, q); join(k, n); let (r, j) = (k / n, k % n); quad(r, j, w, s); inside(j, h); room(j, h, s);
    assert(q == 1 || q == 2 || q == 3); assert(r == 0 || r == 1 || r == 2);
    let (x, y) = (px(j, h), py(j, h)); mono(y, h - 1, s); pos(y, s); pos(s, h); pos(h - 1, s);
    assert(at(j, h, s) == y * s + x);
    assert(1 * (s * h) == s * h && 0 * (s * h) == 0 && 1 * h == h && 0 * h == 0);
    assert(s * h >= s) by(nonlinear_arith) requires s >= 0, h >= 1;
}
'''
BLOCK = r'''
requires two(width as int), width <= stride, counter + width * width <= usize::MAX, (width - 1) * stride + width <= usize::MAX,
    deswizzle ==> counter + width * width <= values_in@.len() && (width - 1) * stride + width <= values_out@.len(),
    !deswizzle ==> counter + width * width <= values_out@.len() && (width - 1) * stride + width <= values_in@.len(),
ensures r == counter + width * width, final(values_out)@.len() == old(values_out)@.len(),
    !deswizzle ==> gathered(values_in@, old(values_out)@, final(values_out)@, width as int, stride as int, counter as int, width * width),
    deswizzle ==> scattered(values_in@, old(values_out)@, final(values_out)@, width as int, stride as int, counter as int, width * width),
'''
def quadrant(q, side, slc):
    out = side == 'out'
    call = rf'counter = swizzle_block\(values_in, &mut values_out\[{slc}\.\.\],\s*new_width, stride, counter, deswizzle\);' if out else rf'counter = swizzle_block\(&values_in\[{slc}\.\.\],\s*values_out, new_width, stride, counter, deswizzle\);'
    off = ['0', 'h', 's * h', 's * h + h'][q]
    f = 'scatter' if out else 'gather'
    return [(call, 'before', f'let ghost b{q} = values_out@;'),
            (call, 'after', f'proof {{ let off = {off}; let d = values_out@; ' + ('assert(b%d.take(off) =~= d.take(off)); assert(vin.skip(0) =~= vin);' % q if out else f'assert(vin.skip(0) =~= vin);') + f' {f}(vin, vout, b{q}, d, w, s, c0, {q}, off); assert(({q} + 1) * n == {q} * n + n) by(nonlinear_arith); }}')]
IMAGE = r'''
pub open spec fn pow2(w: int) -> bool { w == 1 || two(w) }
proof fn divides(w: int, h: int) requires two(w), two(h), h <= w ensures w % h == 0, w == (w / h) * h, w / h >= 1 decreases w {
    small(h); small(w);
    if w == h { vstd::arithmetic::div_mod::lemma_div_by_self(w); assert(w == 1 * w + 0); split(1, 0, w); }
    else { half(w); if h > w / 2 { nogap(w, h); } divides(w / 2, h); let q = w / 2 / h; assert(w == (2 * q) * h) by(nonlinear_arith) requires w == 2 * (w / 2), w / 2 == q * h; split(2 * q, 0, h); }
}
proof fn nogap(w: int, h: int) requires two(w), two(h), w / 2 < h < w, w > 2 ensures false decreases w { half(w); small(h); if h > 2 { half(h); if w / 2 > 2 { half(w / 2); nogap(w / 2, h / 2); } } }
/// the standard library's step_by, over which a loop counts
fn steps(n: usize, d: usize) -> (r: usize) requires d > 0 ensures n % d == 0 ==> r == n / d, n % d != 0 ==> r == n / d + 1 { if n % d == 0 { n / d } else { proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, d as int); assert(n / d < n || d == 1) by(nonlinear_arith) requires n > 0 ==> n / d * d <= n, d > 0, n / d >= 0, n == 0 ==> n / d == 0, n > 0; } n / d + 1 } }
#[verifier::external_body] fn power(n: usize) -> (r: bool) ensures r == pow2(n as int) { unimplemented!() }
proof fn powers(w: int, h: int) requires pow2(w), pow2(h) ensures w >= 1, h >= 1, w * h >= 1 { if w != 1 { small(w); } if h != 1 { small(h); } assert(w * h >= 1) by(nonlinear_arith) requires w >= 1, h >= 1; }
proof fn ahead(n: int, d: int, i: int) requires two(n), two(d), d <= n, 0 <= i < n / d ensures 0 <= i * d, i * d + d <= n { divides(n, d); small(d); pos(i, d); mono(i + 1, n / d, d); assert((i + 1) * d == i * d + d) by(nonlinear_arith); }
proof fn tall(w: int, h: int, i: int) requires two(w), two(h), w < h, 0 <= i < h / w ensures i * w * w == i * (w * w), i * (w * w) >= 0, i * (w * w) + w * w <= w * h, (i + 1) * (w * w) == i * (w * w) + w * w, w * w >= 4, w * h == h / w * (w * w) {
    divides(h, w); small(w); let e = h / w; assert(w * h == e * (w * w)) by(nonlinear_arith) requires h == e * w; assert(w * w >= 4) by(nonlinear_arith) requires w >= 2; pos(i, w * w); mono(i + 1, e, w * w); assert((i + 1) * (w * w) == i * (w * w) + w * w) by(nonlinear_arith); assert(i * w * w == i * (w * w)) by(nonlinear_arith); }
/// one square tile
proof fn tile(i: int, j: int, w: int, h: int) requires pow2(w), pow2(h), i >= 0
    ensures h > 1 && w > 2 && w < h && 0 <= j < w * w ==> order(i * (w * w) + j, w, h) == i * (w * w) + order(j, w, w) && order(j, w, w) == at(j, w, w),
        h > 1 && w > 2 && w >= h && 0 <= j < h * h ==> order(i * (h * h) + j, w, h) == i * h + at(j, h, w)
{ if h > 1 && w > 2 && w < h && 0 <= j < w * w { split(i, j, w * w); split(0, j, w * w); assert(0 * (w * w) == 0 && 0 * w == 0); }
  if h > 1 && w > 2 && w >= h && 0 <= j < h * h { split(i, j, h * h); } }
/// places of the image are in it
proof fn bounded(k: int, w: int, h: int) requires pow2(w), pow2(h), 0 <= k < w * h ensures 0 <= order(k, w, h) < w * h {
    if h <= 1 || w <= 2 {}
    else if w < h { divides(h, w); let n = w * w; let c = h / w; assert(w * h == c * n) by(nonlinear_arith) requires h == c * w, n == w * w; assert(n > 0) by(nonlinear_arith) requires w > 2, n == w * w; below(k, n, c); join(k, n); room(k % n, w, w);
        let q = k / n; pos(q, n); mono(q + 1, c, n); assert((q + 1) * n == q * n + n) by(nonlinear_arith); assert((w - 1) * w + w == n) by(nonlinear_arith) requires n == w * w; }
    else { divides(w, h); let n = h * h; let c = w / h; assert(w * h == c * n) by(nonlinear_arith) requires w == c * h, n == h * h; assert(n > 0) by(nonlinear_arith) requires h > 1, n == h * h; below(k, n, c); join(k, n); inside(k % n, h);
        let q = k / n; pos(q, h); mono(q + 1, c, h); assert((q + 1) * h == q * h + h) by(nonlinear_arith); let (x, y) = (px(k % n, h), py(k % n, h)); mono(y, h - 1, w); pos(y, w); assert((h - 1) * w + w == w * h) by(nonlinear_arith); }
}
/// and the same pixel is never two
proof fn back(k: int, w: int, h: int) requires pow2(w), pow2(h), 0 <= k < w * h ensures pixel(order(k, w, h) % w, order(k, w, h) / w, w, h) == k {
    if h <= 1 || w <= 2 { join(k, w); }
    else if w < h { divides(h, w); let n = w * w; let c = h / w; assert(n > 0) by(nonlinear_arith) requires w > 2, n == w * w; join(k, n); let (q, j) = (k / n, k % n); inside(j, w); let (x, y) = (px(j, w), py(j, w));
        assert(q * n + (y * w + x) == (q * w + y) * w + x) by(nonlinear_arith) requires n == w * w; split(q * w + y, x, w); split(q, y, w); placed(j, w); }
    else { divides(w, h); let n = h * h; let c = w / h; assert(w * h == c * n) by(nonlinear_arith) requires w == c * h, n == h * h; assert(n > 0) by(nonlinear_arith) requires h > 1, n == h * h; below(k, n, c); join(k, n); let (q, j) = (k / n, k % n); inside(j, h); let (x, y) = (px(j, h), py(j, h));
        pos(q, h); mono(q + 1, c, h); assert((q + 1) * h == q * h + h) by(nonlinear_arith); split(y, q * h + x, w); split(q, x, h); placed(j, h); }
}
/// every pixel of the image has one
proof fn onto(x: int, y: int, w: int, h: int) requires pow2(w), pow2(h), 0 <= x < w, 0 <= y < h ensures 0 <= pixel(x, y, w, h) < w * h, order(pixel(x, y, w, h), w, h) == y * w + x {
    if h <= 1 || w <= 2 { pos(y, w); mono(y, h - 1, w); assert((h - 1) * w + w == w * h) by(nonlinear_arith); }
    else if w < h { divides(h, w); let n = w * w; let c = h / w; join(y, w); below(y, w, c); let (q, b) = (y / w, y % w); found(x, b, w); let j = place(x, b, w); tile(q, j, w, h); assert(y * w + x == q * n + (b * w + x)) by(nonlinear_arith) requires y == q * w + b, n == w * w;
        assert(0 <= q * n + j < w * h) by(nonlinear_arith) requires h == c * w, n == w * w, 0 <= q < c, 0 <= j < n; }
    else { divides(w, h); let n = h * h; let c = w / h; join(x, h); below(x, h, c); let (q, b) = (x / h, x % h); found(b, y, h); let j = place(b, y, h); tile(q, j, w, h);
        assert(0 <= q * n + j < w * h) by(nonlinear_arith) requires w == c * h, n == h * h, 0 <= q < c, 0 <= j < n; }
}
/// b is the swizzled image a
pub open spec fn swizzled<S>(a: Seq<S>, b: Seq<S>, w: int, h: int) -> bool { part(a, b, w, h, w * h) }
/// the first n pixels of b are those of the swizzled image a
pub open spec fn part<S>(a: Seq<S>, b: Seq<S>, w: int, h: int, n: int) -> bool { forall|k: int| 0 <= k < n ==> b[k] == a[#[trigger] order(k, w, h)] }
proof fn stack<S>(a: Seq<S>, b: Seq<S>, c: Seq<S>, d: Seq<S>, w: int, h: int, i: int)
    requires two(w), two(h), 2 < w < h, 0 <= i < h / w, ({ let n = w * w; &&& part(a, b, w, h, i * n) &&& a.len() == c.len() >= w * h &&& b.len() == d.len() >= w * h &&& a.take(i * n) == c.take(i * n) &&& b.take(i * n) == d.take(i * n) &&& part(c.skip(i * n), d.skip(i * n), w, w, n) })
    ensures part(c, d, w, h, (i + 1) * (w * w)), (i + 1) * (w * w) <= w * h
{
    let n = w * w; divides(h, w); assert(n > 0) by(nonlinear_arith) requires n == w * w, w > 2; let e = h / w; assert(w * h == e * n) by(nonlinear_arith) requires h == e * w, n == w * w; mono(i + 1, e, n); pos(i, n); assert((i + 1) * n == i * n + n) by(nonlinear_arith);
    let t = i * n; let (ct, dt) = (c.take(t), d.take(t)); let (cs, ds) = (c.skip(t), d.skip(t));
    assert forall|k: int| 0 <= k < (i + 1) * n implies d[k] == c[#[trigger] order(k, w, h)] by {
        join(k, n); below(k, n, i + 1); let (q, j) = (k / n, k % n); tile(q, j, w, h); bounded(j, w, w);
        if k < t { below(k, n, i); mono(q + 1, i, n); assert((q + 1) * n == q * n + n) by(nonlinear_arith); pos(q, n); let p = order(k, w, h); assert(p == q * n + order(j, w, w)); assert(0 <= p < t); assert(b[k] == a[p]); assert(a.take(t)[p] == ct[p]); assert(b.take(t)[k] == dt[k]); }
        else { if q < i { mono(q + 1, i, n); assert((q + 1) * n == q * n + n) by(nonlinear_arith); } assert(q == i); assert(ds[j] == cs[order(j, w, w)]); assert(d[k] == ds[j]); assert(cs[order(j, w, w)] == c[t + order(j, w, w)]); }
    }
}
proof fn beside<S>(a: Seq<S>, b: Seq<S>, d: Seq<S>, w: int, h: int, i: int)
    requires two(w), two(h), w > 2, w >= h, 0 <= i < w / h, ({ let n = h * h; &&& part(a, b, w, h, i * n) &&& a.len() >= w * h &&& b.len() >= w * h &&& gathered(a.skip(i * h), b, d, h, w, i * n, n) })
    ensures part(a, d, w, h, (i + 1) * (h * h))
{
    let n = h * h; let t = i * n; small(h); assert(n > 0) by(nonlinear_arith) requires n == h * h, h >= 2; pos(i, n); pos(i, h); fits(w, h, i); assert((i + 1) * n == i * n + n) by(nonlinear_arith);
    assert forall|k: int| 0 <= k < (i + 1) * n implies d[k] == a[#[trigger] order(k, w, h)] by {
        if k < t { assert(d[k] == b[k]); } else { let j = k - t; tile(i, j, w, h); room(j, h, w); assert(d[t + j] == a.skip(i * h)[at(j, h, w)]); }
    }
}
proof fn fits(w: int, h: int, i: int) requires two(w), two(h), w >= h, 0 <= i < w / h ensures (i + 1) * (h * h) <= w * h, i * h + (h - 1) * w + h <= w * h, w * h == w / h * (h * h), i * h + h <= w {
    divides(w, h); small(h); let e = w / h; assert(w * h == e * (h * h)) by(nonlinear_arith) requires w == e * h; pos(h, h); mono(i + 1, e, h * h); mono(i + 1, e, h); assert((i + 1) * h == i * h + h) by(nonlinear_arith); assert((h - 1) * w + w == w * h) by(nonlinear_arith); }
proof fn beside_image<S>(v: Seq<S>, a: Seq<S>, d: Seq<S>, w: int, h: int, i: int)
    requires two(w), two(h), w > 2, w >= h, 0 <= i < w / h, ({ let n = h * h; &&& part(a, v, w, h, i * n) &&& a.len() == d.len() >= w * h &&& v.len() >= w * h &&& a.take(i * h) == d.take(i * h) &&& scattered(v, a.skip(i * h), d.skip(i * h), h, w, i * n, n) })
    ensures part(d, v, w, h, (i + 1) * (h * h))
{
    let n = h * h; let t = i * n; let x = i * h; small(h); assert(n > 0) by(nonlinear_arith) requires n == h * h, h >= 2; pos(i, n); pos(i, h); fits(w, h, i); assert((i + 1) * n == i * n + n) by(nonlinear_arith); pos(h - 1, w);
    let (sa, sd) = (a.skip(x), d.skip(x)); let (ta, td) = (a.take(x), d.take(x));
    assert forall|k: int| 0 <= k < (i + 1) * n implies v[k] == d[#[trigger] order(k, w, h)] by {
        if k < t { let p = order(k, w, h); bounded(k, w, h); assert(v[k] == a[p]);
            if p < x { assert(ta[p] == a[p] && td[p] == d[p]); }
            else { let p0 = p - x;
                assert forall|j: int| 0 <= j < n implies #[trigger] at(j, h, w) != p0 by { tile(i, j, w, h); if at(j, h, w) == p0 { back(k, w, h); back(t + j, w, h); } }
                assert(sd[p0] == sa[p0]); assert(sd[p0] == d[p] && sa[p0] == a[p]); } }
        else { let j = k - t; tile(i, j, w, h); room(j, h, w); let p0 = at(j, h, w); assert(sd[p0] == v[t + j]); assert(sd[p0] == d[x + p0]); }
    }
}
proof fn deswizzled_swizzled<S>(a: Seq<S>, b: Seq<S>, c: Seq<S>, w: int, h: int) requires pow2(w), pow2(h), a.len() == w * h, b.len() == w * h, c.len() == w * h, swizzled(a, b, w, h), swizzled(c, b, w, h) ensures a == c {
    assert forall|p: int| 0 <= p < w * h implies a[p] == c[p] by { join(p, w); below2(p, w, h); let (x, y) = (p % w, p / w); onto(x, y, w, h); let k = pixel(x, y, w, h); assert(b[k] == a[order(k, w, h)] && b[k] == c[order(k, w, h)]); }
    assert(a =~= c);
}
proof fn swizzled_deswizzled<S>(a: Seq<S>, b: Seq<S>, c: Seq<S>, w: int, h: int) requires pow2(w), pow2(h), a.len() == w * h, b.len() == w * h, c.len() == w * h, swizzled(b, a, w, h), swizzled(b, c, w, h) ensures a == c {
    assert forall|k: int| 0 <= k < w * h implies a[k] == c[k] by { assert(a[k] == b[order(k, w, h)] && c[k] == b[order(k, w, h)]); } assert(a =~= c); }
proof fn below2(k: int, n: int, c: int) requires n > 0, 0 <= k < n * c ensures 0 <= k / n < c { assert(n * c == c * n) by(nonlinear_arith); below(k, n, c); }
'''
CUBE = r'''
/// the low n bits of three coordinates woven together, x lowest
pub open spec fn woven(x: usize, y: usize, z: usize, n: int) -> usize decreases n {
    if n <= 0 { 0 } else { let i = (n - 1) as usize; woven(x, y, z, n - 1) | ((((x >> i) & 1) << (3 * i) as usize) | (((y >> i) & 1) << (3 * i + 1) as usize) | (((z >> i) & 1) << (3 * i + 2) as usize)) } }
pub open spec fn morton(x: int, y: int, z: int) -> int { woven(x as usize, y as usize, z as usize, 21) as int }
/// place of the k-th pixel of a cube of side l
pub open spec fn cube(k: int, l: int) -> int { morton(k % l, (k / l) % l, k / (l * l)) }
proof fn weave(x: usize, y: usize, z: usize, i: usize, a: usize) requires i < 21, a == woven(x, y, z, i as int)
    ensures (a | (((x & (1usize << i)) << (2 * i) as usize) | ((y & (1usize << i)) << (2 * i + 1) as usize) | ((z & (1usize << i)) << (2 * i + 2) as usize))) == woven(x, y, z, i + 1)
{
    assert(((x & (1usize << i)) << mul(2usize, i)) == (((x >> i) & 1) << mul(3usize, i)) && ((y & (1usize << i)) << add(mul(2usize, i), 1)) == (((y >> i) & 1) << add(mul(3usize, i), 1)) && ((z & (1usize << i)) << add(mul(2usize, i), 2)) == (((z >> i) & 1) << add(mul(3usize, i), 2))) by(bit_vector) requires i < 21;
}
proof fn bits(x: usize, y: usize, z: usize, n: int) requires 0 <= n <= 21
    ensures woven(x, y, z, n) < (1usize << (3 * n) as usize), forall|j: usize| 0 <= j < n ==> bit3(x, y, z, woven(x, y, z, n), j)
    decreases n
{
    if n > 0 {
        let i = (n - 1) as usize; bits(x, y, z, n - 1); let a = woven(x, y, z, n - 1);
        assert(((a | ((((x >> i) & 1) << mul(3usize, i)) | (((y >> i) & 1) << add(mul(3usize, i), 1)) | (((z >> i) & 1) << add(mul(3usize, i), 2)))) < (1usize << mul(3usize, add(i, 1))))) by(bit_vector) requires i < 21, a < (1usize << mul(3usize, i));
        let b = woven(x, y, z, n);
        assert forall|j: usize| 0 <= j < n implies bit3(x, y, z, b, j) by {
            if j < i { assert(bit3(x, y, z, a, j));
                assert(((a | ((((x >> i) & 1) << mul(3usize, i)) | (((y >> i) & 1) << add(mul(3usize, i), 1)) | (((z >> i) & 1) << add(mul(3usize, i), 2)))) >> mul(3usize, j)) & 7 == (a >> mul(3usize, j)) & 7) by(bit_vector) requires i < 21, j < i; }
            else { assert(((a | ((((x >> i) & 1) << mul(3usize, i)) | (((y >> i) & 1) << add(mul(3usize, i), 1)) | (((z >> i) & 1) << add(mul(3usize, i), 2)))) >> mul(3usize, i)) & 7 == ((x >> i) & 1) | (((y >> i) & 1) << 1) | (((z >> i) & 1) << 2)) by(bit_vector) requires i < 21, a < (1usize << mul(3usize, i)); }
        }
    } else { assert(0usize < (1usize << 0usize)) by(bit_vector); }
}
pub open spec fn bit3(x: usize, y: usize, z: usize, m: usize, j: usize) -> bool { (m >> (3 * j) as usize) & 7 == ((x >> j) & 1) | (((y >> j) & 1) << 1) | (((z >> j) & 1) << 2) }
proof fn alike(a: usize, b: usize, n: int) requires 0 <= n <= 21, a < (1usize << n as usize), b < (1usize << n as usize), forall|j: usize| 0 <= j < n ==> #[trigger] ((a >> j) & 1) == ((b >> j) & 1) ensures a == b decreases n {
    if n > 0 { let m = n as usize; let i = (n - 1) as usize; let (c, d) = (a & sub(1usize << i, 1), b & sub(1usize << i, 1));
        assert(c < (1usize << i) && d < (1usize << i)) by(bit_vector) requires i < 21, c == a & sub(1usize << i, 1), d == b & sub(1usize << i, 1);
        assert forall|j: usize| 0 <= j < n - 1 implies #[trigger] ((c >> j) & 1) == ((d >> j) & 1) by { assert((a >> j) & 1 == (b >> j) & 1);
            assert((c >> j) & 1 == (d >> j) & 1) by(bit_vector) requires j < i, i < 21, (a >> j) & 1 == (b >> j) & 1, c == a & sub(1usize << i, 1), d == b & sub(1usize << i, 1); }
        alike(c, d, n - 1); assert((a >> i) & 1 == (b >> i) & 1);
        assert(a == b) by(bit_vector) requires i < 21, m == add(i, 1), a < (1usize << m), b < (1usize << m), (a >> i) & 1 == (b >> i) & 1, c == d, c == a & sub(1usize << i, 1), d == b & sub(1usize << i, 1);
    } else { assert(a == b) by(bit_vector) requires a < (1usize << 0usize), b < (1usize << 0usize); }
}
proof fn limited(x: usize, y: usize, z: usize, e: int, n: int) requires 0 <= e <= n <= 21, x < (1usize << e as usize), y < (1usize << e as usize), z < (1usize << e as usize) ensures woven(x, y, z, n) == woven(x, y, z, e) decreases n {
    if n > e { let i = (n - 1) as usize; let f = e as usize; limited(x, y, z, e, n - 1); let a = woven(x, y, z, n - 1);
        assert((a | ((((x >> i) & 1) << mul(3usize, i)) | (((y >> i) & 1) << add(mul(3usize, i), 1)) | (((z >> i) & 1) << add(mul(3usize, i), 2)))) == a) by(bit_vector) requires f <= i, i < 21, x < (1usize << f), y < (1usize << f), z < (1usize << f); }
}
proof fn exponent(l: int) -> (e: int) requires pow2(l), l <= 0x200000 ensures 0 <= e <= 21, l == (1usize << e as usize), l * l * l == (1usize << (3 * e) as usize) decreases l {
    if l == 1 { assert((1usize << 0usize) == 1) by(bit_vector); assert(1int * 1 * 1 == 1); 0 }
    else if l == 2 { assert((1usize << 1usize) == 2 && (1usize << 3usize) == 8) by(bit_vector); assert(2int * 2 * 2 == 8); 1 }
    else { half(l); let h = l / 2; let d = exponent(h); let f = d as usize; assert(l * l * l == 8 * (h * h * h)) by(nonlinear_arith) requires l == 2 * h;
        if d == 21 { assert((1usize << 21usize) == 0x200000) by(bit_vector); }
        assert((1usize << add(f, 1)) == mul(2usize, 1usize << f) && (1usize << mul(3usize, add(f, 1))) == mul(8usize, 1usize << mul(3usize, f)) && (1usize << f) <= 0x100000 && (1usize << mul(3usize, f)) <= 0x1000000000000000) by(bit_vector) requires f < 21;
        d + 1 }
}
proof fn side(l: int) requires pow2(l), l * l * l <= usize::MAX ensures 1 <= l <= 0x200000, l * l <= l * l * l, l <= l * l, l * l >= 1 { if l != 1 { small(l); }
    if l > 0x200000 { if l < 0x400000 { nogap2(l); } assert(l * l * l >= 0x400000 * 0x400000 * 0x400000) by(nonlinear_arith) requires l >= 0x400000; }
    assert(l * l >= 1 && l * l >= l) by(nonlinear_arith) requires l >= 1; assert(l * l * l >= l * l) by(nonlinear_arith) requires l >= 1, l * l >= 1; }
proof fn nogap2(l: int) requires two(l), 0x200000 < l < 0x400000 ensures false { assert(two(0x400000)) by(compute); nogap(0x400000, l); }
proof fn mask(v: usize, e: int) requires 0 <= e <= 21, v < (1usize << (3 * e) as usize) ensures v & ((1usize << (3 * e) as usize) - 1) as usize == v, (1usize << (3 * e) as usize) >= 1 { let f = e as usize;
    assert((1usize << mul(3usize, f)) >= 1 && v & sub(1usize << mul(3usize, f), 1) == v) by(bit_vector) requires f <= 21, v < (1usize << mul(3usize, f)); }
proof fn corner(x: int, y: int, z: int, l: int) requires pow2(l), l * l * l <= usize::MAX, 0 <= x < l, 0 <= y < l, 0 <= z < l
    ensures 0 <= morton(x, y, z) < l * l * l, (morton(x, y, z) as usize) & ((l * l * l - 1) as usize) == morton(x, y, z), 0 <= x + y * l + z * (l * l) < l * l * l, ((x + y * l + z * (l * l)) as usize) & ((l * l * l - 1) as usize) == x + y * l + z * (l * l),
        cube(x + y * l + z * (l * l), l) == morton(x, y, z), y * l >= 0, z * (l * l) >= 0, y * l < l * l, x + y * l < l * l
{
    side(l); let e = exponent(l); limited(x as usize, y as usize, z as usize, e, 21); bits(x as usize, y as usize, z as usize, e); mask(morton(x, y, z) as usize, e);
    pos(y, l); pos(l, l); pos(z, l * l); mono(y, l - 1, l); mono(z, l - 1, l * l); assert((l - 1) * l + l == l * l && (l - 1) * (l * l) + l * l == l * l * l) by(nonlinear_arith);
    mask((x + y * l + z * (l * l)) as usize, e); split(z, x + y * l, l * l); let k = x + y * l + z * (l * l);
    assert(y * l + z * (l * l) == (z * l + y) * l) by(nonlinear_arith); split(z * l + y, x, l); split(z, y, l);
}
proof fn spread(k: int, l: int) requires pow2(l), l * l * l <= usize::MAX, 0 <= k < l * l * l
    ensures 0 <= k % l < l, 0 <= (k / l) % l < l, 0 <= k / (l * l) < l, k == k % l + (k / l) % l * l + k / (l * l) * (l * l), 0 <= cube(k, l) < l * l * l
{
    side(l); join(k, l); join(k / l, l); join(k, l * l); vstd::arithmetic::div_mod::lemma_div_denominator(k, l, l); assert(l * l * l == l * (l * l)) by(nonlinear_arith); below(k, l * l, l);
    let (q, r, t) = (k / l, (k / l) % l, k / (l * l)); assert(q == t * l + r); assert((t * l + r) * l == r * l + t * (l * l)) by(nonlinear_arith); corner(k % l, r, t, l); }
/// no two pixels share a place
proof fn separate(j: int, k: int, l: int) requires pow2(l), l * l * l <= usize::MAX, 0 <= j < l * l * l, 0 <= k < l * l * l, cube(j, l) == cube(k, l) ensures j == k {
    side(l); let e = exponent(l); spread(j, l); spread(k, l); let (a, b, c) = ((j % l) as usize, (j / l % l) as usize, (j / (l * l)) as usize); let (x, y, z) = ((k % l) as usize, (k / l % l) as usize, (k / (l * l)) as usize);
    bits(a, b, c, 21); bits(x, y, z, 21); let m = woven(a, b, c, 21);
    assert forall|i: usize| 0 <= i < e implies #[trigger] ((a >> i) & 1) == ((x >> i) & 1) && ((b >> i) & 1) == ((y >> i) & 1) && ((c >> i) & 1) == ((z >> i) & 1) by {
        assert(bit3(a, b, c, m, i) && bit3(x, y, z, m, i)); let n = (m >> (3 * i) as usize) & 7;
        assert(((a >> i) & 1) == ((x >> i) & 1) && ((b >> i) & 1) == ((y >> i) & 1) && ((c >> i) & 1) == ((z >> i) & 1)) by(bit_vector) requires n == ((x >> i) & 1) | (((y >> i) & 1) << 1) | (((z >> i) & 1) << 2), n == ((a >> i) & 1) | (((b >> i) & 1) << 1) | (((c >> i) & 1) << 2); }
    assert forall|i: usize| 0 <= i < e implies #[trigger] ((b >> i) & 1) == ((y >> i) & 1) by { assert(((a >> i) & 1) == ((x >> i) & 1)); }
    assert forall|i: usize| 0 <= i < e implies #[trigger] ((c >> i) & 1) == ((z >> i) & 1) by { assert(((a >> i) & 1) == ((x >> i) & 1)); }
    alike(a, x, e); alike(b, y, e); alike(c, z, e);
}
/// the places of the first n pixels of the cube a hold them in b
pub open spec fn cubed<S>(a: Seq<S>, b: Seq<S>, l: int, n: int) -> bool { forall|k: int| 0 <= k < n ==> b[#[trigger] cube(k, l)] == a[k] }
'''
B = 'src/ringhopper/src/tag/bitmap.rs'
MIP = r'''
/// the standard library's NonZeroUsize
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NonZeroUsize;
impl NonZeroUsize {
    pub uninterp spec fn v(&self) -> usize;
    #[verifier::external_body] pub fn get(self) -> (r: usize) ensures r == self.v(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub fn new_unchecked(n: usize) -> (r: NonZeroUsize) requires n > 0 ensures r.v() == n { unimplemented!() }
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures match r { Some(x) => n > 0 && x.v() == n, None => n == 0 } { unimplemented!() }
}
fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[derive(Clone, Copy)] pub enum BitmapDataFormat { A8, Y8, AY8, A8Y8, R5G6B5, A1R5G5B5, A4R4G4B4, X8R8G8B8, A8R8G8B8, DXT1, DXT3, DXT5, P8, BC7 }
#[derive(Clone, Copy)] pub enum BitmapDataType { _2dTexture, _3dTexture, CubeMap }
pub struct BitmapData { pub width: u16, pub height: u16, pub depth: u16, pub _type: BitmapDataType, pub format: BitmapDataFormat, pub mipmap_count: u16 }
/// pixels on a side of a block
pub open spec fn side(f: BitmapDataFormat) -> nat { match f { BitmapDataFormat::DXT1 | BitmapDataFormat::DXT3 | BitmapDataFormat::DXT5 | BitmapDataFormat::BC7 => 4, _ => 1 } }
/// bits of a pixel
pub open spec fn bits(f: BitmapDataFormat) -> nat { match f { BitmapDataFormat::DXT1 => 4, BitmapDataFormat::DXT3 | BitmapDataFormat::DXT5 | BitmapDataFormat::BC7 | BitmapDataFormat::P8 | BitmapDataFormat::A8 | BitmapDataFormat::Y8 | BitmapDataFormat::AY8 => 8,
    BitmapDataFormat::A8Y8 | BitmapDataFormat::R5G6B5 | BitmapDataFormat::A1R5G5B5 | BitmapDataFormat::A4R4G4B4 => 16, BitmapDataFormat::A8R8G8B8 | BitmapDataFormat::X8R8G8B8 => 32 } }
/// a side of level m: halved m times, and at least 1
pub open spec fn level(d: int, m: int) -> int decreases m { if m <= 0 { d } else { let p = level(d, m - 1) / 2; if p < 1 { 1 } else { p } } }
/// blocks along a side of that many pixels
pub open spec fn blocks(n: int, b: int) -> int { (n + (b - 1)) / b }
/// a texture: size of the base level, kind, pixels on a side of a block, and most mipmaps
pub ghost struct Tex { pub w: int, pub h: int, pub d: int, pub cube: bool, pub b: int, pub most: Option<int> }
impl Tex {
    pub open spec fn ok(self) -> bool { 1 <= self.w <= 0x10000 && 1 <= self.h <= 0x10000 && 1 <= self.d <= 0x10000 && 1 <= self.b <= 0x10000 && (self.cube ==> self.d == 1) && self.most != Some(-1int) }
    pub open spec fn faces(self, m: int) -> int { if self.cube { 6 } else { level(self.d, m) } }
    pub open spec fn count(self, m: int) -> int { blocks(level(self.w, m), self.b) * blocks(level(self.h, m), self.b) }
    /// blocks before level m
    pub open spec fn before(self, m: int) -> int decreases m { if m <= 0 { 0 } else { self.before(m - 1) + self.faces(m - 1) * self.count(m - 1) } }
    /// the last level
    pub open spec fn last(self, m: int) -> bool { (level(self.w, m) == 1 && level(self.h, m) == 1 && level(self.d, m) == 1) || (match self.most { Some(c) => c <= m, None => false }) }
    /// face f of level m
    pub open spec fn face(self, m: int, f: int, x: MipmapMetadata) -> bool {
        &&& x.mipmap_index == m &&& x.face_index == f &&& x.width == level(self.w, m) &&& x.height == level(self.h, m) &&& x.depth == level(self.d, m)
        &&& x.block_width == blocks(level(self.w, m), self.b) &&& x.block_height == blocks(level(self.h, m), self.b) &&& x.block_count == self.count(m) &&& x.block_offset == self.before(m) + f * self.count(m)
    }
    pub open spec fn real(self, m: int, f: int) -> bool { 0 <= m && 0 <= f < self.faces(m) && forall|i: int| 0 <= i < m ==> !#[trigger] self.last(i) }
}
/// the iterator stands at face f of level m of the texture
pub open spec fn stands(s: MipmapFaceIterator, t: Tex, m: int, f: int) -> bool {
    t.ok() && t.real(m, f) && s.next is Some && t.face(m, f, s.next->0) && s.block_length.v() == t.b && (s.bitmap_type is Cubemap) == t.cube && (s.bitmap_type is TwoDimensional ==> t.d == 1) && s.face_count == t.faces(m) && (match s.mipmap_count { Some(c) => t.most == Some(c as int), None => t.most is None })
}
pub open spec fn tex(w: int, h: int, t: MipmapType, b: int, c: Option<usize>) -> Tex { Tex { w, h, d: match t { MipmapType::ThreeDimensional(d) => d.v() as int, _ => 1 }, cube: t is Cubemap, b, most: match c { Some(n) => Some(n as int), None => None } } }
pub open spec fn at_end(s: MipmapFaceIterator) -> bool { s.next is None }
proof fn levels(d: int, m: int) requires 1 <= d <= 0x10000, m >= 0 ensures 1 <= level(d, m) <= d, m >= 16 ==> level(d, m) == 1, m > 0 ==> level(d, m) <= level(d, m - 1) decreases m {
    if m > 0 { levels(d, m - 1); } if m >= 16 { sixteen(d, m); } }
proof fn sixteen(d: int, m: int) requires 1 <= d <= 0x10000, m >= 16 ensures level(d, m) == 1 decreases m { if m > 16 { sixteen(d, m - 1); } else { reveal_with_fuel(level, 18); } }
proof fn few(n: int, b: int) requires 1 <= n <= 0x10000, 1 <= b <= 0x10000 ensures 1 <= blocks(n, b) <= n {
    assert(1 <= (n + (b - 1)) / b <= n) by(nonlinear_arith) requires 1 <= n, 1 <= b; }
proof fn size(t: Tex, m: int) requires t.ok(), m >= 0 ensures 1 <= t.count(m) <= 0x1_0000_0000, 1 <= t.faces(m) <= 0x10000, 0 <= t.before(m) <= m * 0x1_0000_0000_0000, t.count(m) <= t.faces(m) * t.count(m) <= 0x1_0000_0000_0000, m >= 16 ==> t.last(m) decreases m {
    levels(t.w, m); levels(t.h, m); levels(t.d, m); few(level(t.w, m), t.b); few(level(t.h, m), t.b); let (x, y) = (blocks(level(t.w, m), t.b), blocks(level(t.h, m), t.b));
    assert(1 <= x * y <= 0x1_0000_0000) by(nonlinear_arith) requires 1 <= x <= 0x10000, 1 <= y <= 0x10000; let (c, f) = (t.count(m), t.faces(m)); assert(c <= f * c <= 0x1_0000_0000_0000) by(nonlinear_arith) requires 1 <= f <= 0x10000, 1 <= c <= 0x1_0000_0000;
    if m > 0 { size(t, m - 1); } }
pub open spec fn stepped(t: Tex, m: int, f: int) -> bool {
    m <= 16 && 1 <= t.count(m) <= 0x1_0000_0000 && 0 <= f * t.count(m) && (f + 1) * t.count(m) == f * t.count(m) + t.count(m) && (f + 1) * t.count(m) <= 0x1_0000_0000_0000 && 0 <= t.before(m) <= 0x10_0000_0000_0000 && (f + 1 == t.faces(m) ==> t.before(m + 1) == t.before(m) + f * t.count(m) + t.count(m)) && t.faces(m) <= 0x10000 && 1 <= level(t.w, m) <= 0x10000 && 1 <= level(t.h, m) <= 0x10000 && 1 <= level(t.d, m) <= 0x10000
    && 1 <= level(t.w, m + 1) <= 0x10000 && 1 <= level(t.h, m + 1) <= 0x10000 && 1 <= level(t.d, m + 1) <= 0x10000 && 1 <= t.faces(m) * t.count(m) <= 0x1_0000_0000_0000 && (!t.last(m) ==> t.real(m + 1, 0)) && (f + 1 < t.faces(m) ==> t.real(m, f + 1) && (f + 1) % t.faces(m) == f + 1) && t.faces(m) % t.faces(m) == 0 }
/// what is needed for a step
proof fn step(t: Tex, m: int, f: int) requires t.ok(), t.real(m, f) ensures stepped(t, m, f)
{
    size(t, m); if m > 16 { size(t, 16); assert(t.last(16)); } let c = t.count(m); let n = t.faces(m);
    assert(0 <= f * c && (f + 1) * c == f * c + c && (f + 1) * c <= n * c) by(nonlinear_arith) requires 0 <= f < n, c >= 1; levels(t.w, m); levels(t.h, m); levels(t.d, m); size(t, m + 1); levels(t.w, m + 1); levels(t.h, m + 1); levels(t.d, m + 1); vstd::arithmetic::div_mod::lemma_mod_self_0(n); if f + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((f + 1) as nat, n as nat); } assert(f + 1 == n ==> n * c == f * c + c);
    if !t.last(m) { assert forall|i: int| 0 <= i < m + 1 implies !#[trigger] t.last(i) by {} }
}
/// a whole level
pub open spec fn whole(t: Tex, m: int, x: MipmapMetadata) -> bool {
    &&& x.mipmap_index == m &&& x.face_index == 0 &&& x.width == level(t.w, m) &&& x.height == level(t.h, m) &&& x.depth == level(t.d, m)
    &&& x.block_width == blocks(level(t.w, m), t.b) &&& x.block_height == blocks(level(t.h, m), t.b) &&& x.block_count == t.count(m) * t.faces(m) &&& x.block_offset == t.before(m)
}
proof fn flat(s: MipmapFaceIterator) ensures forall|t: Tex, m: int, f: int| #[trigger] stands(s, t, m, f) && t.d == 1 ==> level(t.d, m) == 1 {
    assert forall|t: Tex, m: int, f: int| #[trigger] stands(s, t, m, f) && t.d == 1 implies level(t.d, m) == 1 by { levels(t.d, m); } }
/// a later face of the same level
proof fn same_level(t: Tex, m: int, f: int, g: int) requires t.real(m, f), 0 <= g < t.faces(m) ensures t.real(m, g) {}
'''
MIPS = [(r'#\[derive\([^)]*\)\]\s*', '', 'derives')]
GOES = '''final(self).bitmap_type == old(self).bitmap_type, match r { None => at_end(*old(self)) && at_end(*final(self)), Some(x) => old(self).next == Some(x) },
    forall|t: Tex, m: int, f: int| #[trigger] stands(*old(self), t, m, f) ==> r is Some && t.face(m, f, r->0) && (if f + 1 < t.faces(m) { stands(*final(self), t, m, f + 1) } else if t.last(m) { at_end(*final(self)) } else { stands(*final(self), t, m + 1, 0) })'''
UNWRITE = [(r'self\.bitmap_type == MipmapType::Cubemap', 'matches!(self.bitmap_type, MipmapType::Cubemap)', 'derived equality'),
           (r'([\w.]+)\.is_some_and\(\|(\w+)\| ([^()]*)\)', r'(match \1 { Some(\2) => \3, None => false })', 'Option::is_some_and written out'),
           (r'\((next\.\w+ / \d+)\)\.max\((\d+)\)', r'max(\1, \2)', 'Ord::max'), (r'Self::Item', 'MipmapMetadata', 'associated type')]
UNITS = [
    dict(name='swizzle', about='swizzle, swizzle_2d, swizzle_block, swizzle_3d, morton_encode_3d: for every size, exactly the swizzled order; nothing out of bounds, no overflow; swizzling and deswizzling undo each other', trusted=True, spec=BASE + LAYOUT + STEPS + IMAGE + CUBE, lemmas='',
        items=[
            Item(S, 'fn', 'swizzle_block_2x2', vis='', ret='r', spec=BLOCK.replace('two(width as int)', 'true').replace('width as int', '2').replace('width', '2usize'), start='proof { four(stride as int); assert(2 * 2 == 4); }'),
            Item(S, 'fn', 'swizzle_block', vis='', ret='r', attrs='#[verifier::rlimit(60)] ', spec=BLOCK + ' decreases width',
                start='let ghost c0 = counter as int; let ghost w = width as int; let ghost s = stride as int; let ghost h = w / 2; let ghost vin = values_in@; let ghost vout = values_out@; let ghost n = (w / 2) * (w / 2); proof { if width != 2 { half(w); halves(w, s); assert(1 * (s * h) == s * h && 0 * (s * h) == 0 && 1 * h == h && 0 * h == 0 && 0 * n == 0); } }',
                at=[x for side in ('out', 'in') for q in range(4) for x in quadrant(q, side, ['', 'new_width', r'stride \* new_width', r'stride \* new_width \+ new_width'][q])]),
            Item(S, 'fn', 'swizzle_2d', vis='', attrs='#[verifier::loop_isolation(false)] #[verifier::rlimit(60)] ', rewrite=[(r'for (\w+) in \(0\.\.(\w+)\)\.step_by\((\w+)\) \{', r'for i_ in 0..steps(\2, \3) { proof { ahead(\2 as int, \3 as int, i_ as int); } let \1 = i_ * \3;', 'step_by written as counting')],
                spec='''requires pow2(width as int), pow2(height as int), width * height <= usize::MAX, width * height <= data@.len(), width * height <= old(output)@.len()
                ensures final(output)@.len() == old(output)@.len(), !deswizzle ==> swizzled(data@, final(output)@, width as int, height as int), deswizzle ==> swizzled(final(output)@, data@, width as int, height as int)
                decreases (if width < height { 1int } else { 0int })''',
                start='let ghost w = width as int; let ghost h = height as int; let ghost d0 = data@; proof { powers(w, h); }',
                loops=[dict(spec='invariant output@.len() == old(output)@.len(), !deswizzle ==> part(d0, output@, w, h, i as int), deswizzle ==> part(output@, d0, w, h, i as int)'),
                    dict(spec='invariant output@.len() == old(output)@.len(), !deswizzle ==> part(d0, output@, w, h, i_ * (w * w)), deswizzle ==> part(output@, d0, w, h, i_ * (w * w))', start='let ghost b0 = output@; proof { tall(w, h, i_ as int); }',
                        end='proof { let t = i_ * (w * w); assert(y * width == t); let b1 = output@; assert(b0.take(t) =~= b1.take(t)); if deswizzle { stack(b0, d0, b1, d0, w, h, i_ as int); } else { stack(d0, b0, d0, b1, w, h, i_ as int); } }'),
                    dict(spec='invariant output@.len() == old(output)@.len(), counter == i_ * (h * h), !deswizzle ==> part(d0, output@, w, h, i_ * (h * h)), deswizzle ==> part(output@, d0, w, h, i_ * (h * h))', start='let ghost b0 = output@; proof { fits(w, h, i_ as int); pos(i_ as int, h * h); pos(h, h); pos(h - 1, w); assert((i_ + 1) * (h * h) == i_ * (h * h) + h * h) by(nonlinear_arith); }',
                        end='proof { let b1 = output@; if deswizzle { assert(b0.take(x as int) =~= b1.take(x as int)); beside_image(d0, b0, b1, w, h, i_ as int); } else { beside(d0, b0, b1, w, h, i_ as int); } }')],
                at=[(r'swizzle_2d\(&data', 'before', 'proof { assert(y * width == i_ * w * w); }'), (r'let mut counter = 0;', 'after', 'proof { divides(w, h); assert(0 * (h * h) == 0); fits(w, h, 0); assert(w * h == w / h * (h * h)); }'), (r'if width < height \{', 'after', 'proof { divides(h, w); assert(0 * (w * w) == 0); tall(w, h, 0); }')]),
                    Item(S, 'fn', 'morton_encode_3d', vis='', ret='r', rewrite=[(r'usize::BITS as usize', '64usize', 'the targets have 64 bits'), (r'let mut answer = 0;', 'let mut answer: usize = 0;', 'type made explicit'), (r'let bit = 1 <<', 'let bit: usize = 1 <<', 'type made explicit')],
                spec='ensures r == morton(x as int, y as int, z as int)', loops=[dict(spec='invariant answer == woven(x, y, z, i as int)', start='proof { weave(x, y, z, i, answer); }')]),
            Item(S, 'fn', 'swizzle_3d', vis='', attrs='#[verifier::loop_isolation(false)] #[verifier::rlimit(60)] ',
                spec='''requires pow2(length as int), length * length * length <= usize::MAX, length * length * length <= data@.len(), length * length * length <= old(output)@.len()
                ensures final(output)@.len() == old(output)@.len(), !deswizzle ==> cubed(data@, final(output)@, length as int, length * length * length), deswizzle ==> cubed(final(output)@, data@, length as int, length * length * length)''',
                start='let ghost l = length as int; let ghost d0 = data@; proof { side(l); assert(l * (l * l) == l * l * l) by(nonlinear_arith); assert(0 * (l * l) == 0); }',
                loops=[dict(spec='invariant output@.len() == old(output)@.len(), !deswizzle ==> cubed(d0, output@, l, z * (l * l)), deswizzle ==> cubed(output@, d0, l, z * (l * l))', start='proof { assert(z * (l * l) + 0 * l == z * (l * l)); assert((z + 1) * (l * l) == z * (l * l) + l * l) by(nonlinear_arith); }'),
                    dict(spec='invariant output@.len() == old(output)@.len(), !deswizzle ==> cubed(d0, output@, l, z * (l * l) + y * l), deswizzle ==> cubed(output@, d0, l, z * (l * l) + y * l)', start='proof { assert((y + 1) * l == y * l + l) by(nonlinear_arith); }'),
                    dict(spec='invariant output@.len() == old(output)@.len(), !deswizzle ==> cubed(d0, output@, l, z * (l * l) + y * l + x), deswizzle ==> cubed(output@, d0, l, z * (l * l) + y * l + x)', start='let ghost b0 = output@; let ghost t = z * (l * l) + y * l + x; proof { corner(x as int, y as int, z as int, l); }',
                        end='''proof { let b1 = output@; assert forall|k: int| 0 <= k < t + 1 implies (if deswizzle { d0[#[trigger] cube(k, l)] == b1[k] } else { b1[cube(k, l)] == d0[k] }) by { spread(k, l); if !deswizzle && k < t { if cube(k, l) == cube(t, l) { separate(k, t, l); } assert(b0[cube(k, l)] == d0[k]); } } }''')]),
            Item(S, 'fn', 'swizzle', vis='', ret='r', rewrite=[MSG, (r'(\w+)\.is_power_of_two\(\)', r'power(\1)', 'assumed contract of is_power_of_two'), (r'debug_assert_eq!\((?:[^;"]|"[^"]*")*\);', '', 'an assertion of debug builds; it is a precondition'), (r'data\.is_empty\(\)', '(data.len() == 0)', 'slice::is_empty')],
                spec='''requires width * height * depth == data@.len(), data@.len() <= old(output)@.len(), data@.len() <= usize::MAX
                ensures final(output)@.len() == old(output)@.len(),
                    r is Ok == (pow2(width as int) && pow2(height as int) && pow2(depth as int) && (depth == 1 || (height == width && height == depth))),
                    r is Err ==> final(output)@ == old(output)@,
                    r is Ok && depth == 1 ==> if deswizzle { swizzled(final(output)@, data@, width as int, height as int) } else { swizzled(data@, final(output)@, width as int, height as int) },
                    r is Ok && depth > 1 ==> if deswizzle { cubed(final(output)@, data@, width as int, data@.len() as int) } else { cubed(data@, final(output)@, width as int, data@.len() as int) },''',
                start='proof { if pow2(width as int) && pow2(height as int) && pow2(depth as int) { powers(width as int, height as int); if depth != 1 { small(depth as int); } assert(width * height * depth >= width * height) by(nonlinear_arith) requires width * height >= 1, depth >= 1; assert(width * height * 1 == width * height); } }'),
        ]),
    dict(name='mipmaps', about='block sizes of the formats; MipmapFaceIterator and MipmapTextureIterator: for every size, kind and count, exactly the levels and faces, each beginning where the one before ends', trusted=True, spec=BASE + MIP, lemmas='',
        items=[
            Item(B, 'fn', 'pixels_per_block_length', vis='', ret='r', spec='ensures r.v() == side(format)'),
            Item(B, 'fn', 'bits_per_pixel', vis='', ret='r', spec='ensures r.v() == bits(format)'),
            Item(B, 'fn', 'bytes_per_block', vis='', ret='r', spec='ensures r.v() == side(format) * side(format) * bits(format) / 8', at=[(r'unsafe \{ NonZeroUsize::new_unchecked\(ppb', 'before', 'proof { assert(4 * 4 * bpp == 16 * bpp && 1 * 1 * bpp == bpp); assert(ppb == 4 || ppb == 1); }')]),
            Item(B, 'struct', 'MipmapMetadata', attrs='#[derive(Clone, Copy)] '), Item(B, 'enum', 'MipmapType', attrs='#[derive(Clone, Copy)] '),
            Item(B, 'struct', 'MipmapFaceIterator', rewrite=[(r'\n(\s*)(next|block_length|bitmap_type|mipmap_count|face_count):', r'\n\1pub \2:', 'visibility')]), Item(B, 'struct', 'MipmapTextureIterator', rewrite=[(r'\n(\s*)inner:', r'\n\1pub inner:', 'visibility')]),
            Item(B, 'fn', 'fixup_real_dims', within=r'impl MipmapMetadata', vis='', wrap=('impl MipmapMetadata {\n', '\n}\n'), spec='''requires 1 <= old(self).width <= 0x10000, 1 <= old(self).height <= 0x10000, 1 <= block_length.v() <= 0x10000
                ensures final(self).block_width == blocks(old(self).width as int, block_length.v() as int), final(self).block_height == blocks(old(self).height as int, block_length.v() as int), final(self).block_count == final(self).block_width * final(self).block_height,
                    *final(self) == (MipmapMetadata { block_width: final(self).block_width, block_height: final(self).block_height, block_count: final(self).block_count, ..*old(self) })''',
                start='proof { few(self.width as int, block_length.v() as int); few(self.height as int, block_length.v() as int); let (x, y) = (blocks(self.width as int, block_length.v() as int), blocks(self.height as int, block_length.v() as int)); assert(x * y <= 0x1_0000_0000) by(nonlinear_arith) requires 1 <= x <= 0x10000, 1 <= y <= 0x10000; assert(x * y >= 0) by(nonlinear_arith) requires x >= 0, y >= 0; }'),
            Item(B, 'fn', 'get_mipmap_type', within=r'impl MipmapType', vis='', ret='r', wrap=('impl MipmapType {\n', '\n}\n'), rewrite=[MSG, (r'NonZeroUsize::new\(data\.depth as usize\)\s*\.map\(\|(\w+)\| MipmapType::ThreeDimensional\(\1\)\)\s*\.ok_or_else\(\|\| ([^\n]*\))\)', r'(match NonZeroUsize::new(data.depth as usize) { Some(\1) => Ok(MipmapType::ThreeDimensional(\1)), None => Err(\2) })', 'map and ok_or_else written out')],
                spec='''ensures match r { Err(_) => data._type is _3dTexture && data.depth == 0, Ok(t) => (t is Cubemap) == (data._type is CubeMap) && (t is TwoDimensional) == (data._type is _2dTexture) && (match t { MipmapType::ThreeDimensional(d) => d.v() == data.depth && d.v() > 0, _ => true }) }'''),
            Item(B, 'fn', 'fixup_face_count', within=r'impl MipmapFaceIterator\b', vis='', wrap=('impl MipmapFaceIterator {\n', ''), rewrite=UNWRITE[:1], spec='''requires old(self).next is Some ensures final(self).face_count == (if old(self).bitmap_type is Cubemap { 6 } else { old(self).next->0.depth }), *final(self) == (MipmapFaceIterator { face_count: final(self).face_count, ..*old(self) })'''),
            Item(B, 'fn', 'new', within=r'impl MipmapFaceIterator\b', vis='', ret='r', 
                spec='''requires 1 <= width.v() <= 0x10000, 1 <= height.v() <= 0x10000, 1 <= block_length.v() <= 0x10000, (match bitmap_type { MipmapType::ThreeDimensional(d) => 1 <= d.v() <= 0x10000, _ => true })
                ensures stands(r, tex(width.v() as int, height.v() as int, bitmap_type, block_length.v() as int, mipmap_count), 0, 0)'''),
            Item(B, 'fn', 'new_from_bitmap_data', within=r'impl MipmapFaceIterator\b', vis='', ret='r', rewrite=[MSG, (r'(NonZeroUsize::new\([^()]*\))\s*\.ok_or_else\(\|\| ([^\n]*\))\)\?;', r'(match \1 { Some(n) => n, None => return Err(\2) });', 'ok_or_else written out')],
                spec='''ensures match r { Err(_) => data.width == 0 || data.height == 0 || (data._type is _3dTexture && data.depth == 0), Ok(it) => data.width > 0 && data.height > 0 && stands(it, Tex { w: data.width as int, h: data.height as int, d: if data._type is _3dTexture { data.depth as int } else { 1 }, cube: data._type is CubeMap, b: side(data.format) as int, most: Some(data.mipmap_count as int) }, 0, 0) }'''),
            Item(B, 'fn', 'next', within=r'impl Iterator for MipmapFaceIterator', vis='', ret='r', wrap=('', '\n}\n'), rewrite=UNWRITE[1:], spec='requires at_end(*old(self)) || exists|t: Tex, m: int, f: int| stands(*old(self), t, m, f) ensures ' + GOES,
                start='let ghost s0 = *self; proof { assert forall|t: Tex, m: int, f: int| #[trigger] stands(s0, t, m, f) implies stepped(t, m, f) by { step(t, m, f); } }'),
            Item(B, 'fn', 'next', within=r'impl Iterator for MipmapTextureIterator', vis='', ret='r', wrap=('impl MipmapTextureIterator {\n', '\n}\n'), attrs='#[verifier::loop_isolation(false)] ', rewrite=UNWRITE[1:2] + UNWRITE[3:],
                spec='''requires at_end(old(self).inner) || exists|t: Tex, m: int| stands(old(self).inner, t, m, 0)
                ensures at_end(old(self).inner) ==> r is None && at_end(final(self).inner),
                    forall|t: Tex, m: int| #[trigger] stands(old(self).inner, t, m, 0) ==> r is Some && whole(t, m, r->0) && (if t.last(m) { at_end(final(self).inner) } else { stands(final(self).inner, t, m + 1, 0) })''',
                start='let ghost s0 = self.inner; let ghost k = self.inner.next->0.mipmap_index as int; proof { assert forall|t: Tex, m: int, f: int| #[trigger] stands(s0, t, m, f) implies stepped(t, m, f) && t.real(m, f) && t.faces(m) * t.count(m) == t.count(m) * t.faces(m) && 1 * t.count(m) == t.count(m) by { step(t, m, f); assert(t.faces(m) * t.count(m) == t.count(m) * t.faces(m)) by(nonlinear_arith); } flat(s0); }',
                loops=[dict(spec='''invariant at_end(self.inner) || (exists|t: Tex, m: int, f: int| stands(self.inner, t, m, f) && stands(s0, t, k, 0)), at_end(self.inner) ==> (forall|t: Tex, m: int| #[trigger] stands(s0, t, m, 0) ==> t.last(m)),
                    forall|t: Tex, m: int| #[trigger] stands(s0, t, m, 0) && !at_end(self.inner) ==> (if self.inner.next->0.mipmap_index == m { stands(self.inner, t, m, self.inner.next->0.face_index as int) } else { !t.last(m) && stands(self.inner, t, m + 1, 0) })
                    decreases (if at_end(self.inner) { 0int } else if self.inner.next->0.mipmap_index == k { 1 + self.inner.face_count - self.inner.next->0.face_index } else { 0 })''',
                    start='let ghost s1 = self.inner;')],
                at=[(r'match self\.inner\.bitmap_type', 'before', 'let ghost c0 = current;'), (r'while ', 'before', 'proof { assert forall|t: Tex, m: int| #[trigger] stands(s0, t, m, 0) implies whole(t, m, current) by { assert(t.face(m, 0, c0)); assert(0 * t.count(m) == 0); assert(current.block_count == t.count(m) * t.faces(m)); } }')]),
        ]),
]
