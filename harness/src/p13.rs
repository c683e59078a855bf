//! P13: compressed numbers, vectors, colors and angles convert as documented, to the precision of the stored form.
use crate::{cover, nd, Contract};
use ringhopper_primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

/// The value a signed fraction of `bits` bits stands for: two's complement, scaled so both ends are exactly one.
fn fraction(code: u32, bits: u32) -> f64 {
    let top = 1i64 << (bits - 1);
    let raw = (code & ((1u64 << bits) - 1) as u32) as i64;
    let signed = if raw >= top { raw - 2 * top } else { raw };
    if signed < 0 { signed as f64 / top as f64 } else { signed as f64 / (top - 1) as f64 }
}

/// `code` is a nearest representation of `v`, and does not change its sign.
fn nearest(v: f64, code: u32, bits: u32) -> bool {
    let top = 1i64 << (bits - 1);
    let raw = (code & ((1u64 << bits) - 1) as u32) as i64;
    let signed = if raw >= top { raw - 2 * top } else { raw };
    let v = if v > 1.0 { 1.0 } else if v < -1.0 { -1.0 } else { v };
    let exact = if v < 0.0 { v * top as f64 } else { v * (top - 1) as f64 };
    (signed as f64 - exact).abs() <= 0.500001 && (v < 0.0 || signed >= 0) && (v > 0.0 || signed <= 0)
}

/// Any finite number.
fn finite() -> f64 {
    let v = f64::from_bits(nd::u64());
    nd::assume(v.is_finite());
    v
}

/// Numbers a component may hold: mostly within range, and often close to zero or to a border between codes.
fn component() -> f64 {
    let k = nd::u8() % 8;
    let x = nd::u32();
    let unit = x as f64 / u32::MAX as f64 * 2.0 - 1.0;
    match k {
        0 => unit * 1e-3,
        1 => unit * 1e-5,
        2 => unit * 1e-12,
        3 => (((x % 4097) as f64) - 2048.0 + 0.499) / 2048.0,
        4 => (((x % 65537) as f64) - 32768.0 - 0.499) / 32768.0,
        5 => unit * 3.0,
        6 => [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, f64::MIN_POSITIVE, -f64::MIN_POSITIVE][x as usize % 8],
        _ => unit,
    }
}

fn near(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-12 * (1.0 + a.abs().max(b.abs())) }

contracts! {
    proof compressed_decode(unwind 2, iters 80000) "f64::from(CompressedFloat): every code is its two's-complement fraction" {
        let data = nd::u16();
        assert!(f64::from(CompressedFloat { data }) == fraction(data as u32, 16));
    }
    proof compressed_encode(unwind 2, iters 80000) "CompressedFloat::from(f64): the nearest code, on the same side of zero; what is out of range is the nearest end" {
        let v = finite();
        let c = CompressedFloat::from(v);
        assert!(nearest(v, c.data as u32, 16), "a number is compressed to the nearest code");
    }
    native compressed_every_float(unwind 2, iters 1) "CompressedFloat::from(f64), on every number a tag file can hold (all finite 32-bit floats, counted out): the nearest code" {
        static ONCE: std::sync::Once = std::sync::Once::new();
        let mut first = false;
        ONCE.call_once(|| first = true);
        if !first { return }
        // beyond two in size every number is at an end: those are sampled, all others are counted out
        let workers: Vec<_> = (0..8u32).map(|w| std::thread::spawn(move || {
            let mut bits = w;
            while bits <= 0x4000_0000 {
                for b in [bits, bits | 0x8000_0000] {
                    let v = f32::from_bits(b) as f64;
                    let c = CompressedFloat::from(v);
                    assert!(nearest(v, c.data as u32, 16), "{v:e} is compressed to {:04X} = {:e}", c.data, fraction(c.data as u32, 16));
                }
                bits += 8;
            }
        })).collect();
        for w in workers { if let Err(e) = w.join() { std::panic::resume_unwind(e) } }
    }
    native compressed_near_zero(unwind 2, iters 80000) "CompressedFloat::from(f64), on numbers near zero and near the borders between codes" {
        let v = component();
        let c = CompressedFloat::from(v);
        assert!(nearest(v, c.data as u32, 16), "{v:e} is compressed to {:04X} = {:e}", c.data, fraction(c.data as u32, 16));
    }
    native compressed_every_code(unwind 2, iters 1) "CompressedFloat: every one of the 65536 codes comes back unchanged" {
        for data in 0..=u16::MAX {
            let c = CompressedFloat { data };
            assert!(CompressedFloat::from(f64::from(c)) == c, "code {data:04X} comes back");
        }
    }
    proof vector3_decode(unwind 2, iters 80000) "Vector3D::from(CompressedVector3D): each component is the fraction in its own bits: 11 of x, 11 of y, 10 of z" {
        let data = nd::u32();
        let v = Vector3D::from(CompressedVector3D { data });
        assert!(v.x == fraction(data, 11) && v.y == fraction(data >> 11, 11) && v.z == fraction(data >> 22, 10), "11 bits of x, 11 of y, 10 of z");
    }
    proof vector2_decode(unwind 2, iters 80000) "Vector2D::from(CompressedVector2D): each component is the fraction in its own 16 bits" {
        let data = nd::u32();
        let v = Vector2D::from(CompressedVector2D { data });
        assert!(v.x == fraction(data, 16) && v.y == fraction(data >> 16, 16), "16 bits each");
    }
    proof vector3_encode(unwind 2, iters 60000) "CompressedVector3D::from(Vector3D): every component goes to the nearest code in its own bits, whatever the others are" {
        let (x, y, z) = (finite(), finite(), finite());
        let c = CompressedVector3D::from(Vector3D { x, y, z }).data;
        assert!(nearest(x, c, 11), "x is compressed to the nearest code");
        assert!(nearest(y, c >> 11, 11), "y is compressed to the nearest code");
        assert!(nearest(z, c >> 22, 10), "z is compressed to the nearest code");
    }
    deep vector2_encode(unwind 2, iters 60000) "CompressedVector2D::from(Vector2D): every component goes to the nearest code in its own bits, whatever the other is" {
        let (x, y) = (finite(), finite());
        let c = CompressedVector2D::from(Vector2D { x, y }).data;
        assert!(nearest(x, c, 16), "x is compressed to the nearest code");
        assert!(nearest(y, c >> 16, 16), "y is compressed to the nearest code");
    }
    proof vector3_codes(unwind 2, iters 60000) "CompressedVector3D: what a code decodes to encodes to it again" {
        let data = nd::u32();
        assert!(CompressedVector3D::from(Vector3D::from(CompressedVector3D { data })).data == data, "the code comes back");
    }
    proof vector2_codes(unwind 2, iters 60000) "CompressedVector2D: what a code decodes to encodes to it again" {
        let data = nd::u32();
        assert!(CompressedVector2D::from(Vector2D::from(CompressedVector2D { data })).data == data, "the code comes back");
    }
    native vectors_near_zero(unwind 2, iters 120000) "CompressedVector2D::from, CompressedVector3D::from, on components near zero and near the borders between codes" {
        let (x, y, z) = (component(), component(), component());
        let c = CompressedVector3D::from(Vector3D { x, y, z }).data;
        assert!(nearest(x, c, 11), "x of ({x:e}, {y:e}, {z:e}) is compressed to {:e}", fraction(c, 11));
        assert!(nearest(y, c >> 11, 11), "y of ({x:e}, {y:e}, {z:e}) is compressed to {:e}", fraction(c >> 11, 11));
        assert!(nearest(z, c >> 22, 10), "z of ({x:e}, {y:e}, {z:e}) is compressed to {:e}", fraction(c >> 22, 10));
        let c = CompressedVector2D::from(Vector2D { x, y }).data;
        assert!(nearest(x, c, 16) && nearest(y, c >> 16, 16), "({x:e}, {y:e}) is compressed to {c:08X}");
    }
    proof color_ints(unwind 2, iters 60000) "ColorARGBInt, ColorARGBIntBytes from/into u32 and each other, from_y8, from_a8y8: alpha, red, green, blue from the top byte down" {
        let v = nd::u32();
        let [alpha, red, green, blue] = v.to_be_bytes();
        let b = ColorARGBIntBytes { alpha, red, green, blue };
        assert!(ColorARGBIntBytes::from(v) == b && u32::from(b) == v);
        assert!(ColorARGBInt::from(v).color == v && u32::from(ColorARGBInt { color: v }) == v);
        assert!(ColorARGBInt::from(b).color == v && ColorARGBIntBytes::from(ColorARGBInt { color: v }) == b);
        assert!(u32::from(ColorARGBInt::from_y8(blue)) == u32::from_be_bytes([255, blue, blue, blue]), "luminosity alone is opaque");
        assert!(u32::from(ColorARGBInt::from_a8y8(v as u16)) == u32::from_be_bytes([green, blue, blue, blue]), "alpha is the high byte");
    }
    native color_codes(unwind 2, iters 60000) "Color::rgb_float, alpha_float, from_argb_float, clamp: 8-bit channels are 255ths, and come back; what is out of range is the nearest end" {
        let v = nd::u32();
        let [a, r, g, b] = v.to_be_bytes();
        let c = ColorARGBInt { color: v };
        let f = c.rgb_float();
        assert!(f.red == r as f64 / 255.0 && f.green == g as f64 / 255.0 && f.blue == b as f64 / 255.0 && c.alpha_float() == a as f64 / 255.0, "channels of {v:08X}");
        let full = ColorARGBFloat { alpha: c.alpha_float(), red: f.red, green: f.green, blue: f.blue };
        assert!(ColorARGBInt::from_argb_float(&full) == c, "{v:08X} comes back from floating point");
        assert!(ColorARGBIntBytes::from_argb_float(&full) == ColorARGBIntBytes::from(v));
        assert!(c.clamp() == c && f.alpha_float() == 1.0 && f.rgb_float() == f && ColorRGBFloat::from_argb_float(&full) == f);
        assert!(full.rgb_float() == f && full.alpha_float() == c.alpha_float());
        let wild = ColorARGBFloat { alpha: component(), red: component(), green: component(), blue: component() };
        let cut = |v: f64| if v < 0.0 { 0.0 } else if v > 1.0 { 1.0 } else { v };
        let k = wild.clamp();
        assert!(k.alpha == cut(wild.alpha) && k.red == cut(wild.red) && k.green == cut(wild.green) && k.blue == cut(wild.blue), "{wild:?} is clamped to {k:?}");
        let i = ColorARGBIntBytes::from_argb_float(&wild);
        for (got, v) in [(i.alpha, wild.alpha), (i.red, wild.red), (i.green, wild.green), (i.blue, wild.blue)] {
            assert!(got as f64 <= cut(v) * 255.0 && got as f64 > cut(v) * 255.0 - 1.0, "{v:e} as 8 bits is {got}");
        }
        assert!(ColorARGBInt::from_argb_float(&wild) == ColorARGBInt::from(i));
    }
    native color_math(unwind 2, iters 60000) "Color::luma, gamma_compress, gamma_decompress, alpha_blend, vector_normalize: the documented formulas; alpha untouched where documented" {
        let (a, b) = (ColorARGBFloat { alpha: component().abs().min(1.0), red: component(), green: component(), blue: component() },
            ColorARGBFloat { alpha: component().abs().min(1.0), red: component(), green: component(), blue: component() });
        let (ca, cb) = (a.rgb_float().clamp(), b.rgb_float().clamp());
        let y = ca.red * 0.2126 + ca.green * 0.7152 + ca.blue * 0.0722;
        assert!(near(a.luma(), y) || ((ca.red == ca.green && ca.red == ca.blue) && a.luma() == ca.red), "brightness of {a:?}");
        let (g, d) = (a.gamma_compress(), a.gamma_decompress());
        assert!(g.alpha == a.alpha && d.alpha == a.alpha, "gamma correction leaves alpha");
        assert!(near(g.red, ca.red.sqrt()) && near(g.green, ca.green.sqrt()) && near(g.blue, ca.blue.sqrt()), "gamma compression of {a:?}");
        assert!(near(d.red, ca.red * ca.red) && near(d.green, ca.green * ca.green) && near(d.blue, ca.blue * ca.blue), "gamma decompression of {a:?}");
        let m = a.alpha_blend(&b);
        let keep = a.alpha * (1.0 - b.alpha);
        assert!(near(m.alpha, b.alpha + keep), "alpha of the blend");
        for (got, under, over) in [(m.red, ca.red, cb.red), (m.green, ca.green, cb.green), (m.blue, ca.blue, cb.blue)] {
            assert!(near(got, over * b.alpha + under * keep), "blend of {under} under {over}");
        }
        // vector maps have (0.5, 0.5, 0.5) as their origin, and directions half a unit long
        let n = a.vector_normalize();
        assert!(n.alpha == a.alpha, "normalisation leaves alpha");
        let from = Vector3D { x: ca.red - 0.5, y: ca.green - 0.5, z: ca.blue - 0.5 };
        let to = Vector3D { x: n.red - 0.5, y: n.green - 0.5, z: n.blue - 0.5 };
        let len = (from.x * from.x + from.y * from.y + from.z * from.z).sqrt();
        let out = (to.x * to.x + to.y * to.y + to.z * to.z).sqrt();
        assert!((out - 0.5).abs() < 1e-9, "the color vector of {a:?} is {out} long");
        if len > 1e-6 {
            assert!((from.x / len - to.x / out).abs() < 1e-6 && (from.y / len - to.y / out).abs() < 1e-6 && (from.z / len - to.z / out).abs() < 1e-6, "the direction is kept");
        }
    }
    native vector_math(unwind 2, iters 60000) "Vector, Plane and operators of Vector2D, Vector3D, Quaternion: component by component; normalisation gives the length asked for in the same direction" {
        let big = [1.0, 1e-30, 1e30, 1e-40, 1e-10, 250.0][nd::u8() as usize % 6];
        let mut c = || component() * big;
        let a = [c(), c(), c(), c()];
        let b = [c(), c(), c(), c()];
        let s = component() * 2.0;
        let unit = [1.0, 0.5, 2.0, 0.001, 100.0][nd::u8() as usize % 5];
        macro_rules! algebra {
            ($t:ident, $plane:expr, $n:expr, $($f:ident $i:expr),*) => {{
                let (v, w) = ($t { $($f: a[$i]),* }, $t { $($f: b[$i]),* });
                let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
                $(
                    assert!(same((v + w).$f, a[$i] + b[$i]) && same((v - w).$f, a[$i] - b[$i]), "sum and difference of {v:?} and {w:?}");
                    assert!(same((v * w).$f, a[$i] * b[$i]) && same((v / w).$f, a[$i] / b[$i]), "product and quotient of {v:?} and {w:?}");
                    assert!(same((v * s).$f, a[$i] * s) && same(v.scale(s).$f, a[$i] * s) && same((-v).$f, -a[$i]), "{v:?} scaled by {s}");
                    assert!($t::zero().$f == 0.0);
                )*
                let (mut p, mut q, mut r, mut t, mut u) = (v, v, v, v, v);
                p += w; q -= w; r *= w; t /= w; u *= s;
                $( assert!(same(p.$f, a[$i] + b[$i]) && same(q.$f, a[$i] - b[$i]) && same(r.$f, a[$i] * b[$i]) && same(t.$f, a[$i] / b[$i]) && same(u.$f, a[$i] * s), "assigning operators on {v:?}"); )*
                let dot = |x: &[f64], y: &[f64]| (0..$n).map(|i| x[i] * y[i]).sum::<f64>();
                let scale = (0..$n).map(|i| (a[i] * b[i]).abs()).sum::<f64>();
                assert!((v.dot(&w) - dot(&a, &b)).abs() <= 1e-12 * scale, "dot product of {v:?} and {w:?}");
                let sq = |x: &[f64]| dot(x, x);
                let delta: Vec<f64> = (0..$n).map(|i| a[i] - b[i]).collect();
                assert!((v.distance_squared(&w) - sq(&delta)).abs() <= 1e-12 * sq(&delta), "squared distance of {v:?} and {w:?}");
                assert!((v.magnitude_squared() - sq(&a)).abs() <= 1e-12 * sq(&a), "squared length of {v:?}");
                assert!($t::one().is_unit_vector() && $t::one().magnitude_squared() == 1.0);
                assert!(v.is_unit_vector() == ((1.0 - v.magnitude_squared()).abs() < 0.00001), "{v:?} is of length one or not");
                let len = sq(&a).sqrt();
                let m = v.normalize_into(unit);
                let out = m.magnitude_squared().sqrt();
                assert!((out - unit).abs() <= 1e-9 * unit, "{v:?} normalised into {unit} is {out} long");
                if len > 0.0 { $( assert!((m.$f / unit - a[$i] / len).abs() < 1e-9, "the direction of {v:?} is kept"); )* }
                let k = v.normalize();
                assert!(k.is_unit_vector(), "{v:?} normalised is a unit vector");
                if len > 0.0 { $( assert!((k.$f - a[$i] / len).abs() < 2e-5, "the direction of {v:?} is kept"); )* }
            }};
        }
        algebra!(Vector2D, (), 2, x 0, y 1);
        algebra!(Vector3D, (), 3, x 0, y 1, z 2);
        algebra!(Quaternion, (), 4, x 0, y 1, z 2, w 3);
        let d = component();
        let tol = |n: usize| 1e-12 * ((0..n).map(|i| (a[i] * b[i]).abs()).sum::<f64>() + d.abs());
        let got = Vector2D { x: a[0], y: a[1] }.distance_from_plane(&Plane2D { vector: Vector2D { x: b[0], y: b[1] }, d });
        assert!((got - (a[0] * b[0] + a[1] * b[1] - d)).abs() <= tol(2), "distance from a 2D plane");
        let got = Vector3D { x: a[0], y: a[1], z: a[2] }.distance_from_plane(&Plane3D { vector: Vector3D { x: b[0], y: b[1], z: b[2] }, d });
        assert!((got - (a[0] * b[0] + a[1] * b[1] + a[2] * b[2] - d)).abs() <= tol(3), "distance from a 3D plane");
    }
    native angles(unwind 2, iters 60000) "Angle: radians are kept, degrees are 180 to pi; operators act on the radians" {
        let (a, b) = (f32::from_bits(nd::u32()), f32::from_bits(nd::u32()));
        nd::assume(a.is_finite() && b.is_finite());
        let same = |x: f32, y: f32| x == y || (x.is_nan() && y.is_nan());
        let (x, y) = (Angle::from_radians(a), Angle::from_radians(b));
        assert!(x.angle == a && x.to_radians() == a && f32::from(x) == a && Angle::from(a) == x);
        assert!(same((x + y).angle, a + b) && same((x - y).angle, a - b) && same((x * y).angle, a * b) && same((x / y).angle, a / b) && same((x * b).angle, a * b) && (-x).angle == -a, "operators on {a} and {b}");
        let (mut p, mut q, mut r, mut t, mut u) = (x, x, x, x, x);
        p += y; q -= y; r *= y; t /= y; u *= b;
        assert!(same(p.angle, a + b) && same(q.angle, a - b) && same(r.angle, a * b) && same(t.angle, a / b) && same(u.angle, a * b), "assigning operators on {a} and {b}");
        let deg = component() as f32 * 360.0;
        let got = Angle::from_degrees(deg).angle as f64;
        let want = deg as f64 * std::f64::consts::PI / 180.0;
        assert!((got - want).abs() <= 1e-6 * want.abs() + 1e-37, "{deg} degrees");
        assert!((Angle::from_degrees(deg).to_degrees() - deg).abs() <= 1e-5 * deg.abs() + 1e-36, "{deg} degrees come back");
    }
    native stored_forms(unwind 2, iters 40000) "SimpleTagData for compressed values, colors, angles, planes, matrices: the raw words in order, nothing else" {
        let v = nd::u32();
        let mut b = [0xAAu8; 12];
        CompressedVector3D { data: v }.write::<LittleEndian>(&mut b, 4, 12).unwrap();
        assert!(b[4..8] == v.to_le_bytes() && b[..4] == [0xAA; 4] && b[8..] == [0xAA; 4]);
        CompressedVector2D { data: v }.write::<BigEndian>(&mut b, 4, 12).unwrap();
        assert!(b[4..8] == v.to_be_bytes());
        assert!(CompressedVector2D::read::<BigEndian>(&b, 4, 12).unwrap().data == v && CompressedVector3D::read::<LittleEndian>(&b, 4, 12).unwrap().data == v.swap_bytes());
        CompressedFloat { data: v as u16 }.write::<BigEndian>(&mut b, 4, 12).unwrap();
        assert!(b[4..6] == (v as u16).to_be_bytes() && CompressedFloat::read::<BigEndian>(&b, 4, 12).unwrap().data == v as u16);
        ColorARGBInt { color: v }.write::<LittleEndian>(&mut b, 0, 12).unwrap();
        assert!(b[..4] == v.to_le_bytes() && ColorARGBIntBytes::read::<LittleEndian>(&b, 0, 12).unwrap() == ColorARGBIntBytes::from(v));
        let mut m = [0u8; 36];
        for x in &mut m { *x = nd::u8() & 0x3F }
        let matrix = Matrix3x3::read::<BigEndian>(&m, 0, 36).unwrap();
        let at = |i: usize| f32::from_be_bytes(m[i * 4..i * 4 + 4].try_into().unwrap()) as f64;
        for r in 0..3 { assert!(matrix.vectors[r] == Vector3D { x: at(r * 3), y: at(r * 3 + 1), z: at(r * 3 + 2) }, "row {r}") }
        let mut back = [0u8; 36];
        matrix.write::<BigEndian>(&mut back, 0, 36).unwrap();
        assert!(back == m);
        let p = Plane3D::read::<BigEndian>(&m, 0, 36).unwrap();
        assert!(p.vector == Vector3D { x: at(0), y: at(1), z: at(2) } && p.d == at(3));
        let q = Plane2D::read::<BigEndian>(&m, 0, 36).unwrap();
        assert!(q.vector == Vector2D { x: at(0), y: at(1) } && q.d == at(2));
        cover!(true, "forms");
    }
}
