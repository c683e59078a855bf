//! P04: fixed-size values are stored exactly, in either byte order, and nothing else is touched.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::byteorder::{BigEndian, ByteOrder, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

/// Bytes of slack around the value, so that every alignment of it in the buffer is tried.
const SLACK: usize = nd::bound(2, 3);
/// Longest value plus slack.
const CAP: usize = 40 + SLACK;

trait Order: ByteOrder { const BIG: bool; }
impl Order for BigEndian { const BIG: bool = true; }
impl Order for LittleEndian { const BIG: bool = false; }

/// Specification of a stored value: its units, each 1, 2 or 4 bytes, in order.
#[derive(Copy, Clone)]
struct Spec { b: [u8; 40], n: usize, big: bool }
impl Spec {
    fn new(big: bool) -> Spec { Spec { b: [0; 40], n: 0, big } }
    fn p8(mut self, v: u8) -> Spec { self.b[self.n] = v; self.n += 1; self }
    fn p16(mut self, v: u16) -> Spec {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[self.n] = x[0]; self.b[self.n + 1] = x[1]; self.n += 2; self
    }
    fn p32(mut self, v: u32) -> Spec {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[self.n] = x[0]; self.b[self.n + 1] = x[1]; self.b[self.n + 2] = x[2]; self.b[self.n + 3] = x[3]; self.n += 4; self
    }
    fn f(self, v: f64) -> Spec { self.p32((v as f32).to_bits()) }
}

/// ensures: the value occupies exactly its declared size, holds the specified bytes, and every other byte is kept.
fn check_write<T: SimpleTagData, B: Order, const C: usize>(v: &T, spec: Spec) {
    let n = spec.n;
    assert!(T::simple_size() == n, "declared size differs from the bytes the format gives the value");
    let mut d: [u8; C] = nd::bytes();
    let o = d;
    let at = nd::offset(SLACK + 1);
    let len = n + SLACK;
    let r = md(v.write::<B>(&mut d[..len], at, at + n));
    assert!(r.is_ok(), "a value that fits is written");
    nd::each(len, |k| {
        let want = if k >= at && k < at + n { spec.b[k - at] } else { o[k] };
        assert!(d[k] == want, "stored bytes differ from the format, or a neighbouring byte changed");
    });
}

/// ensures: any bytes read as the specified value, and reading needs exactly the declared size.
fn check_read<T: SimpleTagData, B: Order, const C: usize>(n: usize, same: impl Fn(&T, &[u8]) -> bool) {
    let d: [u8; C] = nd::bytes();
    let at = nd::offset(SLACK + 1);
    let r = md(T::read::<B>(&d[..n + SLACK], at, at + n));
    match &*r {
        Ok(v) => assert!(same(v, &d[at..at + n]), "bytes read as a different value"),
        Err(_) => assert!(false, "a value that fits is read")
    }
}

/// ensures: reading out of bounds is an error, never a panic; reading in bounds succeeds.
fn check_bounds<T: SimpleTagData>(n: usize) {
    let d: [u8; CAP] = nd::bytes();
    let len = nd::below(n + 2);
    let at = nd::usize();
    let r = md(T::read::<BigEndian>(&d[..len], at, usize::MAX));
    let fits = at <= len && len - at >= n;
    assert!(r.is_ok() == fits, "a read succeeds exactly when the value lies inside the data");
    cover!(fits, "a read that fits");
    cover!(!fits && at > len, "a read past the end");
}

#[inline(always)] fn u16at<B: Order>(b: &[u8], i: usize) -> u16 { let x = [b[i], b[i + 1]]; if B::BIG { u16::from_be_bytes(x) } else { u16::from_le_bytes(x) } }
#[inline(always)] fn u32at<B: Order>(b: &[u8], i: usize) -> u32 { let x = [b[i], b[i + 1], b[i + 2], b[i + 3]]; if B::BIG { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } }
/// the stored float is the 32-bit one
#[inline(always)] fn feq<B: Order>(v: f64, b: &[u8], i: usize) -> bool { let w = f32::from_bits(u32at::<B>(b, i)) as f64; if w.is_nan() { v.is_nan() } else { v.to_bits() == w.to_bits() } }
#[inline(always)] fn fany() -> f64 { let v = f32::from_bits(nd::u32()); nd::assume(!v.is_nan()); v as f64 }

macro_rules! both { ($t:ty, $v:expr, |$s:ident| $spec:expr, $n:literal, $B:ident, |$r:ident, $b:ident| $same:expr) => {{
    fn one<$B: Order>() {
        let v: $t = $v;
        let $s = Spec::new($B::BIG);
        let f = |v: &$t, $s: Spec| -> Spec { let $r = v; let _ = &$r; $spec };
        check_write::<$t, $B, { $n + SLACK }>(&v, f(&v, $s));
    }
    fn two<$B: Order>() { check_read::<$t, $B, { $n + SLACK }>($n, |$r: &$t, $b: &[u8]| $same); }
    // the quick tier proves writing big endian and reading little endian, and executes the other two
    if cfg!(kani) && !nd::DEEP { one::<BigEndian>(); two::<LittleEndian>() }
    else { nd::case(4, |i| match i { 0 => one::<BigEndian>(), 1 => two::<LittleEndian>(), 2 => one::<LittleEndian>(), _ => two::<BigEndian>() }) }
}} }

contracts! {
    proof fits_contract(unwind 4, iters 20000) "tag_data_fits (through u8/u16/f64::read): Ok exactly when the value lies inside the data, at any offset and length" {
        nd::case(2, |i| match i { 0 => check_bounds::<u16>(2), _ => check_bounds::<f64>(4) });
    }
    modular int8(unwind 6, iters 20000) "u8/i8/bool::read, write: exact bytes, frame, value" {
        nd::case(3, |i| match i {
            0 => both!(u8, nd::u8(), |s| s.p8(*r), 1, B, |r, b| *r == b[0]),
            1 => both!(i8, nd::i8(), |s| s.p8(*r as u8), 1, B, |r, b| *r == b[0] as i8),
            _ => both!(bool, nd::bool(), |s| s.p8(if *r { 1 } else { 0 }), 1, B, |r, b| *r == (b[0] != 0)),
        });
    }
    modular int16(unwind 6, iters 20000) "u16/i16/CompressedFloat::read, write: exact bytes, frame, value" {
        nd::case(3, |i| match i {
            0 => both!(u16, nd::u16(), |s| s.p16(*r), 2, B, |r, b| *r == u16at::<B>(b, 0)),
            1 => both!(i16, nd::i16(), |s| s.p16(*r as u16), 2, B, |r, b| *r == u16at::<B>(b, 0) as i16),
            _ => both!(CompressedFloat, CompressedFloat { data: nd::u16() }, |s| s.p16(r.data), 2, B, |r, b| r.data == u16at::<B>(b, 0)),
        });
    }
    modular int32(unwind 6, iters 20000) "u32/i32/usize::read, write: exact bytes, frame, value" {
        nd::case(3, |i| match i {
            0 => both!(u32, nd::u32(), |s| s.p32(*r), 4, B, |r, b| *r == u32at::<B>(b, 0)),
            1 => both!(i32, nd::i32(), |s| s.p32(*r as u32), 4, B, |r, b| *r == u32at::<B>(b, 0) as i32),
            _ => both!(usize, nd::u32() as usize, |s| s.p32(*r as u32), 4, B, |r, b| *r == u32at::<B>(b, 0) as usize),
        });
    }
    deepmodular word32(unwind 6, iters 20000) "ID/Address/CompressedVector2D/3D/ScenarioScriptNodeValue::read, write: exact bytes, frame, value" {
        nd::case(5, |i| match i {
            0 => both!(ID, ID::from_u32(nd::u32()), |s| s.p32(r.as_u32()), 4, B, |r, b| r.as_u32() == u32at::<B>(b, 0)),
            1 => both!(Address, Address { address: nd::u32() }, |s| s.p32(r.address), 4, B, |r, b| r.address == u32at::<B>(b, 0)),
            2 => both!(CompressedVector2D, CompressedVector2D { data: nd::u32() }, |s| s.p32(r.data), 4, B, |r, b| r.data == u32at::<B>(b, 0)),
            3 => both!(CompressedVector3D, CompressedVector3D { data: nd::u32() }, |s| s.p32(r.data), 4, B, |r, b| r.data == u32at::<B>(b, 0)),
            _ => both!(ScenarioScriptNodeValue, ScenarioScriptNodeValue { data: nd::u32() }, |s| s.p32(r.data), 4, B, |r, b| r.data == u32at::<B>(b, 0)),
        });
    }
    deepmodular color32(unwind 6, iters 20000) "ColorARGBInt/ColorARGBIntBytes::read, write: exact bytes, frame, value" {
        nd::case(2, |i| match i {
            0 => both!(ColorARGBInt, ColorARGBInt { color: nd::u32() }, |s| s.p32(r.color), 4, B, |r, b| r.color == u32at::<B>(b, 0)),
            _ => both!(ColorARGBIntBytes, ColorARGBIntBytes { alpha: nd::u8(), red: nd::u8(), green: nd::u8(), blue: nd::u8() },
                |s| s.p32(u32::from_be_bytes([r.alpha, r.red, r.green, r.blue])), 4, B,
                |r, b| u32::from_be_bytes([r.alpha, r.red, r.green, r.blue]) == u32at::<B>(b, 0)),
        });
    }
    deepmodular float32(unwind 6, iters 20000) "f64/Angle::read, write: the nearest 32-bit float, frame, value" {
        nd::case(3, |i| match i {
            0 => both!(f64, fany(), |s| s.f(*r), 4, B, |r, b| feq::<B>(*r, b, 0)),
            1 => both!(Angle, Angle { angle: fany() as f32 }, |s| s.p32(r.angle.to_bits()), 4, B, |r, b| r.angle.to_bits() == u32at::<B>(b, 0)),
            _ => {
                // a double that is not a 32-bit float is rounded to the nearest one
                let v = f64::from_bits(nd::u64());
                nd::assume(!v.is_nan());
                check_write::<f64, BigEndian, { 4 + SLACK }>(&v, Spec::new(true).f(v));
            }
        });
    }
    modular index(unwind 6, iters 20000) "Option<u16>::read, write: null is FFFF; FFFF itself is refused and nothing is written" {
        let v: Index = if nd::bool() { Some(nd::u16()) } else { None };
        if v == Some(0xFFFF) {
            let mut d: [u8; 4] = nd::bytes();
            let o = d;
            let r = md(v.write::<BigEndian>(&mut d, 1, 3));
            assert!(r.is_err() && d == o, "an index that would read back as null is refused");
            cover!(true, "index FFFF");
        }
        else {
            both!(Index, v_index(), |s| s.p16(r.unwrap_or(0xFFFF)), 2, B, |r, b| *r == (match u16at::<B>(b, 0) { 0xFFFF => None, n => Some(n) }));
        }
    }
    proof big_size(unwind 9, iters 5000) "usize::write: sizes over 32 bits are refused and nothing is written" {
        let v = nd::usize();
        let mut d: [u8; 6] = nd::bytes();
        let o = d;
        let r = md(v.write::<LittleEndian>(&mut d, 1, 5));
        assert!(r.is_ok() == (v <= u32::MAX as usize), "a size is written exactly when 32 bits can hold it");
        if r.is_err() { assert!(d == o) } else { assert!(u32::from_le_bytes([d[1], d[2], d[3], d[4]]) as usize == v) }
        cover!(r.is_err(), "a size over 32 bits");
    }
    modular vector_int(unwind 6, iters 20000) "Vector2DInt/Rectangle::read, write: component order, frame, value" {
        nd::case(2, |i| match i {
            0 => both!(Vector2DInt, Vector2DInt { x: nd::i16(), y: nd::i16() }, |s| s.p16(r.x as u16).p16(r.y as u16), 4, B,
                |r, b| r.x as u16 == u16at::<B>(b, 0) && r.y as u16 == u16at::<B>(b, 2)),
            _ => both!(Rectangle, Rectangle { top: nd::i16(), left: nd::i16(), bottom: nd::i16(), right: nd::i16() },
                |s| s.p16(r.top as u16).p16(r.left as u16).p16(r.bottom as u16).p16(r.right as u16), 8, B,
                |r, b| r.top as u16 == u16at::<B>(b, 0) && r.left as u16 == u16at::<B>(b, 2) && r.bottom as u16 == u16at::<B>(b, 4) && r.right as u16 == u16at::<B>(b, 6)),
        });
    }
    deepmodular vector2(unwind 6, iters 20000) "Vector2D/Euler2D::read, write: component order, frame, value" {
        nd::case(2, |i| match i {
            0 => both!(Vector2D, Vector2D { x: fany(), y: fany() }, |s| s.f(r.x).f(r.y), 8, B, |r, b| feq::<B>(r.x, b, 0) && feq::<B>(r.y, b, 4)),
            _ => both!(Euler2D, Euler2D { yaw: Angle { angle: fany() as f32 }, pitch: Angle { angle: fany() as f32 } }, |s| s.p32(r.yaw.angle.to_bits()).p32(r.pitch.angle.to_bits()), 8, B,
                |r, b| r.yaw.angle.to_bits() == u32at::<B>(b, 0) && r.pitch.angle.to_bits() == u32at::<B>(b, 4)),
        });
    }
    modular vector3(unwind 6, iters 20000) "Vector3D::read, write: component order, frame, value" {
        both!(Vector3D, Vector3D { x: fany(), y: fany(), z: fany() }, |s| s.f(r.x).f(r.y).f(r.z), 12, B,
            |r, b| feq::<B>(r.x, b, 0) && feq::<B>(r.y, b, 4) && feq::<B>(r.z, b, 8))
    }
    deepmodular euler3(unwind 6, iters 20000) "Euler3D::read, write: component order, frame, value" {
        both!(Euler3D, Euler3D { yaw: Angle { angle: fany() as f32 }, pitch: Angle { angle: fany() as f32 }, roll: Angle { angle: fany() as f32 } },
            |s| s.p32(r.yaw.angle.to_bits()).p32(r.pitch.angle.to_bits()).p32(r.roll.angle.to_bits()), 12, B,
            |r, b| r.yaw.angle.to_bits() == u32at::<B>(b, 0) && r.pitch.angle.to_bits() == u32at::<B>(b, 4) && r.roll.angle.to_bits() == u32at::<B>(b, 8))
    }
    deepmodular quaternion(unwind 6, iters 20000) "Quaternion::read, write: component order, frame, value" {
        both!(Quaternion, Quaternion { x: fany(), y: fany(), z: fany(), w: fany() }, |s| s.f(r.x).f(r.y).f(r.z).f(r.w), 16, B,
            |r, b| feq::<B>(r.x, b, 0) && feq::<B>(r.y, b, 4) && feq::<B>(r.z, b, 8) && feq::<B>(r.w, b, 12))
    }
    deepmodular color_argb(unwind 6, iters 20000) "ColorARGBFloat::read, write: component order, frame, value" {
        both!(ColorARGBFloat, ColorARGBFloat { alpha: fany(), red: fany(), green: fany(), blue: fany() }, |s| s.f(r.alpha).f(r.red).f(r.green).f(r.blue), 16, B,
            |r, b| feq::<B>(r.alpha, b, 0) && feq::<B>(r.red, b, 4) && feq::<B>(r.green, b, 8) && feq::<B>(r.blue, b, 12))
    }
    deepmodular color_rgb(unwind 6, iters 20000) "ColorRGBFloat::read, write: component order, frame, value" {
        both!(ColorRGBFloat, ColorRGBFloat { red: fany(), green: fany(), blue: fany() }, |s| s.f(r.red).f(r.green).f(r.blue), 12, B,
            |r, b| feq::<B>(r.red, b, 0) && feq::<B>(r.green, b, 4) && feq::<B>(r.blue, b, 8))
    }
    deepmodular plane2(unwind 6, iters 20000) "Plane2D::read, write, size: component order, frame, value" {
        both!(Plane2D, Plane2D { vector: Vector2D { x: fany(), y: fany() }, d: fany() }, |s| s.f(r.vector.x).f(r.vector.y).f(r.d), 12, B,
            |r, b| feq::<B>(r.vector.x, b, 0) && feq::<B>(r.vector.y, b, 4) && feq::<B>(r.d, b, 8))
    }
    modular plane3(unwind 6, iters 20000) "Plane3D::read, write, size: component order, frame, value" {
        both!(Plane3D, Plane3D { vector: Vector3D { x: fany(), y: fany(), z: fany() }, d: fany() }, |s| s.f(r.vector.x).f(r.vector.y).f(r.vector.z).f(r.d), 16, B,
            |r, b| feq::<B>(r.vector.x, b, 0) && feq::<B>(r.vector.y, b, 4) && feq::<B>(r.vector.z, b, 8) && feq::<B>(r.d, b, 12))
    }
    native matrix(iters 20000) "Matrix3x3::read, write: component order, frame, value" {
        let v = || Vector3D { x: fany(), y: fany(), z: fany() };
        both!(Matrix3x3, matrix_any(), |s| { let [a, b, c] = &r.vectors; s.f(a.x).f(a.y).f(a.z).f(b.x).f(b.y).f(b.z).f(c.x).f(c.y).f(c.z) }, 36, B,
            |r, b| (0..3).all(|i| feq::<B>(r.vectors[i].x, b, i * 12) && feq::<B>(r.vectors[i].y, b, i * 12 + 4) && feq::<B>(r.vectors[i].z, b, i * 12 + 8)));
        let _ = v;
    }
    deepmodular array(unwind 6, iters 20000) "[u16; 3]::read, write: element order, frame, value" {
        both!([u16; 3], [nd::u16(), nd::u16(), nd::u16()], |s| s.p16(r[0]).p16(r[1]).p16(r[2]), 6, B,
            |r, b| r[0] == u16at::<B>(b, 0) && r[1] == u16at::<B>(b, 2) && r[2] == u16at::<B>(b, 4))
    }
    modular reflexive_header(unwind 9, iters 20000) "ReflexiveC::read, write: count, address, 4 zero bytes" {
        both!(ReflexiveC<u32>, ReflexiveC::with_params(nd::u32(), Address { address: nd::u32() }), |s| s.p32(r.count).p32(r.address.address).p32(0), 12, B,
            |r, b| r.count == u32at::<B>(b, 0) && r.address.address == u32at::<B>(b, 4))
    }
    modular data_header(unwind 9, iters 20000) "DataC::read, write: size, flags, file offset, address, 4 zero bytes" {
        both!(DataC, DataC { size: nd::u32(), flags: nd::u32(), file_offset: nd::u32(), address: Address { address: nd::u32() }, ..Default::default() },
            |s| s.p32(r.size).p32(r.flags).p32(r.file_offset).p32(r.address.address).p32(0), 20, B,
            |r, b| r.size == u32at::<B>(b, 0) && r.flags == u32at::<B>(b, 4) && r.file_offset == u32at::<B>(b, 8) && r.address.address == u32at::<B>(b, 12))
    }
    proof padding(unwind 12, iters 20000) "Padding::read, write: reserves and zeroes exactly its size" {
        both!(Padding<[u8; 7]>, Padding::default(), |s| s.p8(0).p8(0).p8(0).p8(0).p8(0).p8(0).p8(0), 7, B, |_r, _b| true)
    }
    deep out_of_bounds_scalar(unwind 6, iters 20000) "u8/u16/u32/f64/Index::read: error exactly when out of bounds, at any offset" {
        nd::case(4, |i| match i { 0 => check_bounds::<u8>(1), 1 => check_bounds::<u16>(2), 2 => check_bounds::<f64>(4), _ => check_bounds::<Index>(2) });
    }
    deep out_of_bounds_compound(unwind 6, iters 20000) "Vector3D/Plane3D/Rectangle::read: error exactly when out of bounds, at any offset" {
        nd::case(3, |i| match i { 0 => check_bounds::<Vector3D>(12), 1 => check_bounds::<Plane3D>(16), _ => check_bounds::<Rectangle>(8) });
    }
    deep out_of_bounds_headers(unwind 6, iters 20000) "ReflexiveC/DataC/Plane2D::read: error exactly when the fields read are out of bounds" {
        nd::case(2, |i| match i { 0 => check_bounds::<Plane2D>(12), _ => check_bounds::<ColorARGBFloat>(16) });
    }
    modular as_bytes_local(unwind 6, iters 5000) "as_bytes: exactly the stored bytes" {
        let v = Rectangle { top: nd::i16(), left: nd::i16(), bottom: nd::i16(), right: nd::i16() };
        let r = md(v.as_bytes::<BigEndian>());
        match &*r {
            Ok(b) => {
                let s = Spec::new(true).p16(v.top as u16).p16(v.left as u16).p16(v.bottom as u16).p16(v.right as u16);
                let b = b.bytes();
                assert!(b.len() == 8);
                nd::each(8, |k| assert!(b[k] == s.b[k], "as_bytes differs from what write stores"));
            },
            Err(_) => assert!(false)
        }
    }
    native as_bytes_heap(iters 3000) "as_bytes, to_vec: exactly the stored bytes, also above the local buffer size" {
        let m = matrix_any();
        let mut want = vec![0u8; 36];
        m.write::<LittleEndian>(&mut want, 0, 36).unwrap();
        let got = m.as_bytes::<LittleEndian>().unwrap();
        assert_eq!(got.bytes(), &want[..]);
        assert_eq!(got.to_vec(), want);
        let a: [u32; 8] = [nd::u32(); 8];
        let got = a.as_bytes::<BigEndian>().unwrap();
        assert_eq!(got.bytes().len(), 32);
        assert_eq!(got.clone().to_vec(), got.bytes());
        for i in 0..8 { assert_eq!(got.bytes()[i * 4..i * 4 + 4], a[i].to_be_bytes()) }
        let b: [u16; 17] = [nd::u16(); 17];
        let got = b.as_bytes::<BigEndian>().unwrap();
        assert_eq!(got.bytes().len(), 34);
        assert_eq!(got.bytes()[32..34], b[16].to_be_bytes());
    }
    native chunk_iterator(iters 20000) "read_chunks_to_iterator: error unless evenly divisible; yields every element once, in order, from both ends (buffers up to 8 bytes)" {
        let d: [u8; 8] = nd::bytes();
        let len = nd::below(9);
        let r = md(u16::read_chunks_to_iterator::<BigEndian>(&d[..len]));
        match &*r {
            Err(_) => assert!(len % 2 != 0, "evenly divisible data is accepted"),
            Ok(_) => {
                assert!(len % 2 == 0, "a partial element is refused");
                let n = len / 2;
                let Ok(mut it) = md(u16::read_chunks_to_iterator::<BigEndian>(&d[..len])).take_inner() else { return };
                assert!(it.size_hint() == (n, Some(n)));
                let back = nd::bool();
                let x = md(if back { it.next_back() } else { it.next() });
                let i = if back { n.wrapping_sub(1) } else { 0 };
                match &*x {
                    None => assert!(n == 0),
                    Some(Ok(v)) => assert!(n > 0 && *v == u16::from_be_bytes([d[i * 2], d[i * 2 + 1]]), "element differs from the bytes at its place"),
                    Some(Err(_)) => assert!(false)
                }
                assert!(it.size_hint().0 == n.saturating_sub(1));
                cover!(n == 4 && back, "four elements from the back");
            }
        }
    }
    native chunk_iterator_all(iters 3000) "read_chunks_to_iterator, into_infallible: the whole sequence, forwards and backwards" {
        let n = nd::below(40);
        let d: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
        fn go<T: SimpleTagData + PartialEq + core::fmt::Debug>(d: &[u8]) {
            let size = T::simple_size();
            match T::read_chunks_to_iterator::<LittleEndian>(d) {
                Err(_) => assert!(d.len() % size != 0),
                Ok(it) => {
                    assert!(d.len() % size == 0);
                    let v: Vec<T> = it.map(|x| x.unwrap()).collect();
                    assert_eq!(v.len(), d.len() / size);
                    let w: Vec<T> = T::read_chunks_to_iterator::<LittleEndian>(d).unwrap().into_infallible().rev().collect();
                    assert!(v.iter().eq(w.iter().rev()));
                    for (i, x) in v.iter().enumerate() { assert!(*x == T::read::<LittleEndian>(d, i * size, d.len()).unwrap()) }
                }
            }
        }
        go::<u8>(&d); go::<u32>(&d); go::<Vector2DInt>(&d); go::<Rectangle>(&d); go::<ID>(&d);
    }
}

trait TakeInner { type T; fn take_inner(self) -> Self::T; }
impl<T> TakeInner for crate::MD<T> { type T = T; #[inline(always)] fn take_inner(self) -> T { crate::MD::into_inner(self) } }

fn v_index() -> Index { if nd::bool() { let v = nd::u16(); nd::assume(v != 0xFFFF); Some(v) } else { None } }
fn matrix_any() -> Matrix3x3 { Matrix3x3 { vectors: [(); 3].map(|_| Vector3D { x: fany(), y: fany(), z: fany() }) } }
