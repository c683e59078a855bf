//! P11: bitmap pixel layout: sizes of formats, levels and faces, swizzled order, compressed color plates.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::tag::bitmap::*;
use ringhopper::tag::recover::get_recover_function;
use ringhopper::data::bitmap::{plate::make_color_plate_from_loose, Image};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::{Bitmap, BitmapData, BitmapDataFormat, BitmapDataType};
use std::num::NonZeroUsize;

/// format, bits of a pixel, pixels on a side of a block
const FORMATS: [(BitmapDataFormat, usize, usize); 14] = [
    (BitmapDataFormat::A8, 8, 1), (BitmapDataFormat::Y8, 8, 1), (BitmapDataFormat::AY8, 8, 1), (BitmapDataFormat::A8Y8, 16, 1), (BitmapDataFormat::R5G6B5, 16, 1), (BitmapDataFormat::A1R5G5B5, 16, 1), (BitmapDataFormat::A4R4G4B4, 16, 1),
    (BitmapDataFormat::X8R8G8B8, 32, 1), (BitmapDataFormat::A8R8G8B8, 32, 1), (BitmapDataFormat::DXT1, 4, 4), (BitmapDataFormat::DXT3, 8, 4), (BitmapDataFormat::DXT5, 8, 4), (BitmapDataFormat::P8, 8, 1), (BitmapDataFormat::BC7, 8, 4)
];

/// bits of two or three coordinates in turns
fn weave(c: &[usize], n: u32) -> usize {
    let mut m = 0;
    let mut k = 0;
    for i in 0..n { for x in c { m |= (x >> i & 1) << k; k += 1 } }
    m
}
/// where the pixel in this column, row and layer is in a swizzled texture
fn place(x: usize, y: usize, z: usize, w: usize, h: usize, d: usize) -> usize {
    if d > 1 { return weave(&[x, y, z], w.trailing_zeros()) }
    let n = w.min(h);
    weave(&[x % n, y % n], n.trailing_zeros()) + (x / n + y / n) * n * n
}
fn swizzled<S: Swizzlable + PartialEq + std::fmt::Debug>(w: usize, h: usize, d: usize, more: usize, mut make: impl FnMut() -> S) {
    let n = w * h * d;
    let image: Vec<S> = (0..n).map(|_| make()).collect();
    let mut blank: Vec<S> = (0..n + more).map(|_| make()).collect();
    let ok = w.is_power_of_two() && h.is_power_of_two() && d.is_power_of_two() && (d == 1 || (w == h && h == d));
    let (mut a, mut b) = (blank.clone(), blank.clone());
    let (r, q) = (swizzle(&image, &mut a, w, h, d, false), swizzle(&image, &mut b, w, h, d, true));
    assert!(r.is_ok() == ok && q.is_ok() == ok, "{w}x{h}x{d}: {r:?} {q:?}");
    if !ok { assert!(a == blank && b == blank, "changed although refused"); cover!(true, "refused"); return }
    for z in 0..d { for y in 0..h { for x in 0..w {
        let (i, k) = (x + w * (y + h * z), place(x, y, z, w, h, d));
        assert!(a[k] == image[i], "{w}x{h}x{d}: pixel ({x}, {y}, {z}) is not stored at {k}");
        assert!(b[i] == image[k], "{w}x{h}x{d}: pixel ({x}, {y}, {z}) is not read from {k}");
    } } }
    assert!(a[n..] == blank[n..] && b[n..] == blank[n..], "changed pixels past the texture");
    blank.truncate(n); a.truncate(n); b.truncate(n);
    swizzle(&a, &mut blank, w, h, d, true).unwrap();
    assert!(blank == image, "deswizzling does not undo swizzling");
    swizzle(&b, &mut blank, w, h, d, false).unwrap();
    assert!(blank == image, "swizzling does not undo deswizzling");
    cover!(d > 1, "3d");
    cover!(d == 1 && w < h && w > 2, "tall");
    cover!(d == 1 && w > h && h > 1, "wide");
}

struct Level { w: usize, h: usize, d: usize, bw: usize, bh: usize, faces: usize, at: usize }
/// Specification of the levels of a texture.
fn levels(w: usize, h: usize, d: usize, cube: bool, b: usize, most: Option<usize>) -> Vec<Level> {
    let mut out = Vec::new();
    let mut at = 0;
    loop {
        let m = out.len();
        let half = |x: usize| (x >> m).max(1);
        let l = Level { w: half(w), h: half(h), d: half(d), bw: half(w).div_ceil(b), bh: half(h).div_ceil(b), faces: if cube { 6 } else { half(d) }, at };
        at += l.bw * l.bh * l.faces;
        let last = l.w == 1 && l.h == 1 && l.d == 1 || most == Some(m);
        out.push(l);
        if last { return out }
    }
}
fn check_levels(want: &[Level], cube: bool, flat: bool, mut faces: MipmapFaceIterator, mut textures: MipmapTextureIterator) {
    for (m, l) in want.iter().enumerate() {
        let mut at = l.at;
        for f in 0..l.faces {
            let x = MipmapMetadata { mipmap_index: m, face_index: f, width: l.w, height: l.h, depth: l.d, block_offset: at, block_width: l.bw, block_height: l.bh, block_count: l.bw * l.bh };
            assert!(faces.next() == Some(x), "face {f} of level {m} is not {x:?}");
            at += l.bw * l.bh;
        }
        let x = MipmapMetadata { mipmap_index: m, face_index: 0, width: l.w, height: l.h, depth: l.d, block_offset: l.at, block_width: l.bw, block_height: l.bh, block_count: l.bw * l.bh * l.faces };
        assert!(textures.next() == Some(x), "level {m} is not {x:?}");
    }
    assert!(faces.next().is_none() && textures.next().is_none() && faces.next().is_none() && textures.next().is_none(), "more levels than there are");
    cover!(cube, "cube"); cover!(!cube && !flat, "3d"); cover!(want.len() == 16, "largest");
}
fn dim(r: &mut Rng) -> usize { match r.below(4) { 0 => 1 + r.below(9), 1 => 1 << r.below(13), 2 => 1 + r.below(0xFFFF), _ => 1 + r.below(300) } }

/// A zlib stream of stored blocks.
pub fn zlib(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 1];
    let mut k = 0;
    loop {
        let n = (d.len() - k).min(1 + r.below(0xFFFF));
        out.push((k + n == d.len()) as u8);
        out.extend((n as u16).to_le_bytes()); out.extend((!n as u16).to_le_bytes());
        out.extend(&d[k..k + n]);
        k += n;
        if k == d.len() { break }
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521 }
    out.extend((b << 16 | a).to_be_bytes());
    out
}

/// bytes of a PNG with this type of color
fn png(r: &mut Rng, w: usize, h: usize, kind: u8, pixels: &[[u8; 4]]) -> Vec<u8> {
    let mut raw = vec![];
    for y in 0..h {
        raw.push(0);
        for p in &pixels[y * w..(y + 1) * w] { match kind { 0 => raw.push(p[0]), 2 => raw.extend(&p[..3]), 4 => { raw.push(p[0]); raw.push(p[3]) }, _ => raw.extend(p) } }
    }
    let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |t: &[u8], d: &[u8]| {
        out.extend((d.len() as u32).to_be_bytes());
        let mut c = t.to_vec(); c.extend(d);
        let sum = !crc(&c);
        out.extend(c); out.extend(sum.to_be_bytes())
    };
    let mut head = (w as u32).to_be_bytes().to_vec();
    head.extend((h as u32).to_be_bytes());
    head.extend([8, kind, 0, 0, 0]);
    chunk(b"IHDR", &head);
    chunk(b"IDAT", &zlib(r, &raw));
    chunk(b"IEND", &[]);
    out
}
struct Gone(std::path::PathBuf);
impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
/// images s0_0, s0_1, ... of a directory, put together
fn plate(seed: u64) {
    let mut r = Rng(seed);
    let dir = Gone(crate::memory::scratch());
    let d = dir.0.join("bitmaps.v1");
    if r.below(40) == 0 { assert!(make_color_plate_from_loose(&d).is_err(), "no directory"); cover!(true, "missing"); return }
    std::fs::create_dir(&d).unwrap();
    // usual colors of the plate itself are as likely as others
    let some: Vec<[u8; 3]> = (0..1 + r.below(6)).map(|_| match r.below(7) { 0 => [0, 0, 255], 1 => [255, 0, 255], 2 => [0; 3], 3 => [255; 3], 4 => [0, 255, 255], _ => [r.u8(), r.u8(), r.u8()] }).collect();
    let mut stored = vec![];
    let count = r.below(5);
    for s in 0..count {
        let mut row = vec![];
        for b in 0..1 + r.below(4) {
            let (w, h) = (1 + r.below(7), 1 + r.below(5));
            let kind = [0, 2, 4, 6, 9][r.below(5)];
            let pixels: Vec<[u8; 4]> = (0..w * h).map(|_| {
                let c = some[r.below(some.len())];
                let gray = kind == 0 || kind == 4;
                let a = if kind == 0 || kind == 2 { 255 } else if r.below(2) == 0 { 255 } else { r.u8() };
                if gray { [c[0], c[0], c[0], a] } else { [c[0], c[1], c[2], a] }
            }).collect();
            let (bytes, ext) = if kind == 9 {
                (Image { width: w, height: h, data: pixels.iter().map(|p| ColorARGBInt::from(ColorARGBIntBytes { alpha: p[3], red: p[0], green: p[1], blue: p[2] })).collect() }.to_tiff(), ["tif", "tiff"][r.below(2)])
            } else { (png(&mut r, w, h, kind, &pixels), "png") };
            std::fs::write(d.join(format!("s{s}_{b}.{ext}")), bytes).unwrap();
            row.push((w, h, pixels, ext));
        }
        stored.push(row);
    }
    let mut bad = false;
    // a gap ends the sequence, a missing sequence everything
    if !stored.is_empty() && r.below(4) == 0 {
        let s = r.below(stored.len());
        let b = r.below(stored[s].len());
        std::fs::remove_file(d.join(format!("s{s}_{b}.{}", stored[s][b].3))).unwrap();
        stored[s].truncate(b);
        if b == 0 { stored.truncate(s) }
        cover!(b == 0, "no sequence"); cover!(b > 0, "gap");
    }
    if r.below(20) == 0 && !stored.is_empty() {
        let s = r.below(stored.len());
        let b = r.below(stored[s].len());
        std::fs::write(d.join(format!("s{s}_{b}.{}", stored[s][b].3)), b"no image").unwrap();
        bad = true;
    }
    if r.below(4) == 0 { std::fs::write(d.join("other.png"), b"").unwrap() }
    // the color of padding
    let mut padding = None;
    if r.below(2) == 0 {
        let c = if r.below(2) == 0 { some[r.below(some.len())] } else { match r.below(4) { 0 => [0, 0, 255], 1 => [255, 0, 255], 2 => [255; 3], _ => [r.u8(), r.u8(), r.u8()] } };
        let hex = |up: bool, n: u8| if up { format!("{n:02X}") } else { format!("{n:02x}") };
        let mut text = "#".to_owned();
        if r.below(3) == 0 {
            let c = c.map(|n| (n & 15) * 17);
            for n in c { text += &hex(r.below(2) == 0, n)[1..] }
            padding = Some(c);
        } else { for n in c { text += &hex(r.below(2) == 0, n) } padding = Some(c) }
        let mut bytes = match r.below(3) { 0 => format!("{text}\r\n"), 1 => format!(" \n{text} \t"), _ => text }.into_bytes();
        if r.below(4) == 0 {
            bad = true;
            bytes = match r.below(9) {
                0 => vec![], 1 => b" \r\n".to_vec(), 2 => b"#12345".to_vec(), 3 => b"123456".to_vec(), 4 => b"#12345g".to_vec(), 5 => "é12345".into(), 6 => ["#é1é1", "#é1", "#€", "#1é345"][r.below(4)].into(), 7 => vec![b'#', 0xFF, b'1', b'2'], _ => ["#", "#+1-1+1", "##11", "#1 2", "#1234567"][r.below(5)].into()
            };
            cover!(true, "bad padding");
        }
        std::fs::write(d.join("padding.txt"), bytes).unwrap();
    }
    let got = make_color_plate_from_loose(&d);
    if bad || stored.is_empty() { assert!(got.is_err(), "made from {stored:?}, padding {padding:?}, bad {bad}"); cover!(stored.is_empty(), "empty"); return }
    let got = got.unwrap_or_else(|e| panic!("refused: {e}"));
    let w = stored.iter().map(|s| s.iter().map(|i| i.0 + 2).sum::<usize>()).max().unwrap().max(4);
    let h = 1 + stored.iter().map(|s| s.iter().map(|i| i.1).max().unwrap() + 3).sum::<usize>();
    assert!(got.width == w && got.height == h && got.data.len() == w * h, "{}x{}, not {w}x{h}", got.width, got.height);
    let at = |x: usize, y: usize| { let c = ColorARGBIntBytes::from(got.data[x + y * w]); [c.red, c.green, c.blue, c.alpha] };
    let used = |c: [u8; 4]| c[3] != 255 || stored.iter().flatten().any(|i| i.2.iter().any(|p| p[..3] == c[..3])) || padding == Some([c[0], c[1], c[2]]);
    let (back, line) = (at(0, 0), at(1, 0));
    let first = |c: [u8; 4], given: [u8; 4]| if used(given) { !used(c) } else { c == given };
    assert!(first(back, [0, 0, 255, 255]), "background {back:?}");
    assert!(first(line, [255, 0, 255, 255]) && line != back, "divider {line:?}, background {back:?}");
    cover!(used([0, 0, 255, 255]), "other background"); cover!(used([255, 0, 255, 255]), "other divider");
    let mut want = vec![back; w * h];
    want[1] = line;
    if let Some(c) = padding { want[2] = [c[0], c[1], c[2], 255]; cover!(true, "padding") }
    let mut y = 1;
    for s in &stored {
        for x in 0..w { want[y * w + x] = line }
        let mut x = 1;
        for i in s {
            for k in 0..i.0 * i.1 { want[(y + 2 + k / i.0) * w + x + k % i.0] = i.2[k] }
            x += i.0 + 2
        }
        y += 3 + s.iter().map(|i| i.1).max().unwrap();
    }
    for y in 0..h { for x in 0..w { assert!(at(x, y) == want[y * w + x], "pixel {x}, {y} is {:?}, not {:?}", at(x, y), want[y * w + x]) } }
    cover!(stored.len() > 1, "sequences");
}

contracts! {
    native sizes(iters 20) "pixels_per_block_length, bits_per_pixel, bytes_per_block: every format" {
        for (f, bits, side) in FORMATS {
            assert!(pixels_per_block_length(f).get() == side && bits_per_pixel(f).get() == bits && bytes_per_block(f).get() == side * side * bits / 8, "{f:?}");
            assert!(COMPRESSED_BITMAP_DATA_FORMATS.contains(&f) == (side == 4), "{f:?}");
        }
        cover!(true, "formats");
    }

    native swizzles(iters 40000) "swizzle: every power-of-two size: exactly the swizzled order, and back; other sizes are refused, with nothing changed" {
        let mut r = Rng(nd::u64());
        let (w, h, d) = match r.below(8) {
            0 => { let n = 1 << r.below(5); (n, n, n) },
            1 => (1 + r.below(20), 1 + r.below(20), 1),
            2 => (1 << r.below(4), 1 << r.below(4), 1 << r.below(4)),
            3 => { let n = r.below(10); (1 << n, 1 << r.below(13 - n), 1) },
            4 => { let n = r.below(10); (1 << r.below(13 - n), 1 << n, 1) },
            5 => { let n = 1 << r.below(5); (n, n, 1 + r.below(4)) },
            _ => (1 << r.below(6), 1 << r.below(6), 1)
        };
        let more = r.below(3);
        let mut s = Rng(r.next());
        match r.below(3) {
            0 => swizzled(w, h, d, more, || s.u8()),
            1 => swizzled(w, h, d, more, || s.next() as u16),
            _ => swizzled(w, h, d, more, || ColorARGBInt::from(ColorARGBIntBytes { alpha: s.u8(), red: s.u8(), green: s.u8(), blue: s.u8() }))
        }
    }

    native mipmaps(iters 60000) "MipmapFaceIterator, MipmapTextureIterator, MipmapType::get_mipmap_type: exactly the levels and faces of every texture, one after another" {
        let mut r = Rng(nd::u64());
        let kind = r.below(3);
        let (w, h) = (dim(&mut r), dim(&mut r));
        let d = if kind == 2 { if r.below(200) == 0 { dim(&mut r) } else { 1 + r.below(40) } } else { 1 };
        let b = [1, 4, 4, 2, 3, 8][r.below(6)];
        let most = if r.below(3) == 0 { None } else { Some(r.below(20)) };
        let z = |n| NonZeroUsize::new(n).unwrap();
        let t = || match kind { 0 => MipmapType::TwoDimensional, 1 => MipmapType::Cubemap, _ => MipmapType::ThreeDimensional(z(d)) };
        let want = levels(w, h, d, kind == 1, b, most);
        check_levels(&want, kind == 1, kind == 0, MipmapFaceIterator::new(z(w), z(h), t(), z(b), most), MipmapTextureIterator::new(z(w), z(h), t(), z(b), most));
        let (f, _, side) = FORMATS[r.below(14)];
        let u = |r: &mut Rng, n: usize| if r.below(12) == 0 { 0 } else { n as u16 };
        let e = if kind == 2 || r.below(2) == 0 { d } else { 7 };
        let x = BitmapData { width: u(&mut r, w), height: u(&mut r, h), depth: u(&mut r, e), _type: [BitmapDataType::_2dTexture, BitmapDataType::CubeMap, BitmapDataType::_3dTexture][kind], format: f, mipmap_count: most.unwrap_or(3) as u16, ..Default::default() };
        let bad = x.width == 0 || x.height == 0 || (kind == 2 && x.depth == 0);
        match (MipmapFaceIterator::new_from_bitmap_data(&x), MipmapTextureIterator::new_from_bitmap_data(&x)) {
            (Ok(a), Ok(c)) => { assert!(!bad, "accepted with a side of 0"); check_levels(&levels(w, h, d, kind == 1, side, Some(x.mipmap_count as usize)), kind == 1, kind == 0, a, c) },
            (Err(_), Err(_)) => { assert!(bad, "refused"); cover!(true, "refused") },
            _ => panic!("the two iterators disagree")
        }
    }

    native color_plate(iters 20000) "extract_compressed_color_plate_data, recover_bitmap, Image::to_tiff, Image::from_tiff: the color plate is the pixels compressed into the tag; anything else is refused; a recovered image reads back" {
        let mut r = Rng(nd::u64());
        let (w, h) = (r.below(20), r.below(20));
        let pixels: Vec<u8> = (0..w * h * 4).map(|_| r.u8()).collect();
        let mut stream = zlib(&mut r, &pixels);
        let mut size = (w * h * 4) as u32;
        let how = r.below(8);
        let mut cut = false;
        match how {
            0 => size = size.wrapping_add([1, 4, !0, 1 << 31][r.below(4)]),
            1 => { let n = r.below(stream.len() - 4); cut = true; stream.truncate(n) },
            2 => { let n = r.below(stream.len()); stream[n] ^= 1 << r.below(8) },
            _ => ()
        }
        let mut bytes = size.to_be_bytes().to_vec();
        bytes.extend(&stream);
        let empty = r.below(20) == 0;
        if empty { bytes.truncate(r.below(4)) }
        let mut b = Bitmap::default();
        b.color_plate.width = w as u16;
        b.color_plate.height = h as u16;
        b.color_plate.compressed_data.bytes = bytes;
        let got = extract_compressed_color_plate_data(&b);
        let nothing = empty || w == 0 || h == 0;
        match got {
            Ok(None) => { assert!(nothing, "no color plate"); cover!(true, "none") },
            Ok(Some(i)) => {
                assert!(!nothing && how != 0 && !cut, "made from bytes that are no color plate");
                assert!(i.width == w && i.height == h && i.data.len() == w * h, "size");
                if how > 2 { for (k, p) in i.data.iter().enumerate() {
                    let c = ColorARGBIntBytes::from(*p);
                    assert!([c.blue, c.green, c.red, c.alpha] == pixels[4 * k..4 * k + 4], "pixel {k}");
                } }
                let b: Box<dyn PrimaryTagStructDyn> = Box::new(b);
                let f = get_recover_function(TagGroup::Bitmap).unwrap()(&TagPath::new("a\\b c", TagGroup::Bitmap).unwrap(), &b).unwrap().unwrap();
                assert!(f.len() == 1 && f.keys().next().unwrap() == std::path::Path::new("a/b c.tif"), "file recovered");
                let j = Image::from_tiff(f.values().next().unwrap()).unwrap_or_else(|e| panic!("the recovered image is refused: {e}"));
                assert!(j.width == w && j.height == h && j.data == i.data, "the recovered image is another one");
                cover!(how > 2, "read");
            },
            Err(_) => { assert!(!nothing && how <= 2, "refused"); cover!(true, "refused") }
        }
    }

    native loose_plate(iters 3000) "make_color_plate_from_loose, LooseColorPlateIterator, load_image_from_path, Image::from_png, Image::from_tiff: exactly the images of the sequences that exist, in place, framed in colors they do not use; bad padding colors, images and directories are refused" { plate(nd::u64()) }
}
