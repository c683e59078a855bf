//! P02: a tag file that is damaged is refused with an error; nothing makes reading panic or allocate out of proportion.
use crate::{cover, nd, spec::*, Contract};
use ringhopper_primitives::error::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;

/// a well-formed file, and the length of its fixed part
fn file(g: &Group, m: &mut Maker) -> Vec<u8> {
    let v = m.struct_val(g.root);
    let (mut body, tail) = tag_struct(g.root, &v, &mut Some(&mut m.rng));
    body.extend(tail);
    let mut file = tag_header(g, crc(&body));
    file.extend(&body);
    file
}
fn any_group() -> (&'static Group, Maker) {
    let l = layout();
    let seed = nd::u64();
    let g = nd::u64() as usize % l.groups.len();
    (&l.groups[g], Maker::new(seed, if seed % 8 == 0 { 40000 } else { 3000 }, Side::Tag))
}
fn seal(f: &mut [u8]) { let c = crc(&f[0x40..]); put(f, 0x28, 4, c, false) }

/// Read a file; the memory used stays in proportion to it.
fn read(f: &[u8], s: ParseStrictness) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
    crate::memory::reset();
    let r = read_any_tag_from_file_buffer(f, s);
    let peak = crate::memory::peak();
    assert!(peak <= f.len() * 64 + 200_000, "reading a {}-byte file took {peak} bytes of memory", f.len());
    r
}
/// An accepted file is a value: it can be written, no longer than it was, and reads back as itself.
fn consistent(t: Box<dyn PrimaryTagStructDyn>, len: usize) {
    let w = t.to_tag_file().expect("an accepted tag can be written");
    assert!(w.len() <= len, "accepted tag grew from {len} to {} bytes", w.len());
    let t = read(&w, ParseStrictness::Strict).expect("a written tag can be read");
    assert!(t.to_tag_file().expect("written again") == w, "a written tag reads as another value");
}

contracts! {
    native truncated(iters 60000) "read_any_tag_from_file_buffer and the generated readers: a file cut short or with bytes added is refused, whatever its checksum says" {
        let (g, mut m) = any_group();
        let mut f = file(g, &mut m);
        let n = f.len();
        if m.rng.below(3) == 0 { for _ in 0..1 + m.rng.below(20) { let b = m.rng.u8(); f.push(b) } cover!(true, "extended") }
        else { let k = match m.rng.below(3) { 0 => n - 1 - m.rng.below((n - 1).min(20)), 1 => m.rng.below(0x48), _ => m.rng.below(n) }; f.truncate(k); cover!(k > 0x40, "truncated") }
        if f.len() >= 0x40 { seal(&mut f) }
        for s in [ParseStrictness::Strict, ParseStrictness::Relaxed] { assert!(read(&f, s).is_err(), "{}: {} bytes of a tag accepted, {n} are well-formed", g.name, f.len()) }
    }

    native checksum(iters 30000) "TagFile::load_header_and_data: a wrong checksum is refused when strict, accepted when relaxed or when the header disables it" {
        let (g, mut m) = any_group();
        let mut f = file(g, &mut m);
        let c = u32::from_be_bytes(f[0x28..0x2C].try_into().unwrap());
        let bad = match m.rng.below(3) { 0 => c ^ (1 << m.rng.below(32)), 1 => m.rng.next() as u32, _ => !c };
        put(&mut f, 0x28, 4, bad, false);
        let r = read(&f, ParseStrictness::Strict);
        if bad == c || bad == u32::MAX { assert!(r.is_ok()) } else { assert!(matches!(r, Err(Error::ChecksumMismatch)), "{}: accepted with checksum {bad:08x} instead of {c:08x}", g.name) }
        assert!(read(&f, ParseStrictness::Relaxed).is_ok(), "{}: refused although checksums are not enforced", g.name);
        put(&mut f, 0x28, 4, u32::MAX, false);
        assert!(read(&f, ParseStrictness::Strict).is_ok(), "{}: refused although its checksum is disabled", g.name);
    }

    native flipped(iters 40000) "TagFile::load_header_and_data: any changed byte after the header is noticed by a strict reader" {
        let (g, mut m) = any_group();
        let mut f = file(g, &mut m);
        if u32::from_be_bytes(f[0x28..0x2C].try_into().unwrap()) == u32::MAX { return }
        let k = 0x40 + m.rng.below(f.len() - 0x40);
        f[k] ^= 1 << m.rng.below(8);
        assert!(matches!(read(&f, ParseStrictness::Strict), Err(Error::ChecksumMismatch)), "{}: changed byte {k} of {} accepted", g.name, f.len());
    }

    native header(iters 60000) "TagFileHeader::validate, verify_group_matches: a header with the wrong signature, size, constant, group or version is refused" {
        let (g, mut m) = any_group();
        let mut f = file(g, &mut m);
        let (at, w) = [(0x24, 4), (0x2C, 4), (0x38, 2), (0x3A, 2), (0x3C, 4)][m.rng.below(5)];
        let o = f.clone();
        match m.rng.below(3) {
            0 => { let k = at + m.rng.below(w); f[k] ^= 1 << m.rng.below(8) },
            1 => for i in 0..w { f[at + i] = m.rng.u8() },
            _ => { let l = layout(); let h = &l.groups[m.rng.below(l.groups.len())]; let t = tag_header(h, 0); f[at..at + w].copy_from_slice(&t[at..at + w]) }
        }
        if f == o { return }
        for s in [ParseStrictness::Strict, ParseStrictness::Relaxed] {
            let r = read(&f, s);
            // another group and its structure may happen to fit the bytes; it is then that group
            if let Ok(t) = r { assert!(at == 0x24 && code_of(t.group()) == u32::from_be_bytes(f[0x24..0x28].try_into().unwrap()), "{}: header changed at {at:x} accepted", g.name); let h = layout().groups.iter().find(|h| h.code == code_of(t.group())).unwrap(); assert!(h.version == g.version, "{}: version of another group accepted", g.name) }
        }
        let typed = [
            (0x77696E64u32, TagFile::read_tag_from_file_buffer::<Wind>(&f, ParseStrictness::Relaxed).is_ok()),
            (0x6269746D, TagFile::read_tag_from_file_buffer::<Bitmap>(&f, ParseStrictness::Strict).is_ok()),
            (0x73636E72, TagFile::read_tag_from_file_buffer::<Scenario>(&f, ParseStrictness::Relaxed).is_ok()),
            (0x75737472, TagFile::read_tag_from_file_buffer::<UnicodeStringList>(&f, ParseStrictness::Strict).is_ok())
        ];
        for (c, ok) in typed { assert!(!ok || at == 0x24 && f[0x24..0x28] == c.to_be_bytes(), "{}: header changed at {at:x} accepted as {c:08x}", g.name) }
    }

    native other_type(iters 20000) "TagFile::read_tag_from_file_buffer: a file is read only as the structure of its own group" {
        let (g, mut m) = any_group();
        let f = file(g, &mut m);
        let s = if m.rng.below(2) == 0 { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
        macro_rules! is { ($($t:ident $c:literal),*) => { $( { let r = TagFile::read_tag_from_file_buffer::<$t>(&f, s); if g.code == $c { assert!(r.is_ok(), "{}: its own type refuses it", g.name) } else { assert!(matches!(r, Err(Error::TagHeaderGroupTypeMismatch)), "{}: read as {}", g.name, stringify!($t)) } } )* } }
        is!(Wind 0x77696E64, Bitmap 0x6269746D, Scenario 0x73636E72, UnicodeStringList 0x75737472, Globals 0x6D617467, Fog 0x666F6720, StringList 0x73747223);
    }

    native mutated(iters 200000) "the generated readers: arbitrary damage behind a correct checksum is refused or is a value that can be written and read back; no panic, no disproportionate allocation" {
        let (g, mut m) = any_group();
        let mut f = file(g, &mut m);
        for _ in 0..1 + m.rng.below(6) {
            let n = f.len() - 0x40;
            let at = if m.rng.below(2) == 0 { m.rng.below(n) } else { m.rng.below(n.min(layout().structs[g.root].size)) };
            match m.rng.below(5) {
                0 => f[0x40 + at] ^= 1 << m.rng.below(8),
                1 => { let at = (at & !3).min(n.saturating_sub(4)); if n >= 4 { let x = [u32::MAX, 0x7FFFFFFF, 0x80000000, 0x10000000, 1, 0xFFFFFFF0, m.rng.next() as u32, m.rng.below(40) as u32][m.rng.below(8)]; put(&mut f, 0x40 + at, 4, x, false) } },
                2 => f[0x40 + at] = m.rng.u8(),
                3 => { let c = f[0x40 + at]; f.insert(0x40 + at, c) },
                _ => if n > 1 { f.remove(0x40 + at); }
            }
        }
        seal(&mut f);
        match read(&f, ParseStrictness::Strict) { Ok(t) => { cover!(true, "accepted"); consistent(t, f.len()) }, Err(_) => cover!(true, "refused") }
    }

    native noise(iters 6000) "the generated readers: arbitrary bytes behind a correct header" {
        let (g, mut m) = any_group();
        let n = layout().structs[g.root].size + if m.rng.below(2) == 0 { 0 } else { m.rng.below(300) };
        let mut f = tag_header(g, 0);
        let zeros = m.rng.below(100);
        for _ in 0..n { let b = if m.rng.below(100) < zeros { 0 } else { m.rng.u8() }; f.push(b) }
        seal(&mut f);
        if let Ok(t) = read(&f, ParseStrictness::Strict) { cover!(true, "accepted"); consistent(t, f.len()) }
    }
}
