//! P05: the checksum is the reflected CRC-32 polynomial over exactly the bytes given, however they are split.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::crc32::CRC32;

/// Specification: one bit at a time.
fn reference(mut crc: u32, data: &[u8]) -> u32 {
    for b in data {
        crc ^= *b as u32;
        for _ in 0..8 { crc = if crc & 1 == 1 { (crc >> 1) ^ 0xEDB88320 } else { crc >> 1 } }
    }
    crc
}

contracts! {
    native polynomial(iters 40000) "CRC32::init, update, crc: the bit-by-bit polynomial, from any starting value" {
        let start = nd::u32();
        let n = nd::below(200);
        let d: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
        let mut c = CRC32::init(start);
        c.update(&d);
        assert_eq!(c.crc(), reference(start, &d));
        let mut c = CRC32::new();
        c.update(&d);
        assert_eq!(c.crc(), reference(u32::MAX, &d), "a new checksum starts at FFFFFFFF");
        cover!(n > 100, "long data");
    }
    native table(iters 1) "CRC32::update: all 256 byte values from register values that reach every table entry" {
        for b in 0..=255u8 { for s in [0u32, u32::MAX, 0xFF, 0x8000_0000] {
            let mut c = CRC32::init(s);
            c.update(&[b]);
            assert_eq!(c.crc(), reference(s, &[b]));
        } }
    }
    native split(iters 20000) "CRC32::update: any split into pieces gives the same checksum" {
        let n = nd::below(300);
        let d: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
        let mut whole = CRC32::new();
        whole.update(&d);
        let mut parts = CRC32::new();
        let mut rest = &d[..];
        while !rest.is_empty() {
            let k = nd::below(rest.len() + 1);
            parts.update(&rest[..k]);
            rest = &rest[k..];
            if k == 0 && nd::bool() { parts.update(rest); break }
        }
        assert_eq!(whole.crc(), parts.crc());
        cover!(n > 200, "long data");
    }
    native large(iters 40) "CRC32::update: large buffers at every alignment" {
        let n = 1 << (6 + nd::below(16));
        let n = n + nd::below(n);
        let s = nd::u32();
        let d: Vec<u8> = (0..n as u32).map(|i| (i.wrapping_mul(s | 1) >> 13) as u8).collect();
        let at = nd::below(64);
        let mut c = CRC32::new();
        c.update(&d[at..]);
        assert_eq!(c.crc(), reference(u32::MAX, &d[at..]));
    }
}
