//! P10: arrays of structures, data blocks, references and bounds have one layout, and it reads back.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::error::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

/// The layout, written down independently: what goes in the struct, what is appended, and how both are read.
pub trait Layout: Sized + TagData + PartialEq + std::fmt::Debug + Clone {
    const SIZE: usize;
    fn any(depth: usize) -> Self;
    fn head(&self) -> Vec<u8>;
    fn tail(&self) -> Vec<u8>;
    /// what reading it back gives
    fn back(&self) -> Self { self.clone() }
    fn decode(d: &[u8], at: usize, cursor: &mut usize) -> Option<Self>;
}
fn word(d: &[u8], at: usize) -> Option<u32> { d.get(at..at.checked_add(4)?).map(|b| u32::from_be_bytes(b.try_into().unwrap())) }
fn big(n: usize) -> Vec<u8> { let x = nd::u32(); (0..n as u32).map(|i| ((i ^ x).wrapping_mul(0x9E3779B1) >> 24) as u8).collect() }
fn blob(n: usize) -> Vec<u8> {
    if n > 64 { return big(n) }
    (0..n).map(|_| nd::u8()).collect() }
impl Layout for u32 {
    const SIZE: usize = 4;
    fn any(_: usize) -> Self { nd::u32() }
    fn head(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
    fn tail(&self) -> Vec<u8> { vec![] }
    fn decode(d: &[u8], at: usize, _: &mut usize) -> Option<Self> { word(d, at) }
}
impl Layout for [u16; 3] {
    const SIZE: usize = 6;
    fn any(_: usize) -> Self { [nd::u16(), nd::u16(), nd::u16()] }
    fn head(&self) -> Vec<u8> { self.iter().flat_map(|x| x.to_be_bytes()).collect() }
    fn tail(&self) -> Vec<u8> { vec![] }
    fn decode(d: &[u8], at: usize, _: &mut usize) -> Option<Self> { let b = d.get(at..at + 6)?; Some([0, 2, 4].map(|i| u16::from_be_bytes([b[i], b[i + 1]]))) }
}
macro_rules! blobs { ($($t:ident $f:ident),*) => { $( impl Layout for $t {
    const SIZE: usize = 20;
    fn any(depth: usize) -> Self { let n = nd::below(if depth > 0 { 6 } else if nd::below(60) == 0 { 0x21000 } else { 40 }); let mut x = $t::default(); x.$f = blob(n); x }
    fn head(&self) -> Vec<u8> { let mut h = (self.$f.len() as u32).to_be_bytes().to_vec(); h.resize(20, 0); h }
    fn tail(&self) -> Vec<u8> { self.$f.clone() }
    fn decode(d: &[u8], at: usize, c: &mut usize) -> Option<Self> {
        let n = word(d, at)? as usize;
        d.get(at..at + 20)?;
        let mut x = $t::default();
        x.$f = d.get(*c..c.checked_add(n)?)?.to_vec();
        *c += n;
        Some(x)
    }
} )* } }
blobs!(Data bytes, FileData bytes);
impl Layout for UTF16String {
    const SIZE: usize = 20;
    fn any(depth: usize) -> Self {
        let n = nd::below(if depth == 0 { 20 } else { 4 });
        let s: String = (0..n).map(|_| char::from_u32(match nd::below(4) { 0 => nd::u32() % 0x110000, 1 => 0x10000 + nd::below(0x1000) as u32, _ => 0x20 + nd::below(0x60) as u32 }).filter(|c| *c != '\0').unwrap_or('x')).collect();
        s.parse().unwrap()
    }
    fn head(&self) -> Vec<u8> { let mut h = (self.tail().len() as u32).to_be_bytes().to_vec(); h.resize(20, 0); h }
    fn tail(&self) -> Vec<u8> { let s = self.to_string(); s.encode_utf16().chain([0]).flat_map(|u| u.to_le_bytes()).collect() }
    fn decode(_: &[u8], _: usize, _: &mut usize) -> Option<Self> { unimplemented!() }
}
const CHARS: &[char] = &['a', 'b', 'z', '0', '\\', '.', ' ', 'é', '漢', '😀'];
impl Layout for TagReference {
    const SIZE: usize = 16;
    fn any(_: usize) -> Self {
        let g = [TagGroup::_Unset, TagGroup::Bitmap, TagGroup::Scenario, TagGroup::Wind, TagGroup::Weapon][nd::below(5)];
        if nd::below(3) == 0 { return TagReference::Null(g) }
        for _ in 0..4 {
            let n = nd::below(9);
            let s: String = (0..n).map(|_| CHARS[nd::below(CHARS.len())]).collect();
            if let Ok(p) = TagPath::new(&s, g) { return TagReference::Set(p) }
        }
        TagReference::Null(g)
    }
    fn head(&self) -> Vec<u8> {
        let (g, n) = match self { TagReference::Null(g) => (*g, 0), TagReference::Set(p) => (p.group(), p.path().len()) };
        let mut h = g.as_fourcc().to_be_bytes().to_vec();
        h.extend([0; 4]); h.extend((n as u32).to_be_bytes()); h.extend([0xFF; 4]);
        h
    }
    fn tail(&self) -> Vec<u8> { match self { TagReference::Set(p) if !p.path().is_empty() => p.path().bytes().chain([0]).collect(), _ => vec![] } }
    fn back(&self) -> Self { match self { TagReference::Set(p) if p.path().is_empty() => TagReference::Null(p.group()), _ => self.clone() } }
    fn decode(d: &[u8], at: usize, c: &mut usize) -> Option<Self> {
        d.get(at..at + 16)?;
        let g = TagGroup::from_fourcc(word(d, at)?).unwrap_or(TagGroup::_Unset);
        let n = word(d, at + 8)? as usize;
        if n == 0 { return Some(TagReference::Null(g)) }
        let b = d.get(*c..c.checked_add(n + 1)?)?;
        if b[n] != 0 { return None }
        let s = std::str::from_utf8(&b[..n]).ok()?;
        // only texts that are paths can be made from the outside; others are left to the no-panic contract
        let p = TagPath::new(s, g).ok().filter(|p| p.path() == s);
        nd::assume(p.is_some());
        *c += n + 1;
        p.map(TagReference::Set)
    }
}
impl<T: Layout> Layout for Bounds<T> {
    const SIZE: usize = T::SIZE * 2;
    fn any(depth: usize) -> Self { Bounds { lower: T::any(depth + 1), upper: T::any(depth + 1) } }
    fn head(&self) -> Vec<u8> { [self.lower.head(), self.upper.head()].concat() }
    fn tail(&self) -> Vec<u8> { [self.lower.tail(), self.upper.tail()].concat() }
    fn back(&self) -> Self { Bounds { lower: self.lower.back(), upper: self.upper.back() } }
    fn decode(d: &[u8], at: usize, c: &mut usize) -> Option<Self> { Some(Bounds { lower: T::decode(d, at, c)?, upper: T::decode(d, at + T::SIZE, c)? }) }
}
impl<T: Layout> Layout for Reflexive<T> {
    const SIZE: usize = 12;
    fn any(depth: usize) -> Self { let n = nd::below(if depth > 0 { 4 } else if T::SIZE < 8 && nd::below(60) == 0 { 0x1200 } else { 6 }); Reflexive::new((0..n).map(|_| T::any(depth + 1)).collect()) }
    fn head(&self) -> Vec<u8> { let mut h = (self.items.len() as u32).to_be_bytes().to_vec(); h.resize(12, 0); h }
    fn tail(&self) -> Vec<u8> { let mut t: Vec<u8> = self.items.iter().flat_map(|i| i.head()).collect(); t.extend(self.items.iter().flat_map(|i| i.tail())); t }
    fn back(&self) -> Self { Reflexive::new(self.items.iter().map(|i| i.back()).collect()) }
    fn decode(d: &[u8], at: usize, c: &mut usize) -> Option<Self> {
        let n = word(d, at)? as usize;
        d.get(at..at + 12)?;
        let base = *c;
        let end = base.checked_add(n.checked_mul(T::SIZE)?)?;
        d.get(base..end)?;
        *c = end;
        let mut v = Vec::new();
        for i in 0..n { v.push(T::decode(d, base + i * T::SIZE, c)?) }
        Some(Reflexive::new(v))
    }
}

/// written as specified into any prior contents, and read back
fn written<T: Layout>() {
    let v = T::any(0);
    assert_eq!(<T as TagData>::size(), T::SIZE, "size");
    let before = nd::below(9);
    let mut d = blob(before + T::SIZE + nd::below(9));
    let mut want = d.clone();
    want.splice(before..before + T::SIZE, v.head());
    let c0 = want.len();
    want.extend(v.tail());
    v.write_to_tag_file(&mut d, before, before + T::SIZE).unwrap();
    assert_eq!(d, want, "the bytes of {v:?}");
    d.extend(blob(nd::below(5)));
    let mut c = c0;
    let r = T::read_from_tag_file(&d, before, before + T::SIZE, &mut c).expect("reading what was written");
    assert_eq!(r, v.back(), "read back");
    assert_eq!(c, want.len(), "the cursor is left after {v:?}");
    cover!(want.len() > c0, "with appended data");
}
/// damaged data: read as the layout says, or refused
fn damaged<T: Layout>() {
    let v = T::any(0);
    let at = nd::below(5);
    let mut d = blob(at);
    d.extend(v.head());
    let mut c0 = d.len();
    d.extend(v.tail());
    d.extend(blob(nd::below(4)));
    for _ in 0..nd::below(3) {
        match nd::below(6) {
            0 => { let n = nd::below(d.len() + 1); if n >= at + T::SIZE { d.truncate(n) } }
            1 => { let p = at + nd::below(4); if p < d.len() { d[p] = nd::u8() } }
            2 => { let x = nd::u32() % 20; d[at..at + 4].copy_from_slice(&x.to_be_bytes()) }
            3 => c0 = if nd::bool() { nd::usize() } else { nd::below(d.len() + 8) },
            _ => { let p = nd::below(d.len()); d[p] = nd::u8() }
        }
    }
    let (mut c, mut cw) = (c0, c0);
    let want = T::decode(&d, at, &mut cw);
    let got = T::read_from_tag_file(&d, at, at + T::SIZE, &mut c);
    cover!(want.is_some(), "readable");
    cover!(want.is_none(), "refused");
    match (want, got) {
        (Some(w), Ok(g)) => { assert_eq!(g, w, "the value read"); assert_eq!(c, cw, "the cursor") }
        (None, Err(_)) => {}
        (Some(w), Err(e)) => panic!("refused {e:?} what reads as {w:?}"),
        (None, Ok(g)) => panic!("accepted as {g:?} what lies outside or is malformed")
    }
}

contracts! {
    native arrays(iters 4000) "Reflexive<T>::write_to_tag_file, read_from_tag_file: count, zeroed address, then the elements, then what they append; read back the same" { match nd::below(4) { 0 => written::<Reflexive<u32>>(), 1 => written::<Reflexive<Reflexive<[u16; 3]>>>(), 2 => written::<Reflexive<Data>>(), _ => written::<Reflexive<Bounds<Reflexive<Data>>>>() } }
    native data(iters 4000) "Data, FileData, UTF16String: length, zeroed fields, then the bytes; read back the same" { match nd::below(3) { 0 => written::<Data>(), 1 => written::<FileData>(), _ => written::<UTF16String>() } }
    native references(iters 8000) "TagReference: group code, length of the path, null identifier, then the path and its terminator; read back the same, alone and in sequence" { match nd::below(3) { 0 => written::<TagReference>(), 1 => written::<Reflexive<TagReference>>(), _ => written::<Reflexive<Bounds<TagReference>>>() } }
    native bounds(iters 4000) "Bounds<T> and fixed arrays: elements one after the other; read back the same" { match nd::below(4) { 0 => written::<Bounds<u32>>(), 1 => written::<Bounds<Data>>(), 2 => written::<[u16; 3]>(), _ => written::<Bounds<Bounds<[u16; 3]>>>() } }
    native damaged_arrays(iters 20000) "damaged counts and truncated or misplaced data: read exactly as the layout says, or refused" { match nd::below(4) { 0 => damaged::<Reflexive<u32>>(), 1 => damaged::<Reflexive<Reflexive<[u16; 3]>>>(), 2 => damaged::<Reflexive<Data>>(), _ => damaged::<Reflexive<Bounds<Reflexive<Data>>>>() } }
    native damaged_data(iters 10000) "damaged data blocks and references: read exactly as the layout says, or refused" { match nd::below(4) { 0 => damaged::<Data>(), 1 => damaged::<FileData>(), 2 => damaged::<TagReference>(), _ => damaged::<Reflexive<TagReference>>() } }
    native huge_counts(iters 4000) "a count or length of up to 4294967295 is refused without reserving memory for it" {
        let mut d = blob(64);
        let n = if nd::bool() { u32::MAX - nd::u32() % 5 } else { 0x1000_0000 | nd::u32() };
        d[0..4].copy_from_slice(&n.to_be_bytes());
        assert!(md(Reflexive::<Data>::read_from_tag_file(&d, 0, 12, &mut 64)).is_err());
        assert!(md(Reflexive::<Reflexive<u32>>::read_from_tag_file(&d, 0, 12, &mut 20)).is_err());
        assert!(md(Data::read_from_tag_file(&d, 0, 20, &mut 20)).is_err());
    }
}
