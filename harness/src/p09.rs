//! P09: an address is turned into exactly the bytes its domain holds there, or into nothing.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::engine::Engine;
use ringhopper_primitives::error::*;
use ringhopper_primitives::map::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::PrimaryTagStructDyn;

/// A map with arbitrary domains; everything under contract is the default code of the trait and the readers over it.
pub struct TestMap { pub map: Vec<u8>, pub tag: Vec<u8>, pub tag_base: usize, pub bsp: Vec<u8>, pub bsp_base: usize, pub sounds: Vec<u8>, pub tags: Vec<(ID, Tag)> }
impl Map for TestMap {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { unimplemented!() }
    fn extract_tag(&self, _: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { unimplemented!() }
    fn get_domain(&self, d: &DomainType) -> Option<(&[u8], usize)> {
        match d {
            DomainType::MapData => Some((&self.map, 0)),
            DomainType::TagData => Some((&self.tag, self.tag_base)),
            DomainType::BSP(0) => Some((&self.bsp, self.bsp_base)),
            DomainType::ResourceMapFile(ResourceMapType::Sounds) => Some((&self.sounds, 0)),
            _ => None
        }
    }
    fn get_tag_by_id(&self, id: ID) -> Option<&Tag> { self.tags.iter().find(|(i, _)| *i == id).map(|(_, t)| t) }
    fn get_tag(&self, p: &TagPath) -> Option<&Tag> { self.tags.iter().map(|(_, t)| t).find(|t| t.tag_path == *p) }
    fn get_scenario_tag(&self) -> &Tag { unimplemented!() }
    fn get_all_tags(&self) -> Vec<TagPath> { self.tags.iter().map(|(_, t)| t.tag_path.clone()).collect() }
}
impl TestMap {
    fn part(&self, d: &DomainType, a: usize, n: usize) -> Option<Vec<u8>> {
        let (b, base) = self.get_domain(d)?;
        if a < base { return None }
        let o = (a - base) as u128;
        if o + n as u128 > b.len() as u128 { None } else { Some(b[o as usize..o as usize + n].to_vec()) }
    }
    /// specification of an address
    pub fn spec(&self, d: &DomainType, a: usize, n: usize) -> Option<Vec<u8>> {
        self.get_domain(d)?;
        self.part(d, a, n).or_else(|| if matches!(d, DomainType::BSP(_)) { self.part(&DomainType::TagData, a, n) } else { None })
    }
}
/// arbitrary contents; now and then of a size past usual limits
fn fill(max: usize) -> Vec<u8> {
    if nd::below(40) == 0 { let (n, x) = (nd::below(if nd::below(8) == 0 { 0x21000 } else { 0x1200 }), nd::u32()); return (0..n as u32).map(|i| { let k = (i ^ x).wrapping_mul(0x9E3779B1); ((k >> 24) as u8).max((k >> 22 & 1) as u8) }).collect() }
    let n = nd::below(max + 1); (0..n).map(|_| nd::u8()).collect()
}
pub fn any_map() -> TestMap {
    let base = match nd::below(5) { 0 => 0, 1 => usize::MAX - nd::below(40), 2 => nd::below(16), _ => 0x40440000 };
    let bsp_base = match nd::below(4) { 0 => base, 1 => base.saturating_sub(nd::below(20)), 2 => base.saturating_add(nd::below(60)), _ => nd::u32() as usize };
    TestMap { map: fill(40), tag: fill(40), tag_base: base, bsp: fill(40), bsp_base, sounds: fill(30), tags: Vec::new() }
}
fn any_domain() -> DomainType { match nd::below(7) { 0 => DomainType::MapData, 1 | 2 => DomainType::TagData, 3 | 4 => DomainType::BSP(0), 5 => DomainType::BSP(1), _ => DomainType::ResourceMapFile(ResourceMapType::Sounds) } }
fn any_address(m: &TestMap, d: &DomainType) -> usize {
    let (b, base) = m.get_domain(d).unwrap_or((&[], 0));
    match nd::below(6) { 0 => nd::usize(), 1 => base.wrapping_sub(1 + nd::below(8)), 2 => base.wrapping_add(b.len()).wrapping_add(nd::below(4)), 3 => m.tag_base.wrapping_add(nd::below(44)), _ => base.wrapping_add(nd::below(b.len() + 1)) }
}

contracts! {
    native data(iters 60000) "Map::get_data_at_address: exactly the bytes the domain holds there, for any base, address and size; none when any of them lies outside; a BSP address outside the BSP is looked up in the tag data" {
        let m = any_map();
        let d = any_domain();
        let a = any_address(&m, &d);
        let n = match nd::below(6) { 0 => nd::usize(), 1 => nd::below(0x21000), _ => nd::below(44) };
        let r = m.get_data_at_address(a, &d, n);
        assert!(r.map(|r| r.to_vec()) == m.spec(&d, a, n), "the bytes at address {a:#X} size {n:#X} of {d:?}");
        cover!(r.is_some(), "inside");
        cover!(r.is_none() && n < 40, "outside");
    }
    native c_string(iters 60000) "Map::get_c_string_at_address: the bytes up to the first NUL inside the domain, or none; a BSP address outside the BSP is looked up in the tag data" {
        let mut m = any_map();
        let long = m.tag.len().max(m.bsp.len()) > 64;
        for b in m.tag.iter_mut().chain(m.bsp.iter_mut()) { if long || nd::below(4) != 0 { *b = b'a' + *b % 26 } }
        if long { for d in [&mut m.tag, &mut m.bsp] { for _ in 0..nd::below(4) { if !d.is_empty() { let p = nd::below(d.len()); d[p] = 0 } } } }
        let d = any_domain();
        let a = any_address(&m, &d);
        let r = m.get_c_string_at_address(a, &d);
        let find = |d: &DomainType| -> Option<Option<String>> {
            let (b, base) = m.get_domain(d)?;
            if a < base || a - base > b.len() { return None }
            let t = &b[a - base..];
            Some(t.iter().position(|c| *c == 0).and_then(|n| String::from_utf8(t[..n].to_vec()).ok()))
        };
        let want = if m.get_domain(&d).is_none() { None } else { match find(&d) { Some(s) => s, None if matches!(d, DomainType::BSP(_)) => find(&DomainType::TagData).flatten(), None => None } };
        assert_eq!(r, want.as_deref());
        cover!(r.is_some_and(|s| s.len() > 2), "a string");
    }
    native by_index(iters 20000) "Map::get_tag_by_index, get_tag_by_tag_reference: the tag whose identifier has that index and the tag salt; none past 65535 or for a null reference" {
        let mut m = any_map();
        let k = nd::below(5);
        for i in 0..k {
            let index = if nd::bool() { i as u16 } else { nd::u16() };
            if index == 0xFFFF { continue }
            let id = ID::new(Some(index), IDType::Tag.salt());
            m.tags.push((id, Tag { tag_path: TagPath::new(&format!("t{i}"), TagGroup::Weapon).unwrap(), address: 0, domain: DomainType::TagData }));
        }
        let i = match nd::below(3) { 0 => nd::usize(), 1 => nd::below(70000), _ => nd::below(6) };
        let want = m.tags.iter().find(|(id, _)| i < 0xFFFF && id.index() == Some(i as u16)).map(|(_, t)| t.tag_path.clone());
        assert!(m.get_tag_by_index(i).map(|t| t.tag_path.clone()) == want);
        let p = TagPath::new(&format!("t{}", nd::below(6)), TagGroup::Weapon).unwrap();
        let r: TagReference = p.clone().into();
        assert!(m.get_tag_by_tag_reference(&r).map(|t| t.tag_path.clone()) == m.get_tag(&p).map(|t| t.tag_path.clone()));
        assert!(m.get_tag_by_tag_reference(&TagReference::Null(TagGroup::Weapon)).is_none());
    }
    native read_simple(iters 40000) "read_from_map of a fixed-size value: the little-endian value at the address, or an error" {
        let m = any_map();
        let d = any_domain();
        let a = any_address(&m, &d);
        let want = m.spec(&d, a, 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
        assert!(u32::read_from_map(&m, a, &d).ok() == want);
        let want = m.spec(&d, a, 2).map(|b| i16::from_le_bytes(b.try_into().unwrap()));
        assert!(i16::read_from_map(&m, a, &d).ok() == want);
    }
    native read_chunks(iters 40000) "read_chunks_from_map_to_iterator: count values starting at the address, or an error when they do not fit" {
        let m = any_map();
        let d = any_domain();
        let a = any_address(&m, &d);
        let n = match nd::below(6) { 0 => nd::usize(), _ => nd::below(12) };
        let want: Option<Vec<u16>> = n.checked_mul(2).and_then(|s| m.spec(&d, a, s)).map(|b| b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect());
        let got: Option<Vec<u16>> = u16::read_chunks_from_map_to_iterator(&m, n, a, &d).ok().map(|i| i.map(|x| x.unwrap()).collect());
        assert_eq!(got, want);
    }
    native read_data(iters 40000) "Data::read_from_map: the bytes its address and size name in the same domain; empty when the size is zero" {
        let mut m = any_map();
        m.map = vec![0; 20];
        let size = match nd::below(5) { 0 => nd::u32(), 1 => 0, _ => nd::below(30) as u32 };
        let addr = match nd::below(3) { 0 => nd::u32(), _ => nd::below(24) as u32 };
        m.map[0..4].copy_from_slice(&size.to_le_bytes());
        m.map[0xC..0x10].copy_from_slice(&addr.to_le_bytes());
        let want = if size == 0 { Some(vec![]) } else { m.spec(&DomainType::MapData, addr as usize, size as usize) };
        assert!(Data::read_from_map(&m, 0, &DomainType::MapData).ok().map(|d| d.bytes) == want);
    }
    native read_file_data(iters 40000) "FileData::read_from_map: the bytes its file offset and size name in the map file, or in the sounds resource map when flag 1 is set" {
        let mut m = any_map();
        if m.tag.len() < 20 { m.tag.resize(20, 0) }
        let size = match nd::below(5) { 0 => nd::u32(), 1 => 0, _ => nd::below(30) as u32 };
        let off = match nd::below(3) { 0 => nd::u32(), _ => nd::below(24) as u32 };
        let flags = nd::u32();
        m.tag[0..4].copy_from_slice(&size.to_le_bytes());
        m.tag[4..8].copy_from_slice(&flags.to_le_bytes());
        m.tag[8..12].copy_from_slice(&off.to_le_bytes());
        nd::assume(m.tag_base <= usize::MAX - 40);
        let d = if flags & 1 == 1 { DomainType::ResourceMapFile(ResourceMapType::Sounds) } else { DomainType::MapData };
        let want = if size == 0 { Some(vec![]) } else { m.spec(&d, off as usize, size as usize) };
        assert!(FileData::read_from_map(&m, m.tag_base, &DomainType::TagData).ok().map(|d| d.bytes) == want);
    }
    native read_reflexive(iters 40000) "Reflexive::read_from_map: count values read one after the other starting at its address, or an error when any lies outside; a huge count is an error, not an allocation" {
        let mut m = any_map();
        if m.map.len() < 12 { m.map.resize(12, 0) }
        let n = match nd::below(5) { 0 => nd::u32(), _ => nd::below(10) as u32 };
        let a = match nd::below(4) { 0 => nd::u32(), _ => nd::below(30) as u32 };
        m.map[0..4].copy_from_slice(&n.to_le_bytes());
        m.map[4..8].copy_from_slice(&a.to_le_bytes());
        let want = if n == 0 { Some(vec![]) } else { m.spec(&DomainType::MapData, a as usize, n as usize * 4) }.map(|b| b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect::<Vec<u32>>());
        let got = Reflexive::<u32>::read_from_map(&m, 0, &DomainType::MapData).ok().map(|r| r.items);
        assert_eq!(got, want);
    }
    native read_reference(iters 40000) "TagReference::read_from_map: the tag with that identifier; null for a null or zero identifier; an error for an unknown one" {
        let mut m = any_map();
        let tags = nd::below(4);
        for i in 0..tags { m.tags.push((ID::new(Some(i as u16), IDType::Tag.salt()), Tag { tag_path: TagPath::new(&format!("t{i}"), TagGroup::Model).unwrap(), address: 0, domain: DomainType::TagData })) }
        let id = match nd::below(4) { 0 => 0, 1 => u32::MAX, 2 => nd::u32(), _ => ID::new(Some(nd::below(5) as u16), IDType::Tag.salt()).as_u32() };
        let g = match nd::below(3) { 0 => nd::u32(), 1 => u32::MAX, _ => TagGroup::Model.as_fourcc() };
        m.map = vec![0; 16];
        m.map[0..4].copy_from_slice(&g.to_le_bytes());
        m.map[12..16].copy_from_slice(&id.to_le_bytes());
        let r = TagReference::read_from_map(&m, 0, &DomainType::MapData).ok();
        let group = TagGroup::from_fourcc(g).unwrap_or(TagGroup::_Unset);
        let want = if id == 0 || id == u32::MAX { Some(TagReference::Null(group)) } else { m.get_tag_by_id(ID::from_u32(id)).map(|t| TagReference::Set(t.tag_path.clone())) };
        assert!(r == want);
    }
}
