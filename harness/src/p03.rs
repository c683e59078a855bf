//! P03: a tag of any group in a cache file is extracted as the value its bytes spell out there, following every pointer
//! into the right region, and the result saves as the tag file of that value.
use crate::{cover, nd, spec::*, Contract};
use ringhopper_primitives::engine::Engine;
use ringhopper_primitives::error::*;
use ringhopper_primitives::map::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::{read_any_tag_from_map};

pub(crate) struct World { pub(crate) engine: &'static Engine, pub(crate) map: Vec<u8>, pub(crate) tag: Vec<u8>, pub(crate) tag_base: usize, pub(crate) bsp: Vec<u8>, pub(crate) bsp_base: usize, pub(crate) verts: Vec<u8>, pub(crate) sounds: Vec<u8>, pub(crate) tags: Vec<(ID, Tag)> }
impl Map for World {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { self.engine }
    fn extract_tag(&self, _: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { unimplemented!() }
    fn get_domain(&self, d: &DomainType) -> Option<(&[u8], usize)> {
        match d {
            DomainType::MapData => Some((&self.map, 0)),
            DomainType::TagData => Some((&self.tag, self.tag_base)),
            DomainType::BSP(3) => Some((&self.bsp, self.bsp_base)),
            DomainType::BSPVertices(3) => Some((&self.verts, 0)),
            DomainType::ResourceMapFile(ResourceMapType::Sounds) => Some((&self.sounds, 0)),
            _ => None
        }
    }
    fn get_tag_by_id(&self, id: ID) -> Option<&Tag> { self.tags.iter().find(|(i, _)| *i == id).map(|(_, t)| t) }
    fn get_tag(&self, p: &TagPath) -> Option<&Tag> { self.tags.iter().map(|(_, t)| t).find(|t| t.tag_path == *p) }
    fn get_scenario_tag(&self) -> &Tag { unimplemented!() }
    fn get_all_tags(&self) -> Vec<TagPath> { self.tags.iter().map(|(_, t)| t.tag_path.clone()).collect() }
}
fn engine(compressed: bool, external: bool) -> &'static Engine {
    static E: std::sync::OnceLock<[Engine; 4]> = std::sync::OnceLock::new();
    let e = E.get_or_init(|| [0, 1, 2, 3].map(|i| { let mut e = ringhopper_engines::ALL_SUPPORTED_ENGINES[0]; e.compressed_models = i & 1 != 0; e.external_bsps = i & 2 != 0; e }));
    &e[compressed as usize | (external as usize) << 1]
}
fn group_of(code: u32) -> TagGroup { TagGroup::from_fourcc(code).unwrap() }

pub(crate) struct Placer { pub(crate) w: World, pub(crate) r: Rng, pub(crate) in_bsp: bool, pub(crate) outside: bool }
impl Placer {
    /// room for `n` bytes in the region the tag lies in (or, for a BSP, possibly in the shared one)
    pub(crate) fn room(&mut self, n: usize) -> (bool, usize) {
        let bsp = self.in_bsp && self.r.below(3) != 0;
        let gap = self.r.below(9);
        let v = if bsp { &mut self.w.bsp } else { &mut self.w.tag };
        for _ in 0..gap { let b = self.r.u8(); v.push(b) }
        let at = v.len();
        for _ in 0..n { let b = self.r.u8(); v.push(b) }
        (bsp, at)
    }
    pub(crate) fn address(&self, p: (bool, usize)) -> u32 { (p.1 + if p.0 { self.w.bsp_base } else { self.w.tag_base }) as u32 }
    pub(crate) fn region(&mut self, bsp: bool) -> &mut Vec<u8> { if bsp { &mut self.w.bsp } else { &mut self.w.tag } }
    pub(crate) fn num(&mut self, p: (bool, usize), off: usize, w: usize, v: u32) { put(self.region(p.0), p.1 + off, w, v, true) }

    /// Store a value; fields cache files do not hold are left arbitrary. The value may be adjusted to what the format
    /// can express there.
    pub(crate) fn store(&mut self, s: usize, v: &mut Val, p: (bool, usize)) {
        let l = layout();
        let Val::Struct(v) = v else { panic!() };
        if l.structs[s].name == "ScenarioStructureBSPMaterial" { self.vertices(s, v, p) }
        for (f, v) in l.structs[s].fields.iter().zip(v.iter_mut()) {
            if !stored(f, Side::Map) { continue }
            let at = (p.0, p.1 + f.off);
            match (f.kind, v) {
                (Kind::Prim(q), Val::Units(u)) => { let w = q.shape().0; for (i, x) in u.iter().enumerate() { self.num(at, i * w, w, *x) } },
                (Kind::Enum(_), Val::Units(u)) => self.num(at, 0, 2, if f.shifted { u[0].wrapping_sub(1) } else { u[0] }),
                (Kind::Bits(b), Val::Units(u)) => self.num(at, 0, l.bits[b].width, u[0]),
                (Kind::Str32, Val::Str(s)) => { let s = *s; self.region(at.0)[at.1..at.1 + 32].copy_from_slice(&s) },
                (Kind::Struct(s), v) => self.store(s, v, at),
                (Kind::List(s), Val::List(i)) => {
                    let z = l.structs[s].size;
                    self.num(at, 0, 4, i.len() as u32);
                    if i.is_empty() { continue }
                    let q = self.room(z * i.len());
                    let a = self.address(q);
                    self.num(at, 4, 4, a);
                    for (k, v) in i.iter_mut().enumerate() { self.store(s, v, (q.0, q.1 + k * z)) }
                },
                (Kind::Ref, Val::Ref(g, path)) => {
                    if path.is_empty() { self.num(at, 0, 4, *g); self.num(at, 12, 4, u32::MAX) }
                    else {
                        let id = self.w.tags.iter().find(|t| t.1.tag_path.path().as_bytes() == &path[..] && code_of(t.1.tag_path.group()) == *g).unwrap().0.as_u32();
                        self.num(at, 0, 4, *g); self.num(at, 12, 4, id)
                    }
                },
                (Kind::Data | Kind::Utf16, Val::Bytes(b)) => {
                    let q = self.room(b.len());
                    self.region(q.0)[q.1..q.1 + b.len()].copy_from_slice(b);
                    let a = self.address(q);
                    self.num(at, 0, 4, b.len() as u32);
                    if !b.is_empty() { self.num(at, 12, 4, a) }
                },
                (Kind::FileData, Val::Bytes(b)) => {
                    let external = self.outside && self.r.below(2) == 0;
                    let gap = self.r.below(9);
                    let v = if external { &mut self.w.sounds } else { &mut self.w.map };
                    for _ in 0..gap { let b = self.r.u8(); v.push(b) }
                    let o = v.len();
                    v.extend(&*b);
                    self.num(at, 0, 4, b.len() as u32);
                    let flags = (self.r.next() as u32 & !1) | external as u32;
                    self.num(at, 4, 4, flags);
                    if !b.is_empty() { self.num(at, 8, 4, o as u32) }
                },
                (Kind::BspData, _) => (),
                _ => panic!()
            }
        }
    }
    /// Vertices of a material: 56 (rendered) and 20 (lightmap) bytes each, 32 and 8 when compressed, in one block at the
    /// pointer or, for engines that keep them apart and a null pointer, in two blocks of the vertex region.
    fn vertices(&mut self, s: usize, v: &mut Vec<Val>, p: (bool, usize)) {
        let d = &layout().structs[s].fields;
        let ix = |n: &str| d.iter().position(|f| f.rust == n).unwrap();
        let (r, lm, un, co) = (ix("rendered_vertices"), ix("lightmap_vertices"), ix("uncompressed_vertices"), ix("compressed_vertices"));
        let (nr, nl) = (self.r.below(4), self.r.below(4));
        let sub = |v: &mut Val, i: usize, x: usize| { let Val::Struct(v) = v else { panic!() }; v[i] = Val::Units(vec![x as u32]) };
        let q = match d[r].kind { Kind::Struct(q) => q, _ => panic!() };
        let (count, offset) = (layout().structs[q].fields.iter().position(|f| f.rust == "vertex_count").unwrap(), layout().structs[q].fields.iter().position(|f| f.rust == "offset").unwrap());
        sub(&mut v[r], count, nr); sub(&mut v[lm], count, nl);
        v[un] = Val::Bytes(vec![]); v[co] = Val::Bytes(vec![]);
        let c = self.w.engine.compressed_models;
        let at = if c { co } else { un };
        let (a, b) = if c { (nr * 32, nl * 8) } else { (nr * 56, nl * 20) };
        let bytes: Vec<u8> = (0..a + b).map(|_| self.r.u8()).collect();
        let off = d[at].off;
        if self.w.engine.external_bsps && self.r.below(2) == 0 {
            self.num(p, off + 12, 4, 0);
            for (i, part) in [&bytes[..a], &bytes[a..]].into_iter().enumerate() {
                for _ in 0..self.r.below(9) { let b = self.r.u8(); self.w.verts.push(b) }
                sub(&mut v[if i == 0 { r } else { lm }], offset, self.w.verts.len());
                self.w.verts.extend(part);
            }
        }
        else {
            let q = self.room(bytes.len());
            self.region(q.0)[q.1..q.1 + bytes.len()].copy_from_slice(&bytes);
            let x = self.address(q);
            self.num(p, off + 12, 4, x);
        }
        let n = self.r.below(60) as u32;
        self.num(p, off, 4, n);
        v[at] = Val::Bytes(bytes);
    }
}

fn world(g: &Group, m: &mut Maker) -> (World, Val, TagPath, usize) {
    let l = layout();
    let mut v = m.struct_val(g.root);
    let in_bsp = g.name == "scenario_structure_bsp";
    let e = engine(m.rng.below(2) == 0, m.rng.below(2) == 0);
    let base = 0x40440000usize + m.rng.below(64) * 4;
    let w = World { engine: e, map: vec![0; 64], tag: vec![], tag_base: base, bsp: vec![], bsp_base: base + 0x1000000 - m.rng.below(1024), verts: vec![], sounds: vec![], tags: vec![] };
    let mut p = Placer { w, r: Rng(m.rng.next()), in_bsp, outside: true };
    for (i, (c, path)) in m.paths.iter().enumerate() { let t = Tag { tag_path: TagPath::new(std::str::from_utf8(path).unwrap(), group_of(*c)).unwrap(), address: 0, domain: DomainType::TagData }; p.w.tags.push((ID::new(Some(i as u16), 0x6174), t)) }
    let at = loop { let q = p.room(l.structs[g.root].size); if q.0 == in_bsp { break q } };
    p.store(g.root, &mut v, at);
    let path = TagPath::new("self\\tag", group_of(g.code)).unwrap();
    let address = p.address(at) as usize;
    p.w.tags.push((ID::new(Some(100), 0x6174), Tag { tag_path: path.clone(), address, domain: if in_bsp { DomainType::BSP(3) } else { DomainType::TagData } }));
    // the regions end where the last thing in them does, or a little later
    for _ in 0..p.r.below(3) * 2 { p.w.tag.push(7); p.w.bsp.push(7); p.w.map.push(7) }
    (p.w, v, path, at.1)
}

fn one(g: &Group, seed: u64, budget: usize) {
    let mut m = Maker::new(seed, budget, Side::Map);
    let (w, v, path, _) = world(g, &mut m);
    let want = read_struct(g.root, &v, Side::Map);
    let tag = match read_any_tag_from_map(&path, &w) { Ok(t) => t, Err(e) => panic!("{}: a well-formed tag is refused: {e}", g.name) };
    assert!(code_of(tag.group()) == g.code, "{}: read as another group", g.name);
    if let Err(e) = same_struct(g.root, &want, tag.as_dynamic(), &g.name) { panic!("cache file read as another value: {e}") }
    let saved = saved_struct(g.root, &want);
    let (mut out, tail) = tag_struct(g.root, &saved, &mut None);
    out.extend(tail);
    let mut f = tag_header(g, crc(&out));
    f.extend(&out);
    let t = tag.to_tag_file().expect("an extracted tag is written");
    assert!(t == f, "{}: the extracted tag is saved differently (first difference at {:?})", g.name, (0..f.len().max(t.len())).find(|i| f.get(*i) != t.get(*i)));
    cover!(w.sounds.len() > 20 && g.name == "sound", "external sound data");
    cover!(w.verts.len() > 20, "external vertices");
    cover!(f.len() > 3000, "large tag");
}
fn any(budget: usize) { let l = layout(); let seed = nd::u64(); let g = nd::u64() as usize % l.groups.len(); one(&l.groups[g], seed, budget) }

contracts! {
    native every_group(iters 3) "read_any_tag_from_map, the generated read_from_map of every structure, Reflexive/Data/FileData/BSPVertexData/TagReference/String32::read_from_map: each group" {
        let l = layout();
        let seed = nd::u64();
        for (i, g) in l.groups.iter().enumerate() { for k in 0..3 { one(g, seed.wrapping_add((i * 3 + k) as u64), [0, 2000, 60000][k]) } }
    }
    native any_group(iters 150000) "the same for any group, value and placement" { any(6000) }
    native large(iters 5000) "the same with large arrays and data" { any(300_000) }
    native bsp(iters 30000) "BSPVertexData::read_from_map_with_offset: vertices inside the map, in the shared region and in the vertex region, compressed and not" {
        let l = layout();
        let g = l.groups.iter().find(|g| g.name == "scenario_structure_bsp").unwrap();
        one(g, nd::u64(), 3000 + nd::below(20000))
    }
    native damaged(iters 120000) "the generated read_from_map: damaged cache files are refused or read, without a panic or a disproportionate allocation" {
        let l = layout();
        let seed = nd::u64();
        let g = &l.groups[nd::u64() as usize % l.groups.len()];
        let mut m = Maker::new(seed, 3000, Side::Map);
        let (mut w, _, path, at) = world(g, &mut m);
        let r = &mut m.rng;
        let size = l.structs[g.root].size;
        for _ in 0..1 + r.below(8) {
            let near = r.below(2) == 0;
            let v = if g.name == "scenario_structure_bsp" && r.below(3) != 0 { &mut w.bsp } else { &mut w.tag };
            if v.is_empty() { continue }
            let k = if near && at + size <= v.len() { at + r.below(size) } else { r.below(v.len()) };
            match r.below(4) {
                0 => v[k] ^= 1 << r.below(8),
                1 => v.truncate(k.max(v.len() * 3 / 4)),
                _ => { let k = k & !3; if k + 4 <= v.len() { let x = [u32::MAX, 0, 0x7FFFFFFF, 0x10000000, w.tag_base as u32, (w.tag_base + 64) as u32, r.next() as u32, r.below(50) as u32][r.below(8)]; put(v, k, 4, x, true) } }
            }
        }
        let total = w.tag.len() + w.bsp.len() + w.map.len() + w.sounds.len() + w.verts.len();
        crate::memory::reset();
        let t = read_any_tag_from_map(&path, &w);
        let peak = crate::memory::peak();
        // overlapping arrays may each be read in full, several levels deep
        assert!(peak <= total * 4096 + 1_000_000, "{}: reading {total} bytes took {peak} bytes of memory", g.name);
        match t { Ok(t) => { cover!(true, "accepted"); let _ = t.to_tag_file(); }, Err(_) => cover!(true, "refused") }
    }
}
