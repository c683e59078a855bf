//! P16: opening a cache file. Synthetic cache files of every engine are opened; the regions, tags, identifiers and
//! resources found are the ones stored, and damaged files are refused or opened without a panic.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::map::gearbox::GearboxCacheFile;
use ringhopper::map::header::*;
use ringhopper::map::resource::ResourceMap;
use ringhopper::map::xbox::XboxCacheFile;
use ringhopper::map::MapTagTree;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use ringhopper_primitives::engine::*;
use ringhopper_primitives::map::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::ParseStrictness;
use std::collections::{BTreeMap, BTreeSet};

pub(crate) fn word(v: &mut [u8], at: usize, x: usize) { put(v, at, 4, x as u32, true) }

/// Bytes of an empty value of a structure, as caches store it.
pub(crate) fn blank(s: usize, out: &mut [u8]) {
    let l = layout();
    for f in &l.structs[s].fields {
        match f.kind {
            Kind::Ref => { let g = &f.groups[0]; let c = l.codes.iter().find(|c| c.1 == *g).unwrap().2; word(out, f.off, c as usize); word(out, f.off + 12, u32::MAX as usize) },
            Kind::Struct(q) => blank(q, &mut out[f.off..]),
            Kind::Prim(Prim::Group) | Kind::Prim(Prim::Id) => word(out, f.off, u32::MAX as usize),
            _ => ()
        }
    }
}
pub(crate) fn named(n: &str) -> usize { layout().structs.iter().position(|s| s.name == n).unwrap() }
pub(crate) fn off(s: &str, f: &str) -> usize { layout().structs[named(s)].fields.iter().find(|x| x.rust == f).unwrap().off }

/// A resource file: named blocks of bytes.
pub(crate) fn resource(r: &mut Rng, items: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![0u8; 16];
    let junk = |out: &mut Vec<u8>, r: &mut Rng| for _ in 0..r.below(5) { out.push(r.u8()) };
    let mut at = vec![];
    junk(&mut out, r);
    for (_, d) in items { at.push(out.len()); out.extend(d); junk(&mut out, r) }
    let paths = out.len() - r.below(out.len().min(9));
    let mut pat = vec![];
    for (p, _) in items { pat.push(out.len() - paths); out.extend(p.as_bytes()); out.push(0); junk(&mut out, r) }
    let array = out.len();
    for i in 0..items.len() { for x in [pat[i], items[i].1.len(), at[i]] { out.extend((x as u32).to_le_bytes()) } }
    word(&mut out, 4, paths); word(&mut out, 8, array); word(&mut out, 12, items.len());
    junk(&mut out, r);
    out
}
fn items(r: &mut Rng, n: usize, long: bool) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..n {
        let z = r.below(3);
        let p = ["res\\", "sound\\dialog\\", "é\\"][z];
        let mut path = format!("{p}{i}{}", "x".repeat(r.below(5)));
        // paths that nearly are another's: another case, or a part of it
        if i > 0 && r.below(4) == 0 {
            let q = out[r.below(i)].0.clone();
            let q = match r.below(3) { 0 => { let k = r.below(q.len()); q.chars().enumerate().map(|(j, c)| if j == k { c.to_ascii_uppercase() } else { c }).collect() }, 1 => format!("{q}x"), _ => q.to_ascii_uppercase() };
            if !out.iter().any(|x| x.0 == q) { path = q }
        }
        if out.iter().any(|x| x.0 == path) { path.push_str(&format!("-{i}")) }
        let n = if long { 164 + r.below(30) } else { r.below(20) };
        out.push((path, (0..n).map(|_| r.u8()).collect()))
    }
    out
}

struct Cache {
    e: &'static Engine, data: Vec<u8>, bitmaps: Vec<u8>, sounds: Vec<u8>, loc: Vec<u8>, res: [Vec<(String, Vec<u8>)>; 3],
    base: usize, tag: (usize, usize), bsps: Vec<(usize, usize, usize, usize)>, verts: Vec<(usize, usize)>, model: (usize, usize, usize),
    tags: Vec<Option<(String, TagGroup, u32, usize, bool)>>, scenario: usize, kind: u16, name: &'static str, build: String, head: (usize, usize)
}
pub(crate) fn group(code: u32) -> TagGroup { TagGroup::from_fourcc(code).unwrap() }

fn cache(r: &mut Rng) -> Cache {
    let l = layout();
    let e = &ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())];
    let indexed = e.resource_maps.is_some_and(|m| m.externally_indexed_tags);
    let res = [0, 1, 2].map(|k| { let n = r.below(4); items(r, n, k == 1) });
    let demo = e.cache_file_version == 6 && r.below(2) == 0;
    let mut data = vec![0u8; 0x800];
    let fill = |d: &mut Vec<u8>, r: &mut Rng, n: usize| for _ in 0..n { d.push(r.u8()) };
    // tags
    let nb = r.below(4);
    let nt = 1 + nb + r.below(8);
    let mut order: Vec<usize> = (0..nt).collect();
    for i in 0..nt { let j = i + r.below(nt - i); order.swap(i, j) }
    let scenario = order[0];
    let plain: Vec<&Group> = l.groups.iter().filter(|g| !["scenario", "scenario_structure_bsp", "bitmap", "sound"].contains(&&g.name[..])).collect();
    let base = if e.base_memory_address.inferred { 0x50000000 - 8 + r.below(2) * 4 * r.below(1000) } else { e.base_memory_address.address as usize };
    let hs = if e.external_models { 40 } else { 36 };
    let mut t = vec![0u8; hs];
    if !e.base_memory_address.inferred { fill(&mut t, r, 0) ; for _ in 0..r.below(2) * 4 { t.push(7) } }
    let array = t.len();
    t.resize(array + nt * 32, 0);
    let mut tags = vec![];
    for i in 0..nt {
        let role = order.iter().position(|x| *x == i).unwrap();
        let at = array + i * 32;
        let mut ext = false;
        let (path, g) = if role == 0 { (format!("levels\\s{i}"), TagGroup::Scenario) }
            else if role <= nb { (format!("levels\\b{i}"), TagGroup::ScenarioStructureBSP) }
            else {
                match r.below(6) {
                    0 => { for k in 0..3 { word(&mut t, at + k * 4, u32::MAX as usize) } word(&mut t, at + 12, r.next() as usize); tags.push(None); continue },
                    1 if indexed => {
                        let k = r.below(3);
                        let free: Vec<&String> = res[k].iter().map(|x| &x.0).filter(|p| p.bytes().all(|b| b.is_ascii() && !b.is_ascii_uppercase()) && !tags.iter().any(|t: &Option<(String, TagGroup, u32, usize, bool)>| t.as_ref().is_some_and(|t| t.0 == **p))).collect();
                        if free.is_empty() { (format!("objects\\o{i}"), group(plain[r.below(plain.len())].code)) }
                        else { ext = true; (free[r.below(free.len())].clone(), [TagGroup::Bitmap, TagGroup::Sound, TagGroup::UnicodeStringList][k]) }
                    },
                    2 => (format!("objects\\o{i}"), [TagGroup::Bitmap, TagGroup::Sound][r.below(2)]),
                    _ => (format!("objects\\o{}", if r.below(2) == 0 { i } else { 0 }), group(plain[(i * 7 + r.below(3)) % plain.len()].code))
                }
            };
        // two tags never share their path and group
        let path = if tags.iter().flatten().any(|t| t.0 == path && t.1 == g) { format!("{path}again{i}") } else { path };
        let ext = ext && !path.contains("again");
        let id = (0x8000 | r.next() as u32 & 0x7FFF) << 16 | i as u32;
        let id = if id == u32::MAX { id ^ 0x10000 } else { id };
        let code = code_of(g) as usize;
        word(&mut t, at, code); word(&mut t, at + 4, u32::MAX as usize); word(&mut t, at + 8, if r.below(2) == 0 { u32::MAX as usize } else { code });
        word(&mut t, at + 12, id as usize);
        let where_path = t.len();
        t.extend(path.as_bytes()); t.push(0);
        word(&mut t, at + 16, base + where_path);
        let where_data = t.len();
        for _ in 0..164 { let b = r.u8(); t.push(b) }
        word(&mut t, at + 20, base + where_data);
        let mut addr = base + where_data;
        if ext {
            word(&mut t, at + 24, 1 + r.below(3));
            let k = match g { TagGroup::Bitmap => 0, TagGroup::Sound => 1, _ => 2 };
            if k != 1 { let n = res[k].iter().position(|x| x.0 == path).unwrap(); word(&mut t, at + 20, n); addr = n }
        }
        tags.push(Some((path, g, id, addr, ext)));
    }
    // scenario
    let z = l.structs[named("Scenario")].size;
    let s_at = t.len();
    t.resize(s_at + z, 0);
    blank(named("Scenario"), &mut t[s_at..]);
    let kind = r.below(3) as u16;
    put(&mut t, s_at + off("Scenario", "_type"), 2, kind as u32, true);
    word(&mut t, array + scenario * 32 + 20, base + s_at);
    tags[scenario].as_mut().unwrap().3 = base + s_at;
    let refl = s_at + off("Scenario", "structure_bsps");
    let b_at = t.len();
    t.resize(b_at + nb * 32, 0);
    word(&mut t, refl, nb); word(&mut t, refl + 4, base + b_at);
    let mut bsps = vec![]; let mut verts = vec![];
    for k in 0..nb {
        let size = 24 + r.below(60);
        let address = base + 0x1000000 - size;
        let v = (data.len(), r.below(20));
        if e.external_bsps { let n = v.1 + r.below(4); fill(&mut data, r, n); verts.push(v) }
        let at = data.len();
        fill(&mut data, r, size);
        let pointer = address + 24;
        word(&mut data, at, pointer);
        if e.external_bsps { word(&mut data, at + 4, v.1); word(&mut data, at + 8, v.0) }
        word(&mut data, at + 20, code_of(TagGroup::ScenarioStructureBSP) as usize);
        let q = b_at + k * 32;
        word(&mut t, q, at); word(&mut t, q + 4, size); word(&mut t, q + 8, address);
        let i = order[1 + k];
        let id = tags[i].as_ref().unwrap().2;
        word(&mut t, q + 16, code_of(TagGroup::ScenarioStructureBSP) as usize); word(&mut t, q + 28, id as usize);
        tags[i].as_mut().unwrap().3 = pointer;
        bsps.push((at, size, address, i));
        let n = r.below(6); fill(&mut data, r, n);
    }
    let m = data.len();
    let n = r.below(40); fill(&mut data, r, n);
    let model = (m, r.below(n + 1), n);
    let n = r.below(6); fill(&mut data, r, n);
    // tag data header
    word(&mut t, 0, base + array); word(&mut t, 4, tags[scenario].as_ref().unwrap().2 as usize); word(&mut t, 8, r.next() as usize); word(&mut t, 12, nt);
    if e.external_models { word(&mut t, 20, model.0); word(&mut t, 28, model.1); word(&mut t, 32, model.2); word(&mut t, 36, 0x74616773) }
    let td = data.len();
    data.extend(&t);
    let n = r.below(6); fill(&mut data, r, n);
    // checksum
    let mut c: Vec<u8> = vec![];
    for (k, b) in bsps.iter().enumerate() { if e.external_bsps { c.extend(&data[verts[k].0..verts[k].0 + verts[k].1]) } c.extend(&data[b.0..b.0 + b.1]) }
    if e.external_models { c.extend(&data[model.0..model.0 + model.2]) }
    c.extend(&t);
    let sum = crc(&c);
    let name = ["a10", "bloodgulch", ""][r.below(3)];
    // an engine is known by its version and build, or is the only default of its version
    let b = e.build.unwrap_or(EngineBuild { string: "other", fallback: &[], enforced: false });
    let build = match r.below(3) { 0 if !b.fallback.is_empty() => b.fallback[r.below(b.fallback.len())], _ => b.string }.to_string();
    let at = |n: &str| off(if demo { "CacheFileHeaderPCDemo" } else { "CacheFileHeader" }, n);
    word(&mut data, at("head_fourcc"), if demo { 0x45686564 } else { 0x68656164 });
    word(&mut data, at("foot_fourcc"), if demo { 0x47666F74 } else { 0x666F6F74 });
    word(&mut data, at("cache_version"), e.cache_file_version as usize);
    word(&mut data, at("tag_data_offset"), td); word(&mut data, at("tag_data_size"), t.len());
    let len = data.len(); word(&mut data, at("decompressed_size"), len);
    data[at("name")..at("name") + name.len()].copy_from_slice(name.as_bytes());
    data[at("build")..at("build") + build.len()].copy_from_slice(build.as_bytes());
    word(&mut data, at("crc32"), sum as usize);
    put(&mut data, at("map_type"), 2, kind as u32, true);
    let padding = r.below(100);
    if !demo { word(&mut data, at("compression_padding"), padding) }
    let head = (at("crc32"), at("cache_version"));
    let (bitmaps, sounds, loc) = (resource(r, &res[0]), resource(r, &res[1]), resource(r, &res[2]));
    Cache { e, data, bitmaps, sounds, loc, res, base, tag: (td, t.len()), bsps, verts, model, tags, scenario, kind, name, build, head }
}

fn open(c: &Cache, s: ParseStrictness, resources: bool) -> Result<Box<dyn MapTagTree>, String> {
    let w = |v: &Vec<u8>| if resources { v.clone() } else { vec![] };
    // the parser is the one of the engine the header names
    let e = get_map_details(&c.data).map_or(c.e, |d| d.1);
    match e.cache_parser {
        EngineCacheParser::PC => GearboxCacheFile::new(c.data.clone(), w(&c.bitmaps), w(&c.sounds), w(&c.loc), s).map(|m| Box::new(m) as Box<dyn MapTagTree>).map_err(|e| e.to_string()),
        EngineCacheParser::Xbox => XboxCacheFile::new(c.data.clone(), s).map(|m| Box::new(m) as Box<dyn MapTagTree>).map_err(|e| e.to_string())
    }
}

/// The engine a header denotes.
fn engine_of(version: u32, build: &str) -> Option<&'static Engine> {
    let mut same = ALL_SUPPORTED_ENGINES.iter().filter(|e| e.cache_file_version == version);
    let exact = same.clone().find(|e| e.build.is_some_and(|b| b.string == build || b.fallback.contains(&build)));
    exact.or_else(|| same.find(|e| e.cache_default && !e.build.is_some_and(|b| b.enforced)))
}

/// A zlib stream of stored blocks.
fn zlib(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 1];
    let mut k = 0;
    loop {
        let n = (d.len() - k).min(1 + r.below(0xFFFF));
        out.push((k + n == d.len()) as u8);
        out.extend((n as u16).to_le_bytes()); out.extend((!n as u16).to_le_bytes());
        out.extend(&d[k..k + n]);
        k += n;
        if k == d.len() { break }
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521 }
    out.extend((b << 16 | a).to_be_bytes());
    out
}

/// A cache file in which one thing denies another.
fn inconsistent(seed: u64) {
    let mut r = Rng(seed);
    let mut c = cache(&mut r);
    let pc = c.e.cache_parser == EngineCacheParser::PC;
    let indexed = c.e.resource_maps.is_some_and(|m| m.externally_indexed_tags);
    let get = |d: &[u8], at: usize| u32::from_le_bytes(d[at..at + 4].try_into().unwrap()) as usize;
    let first = get(&c.data, c.tag.0) - c.base + c.tag.0;
    let entry = |i: usize| first + 32 * i;
    let pick = |r: &mut Rng, f: &dyn Fn(usize, &(String, TagGroup, u32, usize, bool)) -> bool| -> Option<usize> {
        let all: Vec<usize> = (0..c.tags.len()).filter(|i| c.tags[*i].as_ref().is_some_and(|t| f(*i, t))).collect();
        if all.is_empty() { None } else { Some(all[r.below(all.len())]) }
    };
    let is_bsp = |i: usize| c.bsps.iter().any(|b| b.3 == i);
    let (scenario, set) = (c.scenario, c.tags[c.scenario].clone().unwrap());
    // the scenario's list of BSPs
    let list = get(&c.data, set.3 - c.base + c.tag.0 + off("Scenario", "structure_bsps") + 4).wrapping_sub(c.base).wrapping_add(c.tag.0);
    let mut with = true;
    let plain = pick(&mut r, &|i, t| i != scenario && !is_bsp(i) && !t.4);
    let all = pick(&mut r, &|_, _| true).unwrap();
    let what = match r.below(18) {
        0 => {
            let (Some(a), Some(b)) = (plain, pick(&mut r, &|i, t| Some(i) != plain && i != scenario && !t.4)) else { return };
            // the later one is the copy, of a BSP as well
            let (from, to) = if is_bsp(b) { (b, a) } else { (a, b) };
            for k in [0, 16] { let x = get(&c.data, entry(from) + k); word(&mut c.data, entry(to) + k, x) }
            "two tags with one path"
        },
        1 => { let x = get(&c.data, entry(all) + 12) ^ 1 << r.below(16); word(&mut c.data, entry(all) + 12, x); "an identifier of another index" },
        2 => { let Some(a) = plain else { return }; word(&mut c.data, entry(a), code_of(TagGroup::Scenario) as usize); "two scenarios" },
        3 => { let Some(a) = pick(&mut r, &|i, _| i != scenario) else { return }; word(&mut c.data, c.tag.0 + 4, c.tags[a].as_ref().unwrap().2 as usize); "a scenario of another group" },
        4 => { let x = match r.below(3) { 0 => u32::MAX as usize, 1 => 0x80000000 | c.tags.len(), _ => 0x80000000 | 0xFFFE }; word(&mut c.data, c.tag.0 + 4, x); "no scenario" },
        5 => { word(&mut c.data, entry(all) + 4 * 0, 0x12345678); "no group" },
        6 if pc && !indexed => { let Some(a) = plain else { return }; word(&mut c.data, entry(a) + 24, 1 << r.below(32)); "an external tag without an index" },
        7 => { let Some(a) = plain else { return }; word(&mut c.data, entry(a), code_of(TagGroup::ScenarioStructureBSP) as usize); "a BSP without data" },
        8 => { let x = [0, c.base - 1, c.base + c.tag.1, u32::MAX as usize][r.below(4)]; word(&mut c.data, entry(all) + 16, x); "no path" },
        9 => {
            // an item of another path, or none
            let Some(a) = pick(&mut r, &|_, t| t.4 && t.1 != TagGroup::Sound) else { return };
            let k = if c.tags[a].as_ref().unwrap().1 == TagGroup::Bitmap { 0 } else { 2 };
            let n = get(&c.data, entry(a) + 20);
            let x = (n + 1 + r.below(c.res[k].len() + 3)) % (c.res[k].len() + 4);
            if x == n { return }
            word(&mut c.data, entry(a) + 20, x);
            with = r.below(4) != 0;
            "a resource of another path"
        },
        10 => { let Some(a) = pick(&mut r, &|_, t| t.4 && t.1 == TagGroup::Sound) else { return }; let x = get(&c.data, entry(a) + 16) + 1; word(&mut c.data, entry(a) + 16, x); let p = &c.tags[a].as_ref().unwrap().0[1..]; if c.res[1].iter().any(|x| x.0 == p) { return } with = r.below(4) != 0; "a sound of another path" },
        11 => {
            let Some(a) = pick(&mut r, &|_, t| t.4 && t.1 == TagGroup::Sound) else { return };
            let p = c.tags[a].as_ref().unwrap().0.clone();
            let n = r.below(164);
            c.res[1].iter_mut().find(|x| x.0 == p).unwrap().1.truncate(n);
            c.sounds = resource(&mut r, &c.res[1]);
            "a sound cut short"
        },
        12 if !c.bsps.is_empty() => {
            let k = r.below(c.bsps.len());
            let (start, size) = (c.bsps[k].0, c.bsps[k].1);
            let (a, x) = match r.below(3) { 0 => (4, c.data.len() - start + 1), 1 => (0, c.data.len() - size + 1), _ => (0, u32::MAX as usize - r.below(size)) };
            word(&mut c.data, list + 32 * k + a, x);
            "a BSP beyond the end"
        },
        13 if c.bsps.len() > 1 => { let k = 1 + r.below(c.bsps.len() - 1); let j = r.below(k); for f in [16, 28] { let x = get(&c.data, list + 32 * j + f); word(&mut c.data, list + 32 * k + f, x) } "one BSP twice" },
        14 if c.e.external_models => { word(&mut c.data, c.tag.0 + 28, c.model.2 + 1); "vertices beyond the models" },
        15 if c.e.external_models => { if r.below(2) == 0 { let x = c.data.len() - c.model.0 + 1; word(&mut c.data, c.tag.0 + 32, x) } else { word(&mut c.data, c.tag.0 + 20, u32::MAX as usize) } "models beyond the end" },
        16 if !c.verts.is_empty() => { let k = r.below(c.verts.len()); let x = c.data.len() - c.verts[k].0 + 1; word(&mut c.data, c.bsps[k].0 + 4, x); "BSP vertices beyond the end" },
        17 => { word(&mut c.data, c.tag.0 + 12, 0x10000 + r.below(0x1000)); "too many tags" },
        _ => return
    };
    match open(&c, ParseStrictness::Relaxed, with) {
        Ok(m) => {
            assert!(!with, "{}: opened with {what}", c.e.name);
            // without the resource files, nothing denies it
            let t = m.get_tag_by_index(c.tags.iter().position(|t| t.as_ref().is_some_and(|t| t.4)).unwrap()).unwrap();
            assert!(if t.tag_path.group() == TagGroup::Sound { t.domain == DomainType::TagData } else { t.address == 0 && matches!(t.domain, DomainType::ResourceMapEntry(_, ref p) if *p == t.tag_path.path()) });
            cover!(true, "without resources");
        },
        Err(e) => { assert!(with, "{}: refused without the resource files, with {what}: {e}", c.e.name); cover!(what == "two tags with one path", "twice"); cover!(what == "two scenarios", "scenarios"); cover!(what == "a resource of another path", "other resource"); cover!(what == "an external tag without an index", "external") }
    }
}

contracts! {
    native opened(iters 30000) "GearboxCacheFile::new, XboxCacheFile::new, get_all_tags, load_scenario_info, fixup_bsp_addresses, load_model_data, load_external_vertex_data, get_domain, get_tag*: a well-formed cache file is opened with exactly its regions, tags and identifiers" {
        let mut r = Rng(nd::u64());
        let c = cache(&mut r);
        let m = match open(&c, ParseStrictness::Strict, true) { Ok(m) => m, Err(e) => panic!("{}: a well-formed cache file is refused: {e}", c.e.name) };
        let map = &*m;
        let want = engine_of(c.e.cache_file_version, &c.build).unwrap();
        assert!(map.get_engine().name == want.name, "opened as {} instead of {}", map.get_engine().name, want.name);
        assert!(map.get_name() == c.name && map.get_build_string() == c.build);
        assert!(map.get_scenario_type() as u16 == c.kind);
        assert!(map.get_uncompressed_size() == Some(c.data.len()));
        let d = |a: usize, n: usize| &c.data[a..a + n];
        assert!(map.get_domain(&DomainType::MapData) == Some((&c.data[..], 0)));
        assert!(map.get_domain(&DomainType::TagData) == Some((d(c.tag.0, c.tag.1), c.base)), "tag data region");
        for (k, b) in c.bsps.iter().enumerate() { assert!(map.get_domain(&DomainType::BSP(k)) == Some((d(b.0, b.1), b.2)), "BSP region {k}") }
        assert!(map.get_domain(&DomainType::BSP(c.bsps.len())).is_none());
        for (k, v) in c.verts.iter().enumerate() { assert!(map.get_domain(&DomainType::BSPVertices(k)) == Some((d(v.0, v.1), 0)), "BSP vertex region {k}"); cover!(true, "external vertices") }
        assert!(map.get_domain(&DomainType::BSPVertices(c.verts.len())).is_none());
        if c.e.external_models {
            assert!(map.get_domain(&DomainType::ModelVertexData) == Some((d(c.model.0, c.model.1), 0)), "model vertices");
            assert!(map.get_domain(&DomainType::ModelTriangleData) == Some((d(c.model.0 + c.model.1, c.model.2 - c.model.1), 0)), "model triangles");
        } else { assert!(map.get_domain(&DomainType::ModelVertexData).is_none() && map.get_domain(&DomainType::ModelTriangleData).is_none()) }
        let pc = c.e.cache_parser == EngineCacheParser::PC;
        for (k, (t, f)) in [(ResourceMapType::Bitmaps, &c.bitmaps), (ResourceMapType::Sounds, &c.sounds), (ResourceMapType::Loc, &c.loc)].into_iter().enumerate() {
            assert!(map.get_domain(&DomainType::ResourceMapFile(t)) == if pc { Some((&f[..], 0)) } else { None }, "resource file");
            if !pc { continue }
            for (p, b) in &c.res[k] {
                let merged = k == 1 && c.tags.iter().flatten().any(|t| t.4 && t.0 == *p);
                let (x, a) = map.get_domain(&DomainType::ResourceMapEntry(t, p.clone())).expect("resource");
                assert!(a == 0 && (merged || x == &b[..]), "resource {p}")
            }
            assert!(map.get_domain(&DomainType::ResourceMapEntry(t, "missing".into())).is_none());
        }
        // tags
        let all: BTreeSet<String> = map.get_all_tags().iter().map(|p| p.to_string()).collect();
        assert!(all.len() == map.get_all_tags().len());
        assert!(all == c.tags.iter().flatten().map(|t| TagPath::new(&t.0, t.1).unwrap().to_string()).collect(), "tags of the map");
        for (i, t) in c.tags.iter().enumerate() {
            let by_index = map.get_tag_by_index(i);
            let Some((path, g, id, addr, ext)) = t else { assert!(by_index.is_none(), "tag {i} is unset"); cover!(true, "unset tag"); continue };
            let p = TagPath::new(path, *g).unwrap();
            let tag = map.get_tag(&p).expect("tag by path");
            let k = c.bsps.iter().position(|b| b.3 == i);
            for q in [map.get_tag_by_id(ID::from_u32(*id)), by_index, map.get_tag_by_tag_reference(&TagReference::Set(p.clone()))] { let q = q.expect("tag by identifier"); assert!(q.tag_path == p && q.address == tag.address && q.domain == tag.domain) }
            assert!(tag.tag_path == p);
            if !ext {
                assert!(tag.address == *addr, "address of tag {i}");
                assert!(tag.domain == match k { Some(k) => DomainType::BSP(k), None => DomainType::TagData }, "region of tag {i}");
            }
            else if *g == TagGroup::Sound {
                // everything but the pitch ranges, sample rate, channels and format is the map's
                let res = &c.res[1].iter().find(|x| x.0 == *path).unwrap().1;
                let own = d(*addr - c.base + c.tag.0, 164);
                let (x, a) = map.get_domain(&tag.domain).expect("sound");
                assert!(tag.domain == DomainType::ResourceMapEntry(ResourceMapType::Sounds, path.clone()));
                assert!(a == 0 && x.len() == res.len() && tag.address == res.len() - 164 && x[..tag.address] == res[164..], "pitch ranges of an external sound");
                for j in 0..164 { let w = match j { 6..=7 | 108..=111 | 152..=155 => res[j], 156..=159 => 0, 160..=163 => continue, _ => own[j] }; assert!(x[tag.address + j] == w, "byte {j} of an external sound") }
                cover!(true, "external sound");
            }
            else {
                let m = if *g == TagGroup::Bitmap { ResourceMapType::Bitmaps } else { ResourceMapType::Loc };
                assert!(tag.address == 0 && tag.domain == DomainType::ResourceMapEntry(m, path.clone()), "external tag {i}");
                cover!(true, "external tag");
            }
        }
        assert!(map.get_tag_by_index(c.tags.len()).is_none() && map.get_tag_by_id(ID::null()).is_none());
        assert!(map.get_scenario_tag().tag_path.path() == c.tags[c.scenario].as_ref().unwrap().0);
        let n = c.bsps.iter().map(|b| b.1).max().unwrap_or(0);
        assert!(map.get_used_tag_space() == Some(c.tag.1 + if want.external_bsps { 0 } else { n }), "tag space");
        let est = if want.external_bsps { None } else { c.bsps.first().map(|b| b.2 + b.1 - c.base) };
        assert!(map.get_estimated_max_tag_space() == est, "estimated tag space");
        cover!(c.bsps.len() == 3, "three BSPs");
        cover!(!pc, "xbox");
    }

    native checksum(iters 8000) "GearboxCacheFile::new: the checksum of the regions is computed over exactly them; a wrong one is refused when strict, unless the header disables it" {
        let mut r = Rng(nd::u64());
        let mut c = cache(&mut r);
        if c.e.cache_parser != EngineCacheParser::PC { return }
        let sum = u32::from_le_bytes(c.data[c.head.0..c.head.0 + 4].try_into().unwrap());
        let m = open(&c, ParseStrictness::Strict, true).unwrap();
        assert!(m.get_crc32() == Some((sum, sum)), "checksum of an intact file");
        let bad = if r.below(2) == 0 { sum ^ 1 << r.below(32) } else { r.next() as u32 };
        word(&mut c.data, c.head.0, bad as usize);
        if bad != sum && bad != u32::MAX { assert!(open(&c, ParseStrictness::Strict, true).is_err(), "wrong checksum accepted") }
        assert!(open(&c, ParseStrictness::Relaxed, true).unwrap().get_crc32() == Some((bad, sum)));
        word(&mut c.data, c.head.0, u32::MAX as usize);
        assert!(open(&c, ParseStrictness::Strict, true).unwrap().get_crc32() == Some((u32::MAX, sum)));
        // a changed byte of a region is noticed
        word(&mut c.data, c.head.0, sum as usize);
        let (a, n) = match r.below(4) { 0 if !c.bsps.is_empty() => { let b = c.bsps[r.below(c.bsps.len())]; (b.0, b.1) }, 1 if c.e.external_models => (c.model.0, c.model.2), 2 if !c.verts.is_empty() => c.verts[r.below(c.verts.len())], _ => c.tag };
        if n == 0 { return }
        c.data[a + r.below(n)] ^= 1 << r.below(8);
        assert!(open(&c, ParseStrictness::Strict, true).is_err(), "changed byte accepted");
    }

    native engines(iters 20000) "ParsedCacheFileHeader::read_from_map_data, match_engine: the engine is the one of the version and build, or the default of the version" {
        let mut r = Rng(nd::u64());
        let mut c = cache(&mut r);
        let builds: Vec<&str> = ALL_SUPPORTED_ENGINES.iter().filter_map(|e| e.build).flat_map(|b| b.fallback.iter().copied().chain([b.string])).collect();
        let v = match r.below(4) { 0 => r.next() as u32, 1 => r.below(620) as u32, _ => ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())].cache_file_version };
        let near = builds[r.below(builds.len())];
        let near = match r.below(3) { 0 => format!("{near}{}", r.below(10)), 1 => near[..near.len().saturating_sub(1)].to_string(), _ => near.replace("0", "1") };
        let b = match r.below(6) { 0 => "01.00", 1 => "", 2 => &near[..], _ => builds[r.below(builds.len())] };
        let demo = c.head.1 > 700;
        let at = off(if demo { "CacheFileHeaderPCDemo" } else { "CacheFileHeader" }, "build");
        c.data[at..at + 32].fill(0);
        c.data[at..at + b.len()].copy_from_slice(b.as_bytes());
        word(&mut c.data, c.head.1, v as usize);
        let h = ParsedCacheFileHeader::read_from_map_data(&c.data).expect("header");
        assert!(h.cache_version == v && h.build.as_str() == b && h.tag_data_offset == c.tag.0 && h.tag_data_size == c.tag.1 && h.decompressed_size == c.data.len() && h.map_type as u16 == c.kind && h.name.as_str() == c.name);
        assert!(h.crc32 == u32::from_le_bytes(c.data[c.head.0..c.head.0 + 4].try_into().unwrap()));
        let want = engine_of(v, b);
        assert!(h.match_engine().map(|e| e.name) == want.map(|e| e.name), "version {v} build {b:?}");
        assert!(get_map_details(&c.data).is_ok() == want.is_some());
        // anything else is no header
        let n = r.below(0x800); assert!(ParsedCacheFileHeader::read_from_map_data(&c.data[..n]).is_err(), "{n} bytes accepted as a header");
        let at = [off("CacheFileHeader", "head_fourcc"), off("CacheFileHeader", "foot_fourcc"), off("CacheFileHeaderPCDemo", "head_fourcc"), off("CacheFileHeaderPCDemo", "foot_fourcc")];
        let at = if demo { at[2 + r.below(2)] } else { at[r.below(2)] };
        c.data[at + r.below(4)] ^= 1 << r.below(8);
        assert!(ParsedCacheFileHeader::read_from_map_data(&c.data).is_err(), "accepted without its signature");
        cover!(want.is_none(), "unknown engine");
    }

    native resources(iters 40000) "ResourceMap::from_data, get, get_by_path, len, data, into_data: exactly the stored paths and blocks; damaged files are refused without a panic or a disproportionate allocation" {
        let mut r = Rng(nd::u64());
        let n = r.below(6);
        let it = items(&mut r, n, false);
        let f = resource(&mut r, &it);
        let m = ResourceMap::from_data(f.clone()).expect("a well-formed resource file is opened");
        assert!(m.len() == n && m.data() == &f[..] && m.get(n).is_none() && m.get(usize::MAX).is_none());
        for (i, (p, b)) in it.iter().enumerate() {
            for x in [m.get(i), m.get_by_path(p), Some(unsafe { m.get_unchecked(i) })] { let x = x.expect("resource"); assert!(x.get_path() == p && x.get_data() == &b[..] && &f[x.get_data_offset()..x.get_data_offset() + b.len()] == &b[..], "resource {i}") }
            for q in [p.to_ascii_uppercase(), p.replace('s', "S"), p.replace('x', "X")] { assert!(m.get_by_path(&q).is_some() == it.iter().any(|x| x.0 == q), "resource {q:?} among {it:?}") }
            assert!(m.get_by_path(&format!("{p}?")).is_none() && m.get_by_path(&p[..p.len() - 1]).map_or(true, |x| x.get_path() == &p[..p.len() - 1]));
        }
        assert!(m.into_data() == f);
        let mut g = f;
        for _ in 0..1 + r.below(4) {
            if r.below(4) == 0 { let n = r.below(g.len() + 1); g.truncate(n) }
            else if g.len() >= 16 {
                let k = if r.below(2) == 0 { 4 * r.below(4) } else { r.below(g.len() - 3) };
                let x = match r.below(5) { 0 => u32::MAX, 1 => g.len() as u32, 2 => r.below(g.len() + 2) as u32, 3 => 0x08000000, _ => r.next() as u32 };
                put(&mut g, k, 4, x, true)
            }
        }
        crate::memory::reset();
        let m = ResourceMap::from_data(g.clone());
        let peak = crate::memory::peak();
        assert!(peak <= g.len() * 64 + 100_000, "opening a {}-byte resource file took {peak} bytes of memory", g.len());
        if let Ok(m) = m {
            cover!(n > 2, "damaged and accepted");
            for i in 0..m.len() {
                let x = m.get(i).expect("resource");
                let a = x.get_data_offset();
                assert!(g.get(a..a + x.get_data().len()) == Some(x.get_data()), "a resource lies outside its file");
                let p = x.get_path();
                assert!(std::str::from_utf8(p.as_bytes()).is_ok());
                let q = g.as_ptr() as usize; let _ = q;
                let d = m.data().as_ptr() as usize;
                let s = p.as_ptr() as usize;
                assert!(s >= d && s - d + p.len() < g.len() && g[s - d + p.len()] == 0, "a path lies outside its file");
            }
        }
    }

    native from_disk(iters 400) "load_map_from_filesystem, decompress_map_data: the cache file opened from disk is the one of its decompressed bytes, with the resource files beside it" {
        let mut r = Rng(nd::u64());
        let mut c = cache(&mut r);
        let p = if c.head.1 > 700 { "CacheFileHeaderPCDemo" } else { "CacheFileHeader" };
        let n = c.data.len() + r.below(2) * r.below(50);
        let size = if r.below(4) == 0 { r.below(0x900) } else { n };
        word(&mut c.data, off(p, "decompressed_size"), size);
        let mut f = c.data.clone();
        let packed = c.e.compression_type == EngineCompressionType::Deflate;
        if packed {
            let pad = off(p, "compression_padding");
            let k = u32::from_le_bytes(f[pad..pad + 4].try_into().unwrap()) as usize;
            let body = f.split_off(0x800);
            f.extend(zlib(&mut r, &body));
            for _ in 0..k { let b = r.u8(); f.push(b) }
            if size >= n { c.data.resize(size, 0) }
        }
        let d = crate::memory::scratch();
        let at = d.join("a.map");
        std::fs::write(&at, &f).unwrap();
        let beside = r.below(2) == 0;
        if beside { for (n, b) in [("bitmaps", &c.bitmaps), ("sounds", &c.sounds), ("loc", &c.loc)] { std::fs::write(d.join(format!("{n}.map")), b).unwrap() } }
        let x = ringhopper::map::load_map_from_filesystem(&at, ParseStrictness::Strict);
        let y = if packed && size < n { None } else { open(&c, ParseStrictness::Strict, beside).ok() };
        std::fs::remove_dir_all(&d).unwrap();
        match (x, y) {
            (Ok(x), Some(y)) => {
                assert!(x.get_domain(&DomainType::MapData) == Some((&c.data[..], 0)) && y.get_all_tags().len() == x.get_all_tags().len(), "other contents");
                for t in [ResourceMapType::Bitmaps, ResourceMapType::Sounds] { assert!(x.get_domain(&DomainType::ResourceMapFile(t)) == y.get_domain(&DomainType::ResourceMapFile(t)), "resource files") }
                cover!(packed, "decompressed");
            },
            (Ok(_), None) => assert!(packed, "opened although its bytes are refused"),
            (Err(e), Some(_)) => panic!("{}: refused: {e}", c.e.name),
            _ => cover!(true, "refused")
        }
    }

    native refused(iters 40000) "get_all_tags, load_scenario_info, fixup_bsp_addresses, handle_external_tags, load_model_data, load_external_vertex_data: a cache file in which one thing denies another is refused, whatever the strictness; resources are compared only when they are there" { inconsistent(nd::u64()) }

    native damaged(iters 60000) "GearboxCacheFile::new, XboxCacheFile::new: a damaged cache file is refused or opened, without a panic; its regions still lie inside it" {
        let mut r = Rng(nd::u64());
        let mut c = cache(&mut r);
        for _ in 0..1 + r.below(3) {
            let n = c.data.len();
            if n == 0 { break }
            let k = match r.below(8) { 0 => r.below(32), 1 => c.tag.0 + 4 * r.below(10), 2 => c.tag.0 + 36 + 4 * r.below(8 * c.tags.len() + 1), 3 => c.head.1, 4 if !c.bsps.is_empty() => c.bsps[0].0 + 4 * r.below(6), 5 => c.tag.0 + c.tag.1 - 4 * (1 + r.below(8 * c.bsps.len() + 4)), 6 => c.tags[c.scenario].as_ref().unwrap().3 - c.base + c.tag.0 + 1444 + 4 * r.below(3), _ => r.below(n) };
            if r.below(12) == 0 { c.data.truncate(r.below(n + 1)); continue }
            if k + 4 > n || n == 0 { continue }
            let x = match r.below(8) { 0 => u32::MAX, 1 => 0, 2 => c.data.len() as u32 - r.below(40).min(c.data.len()) as u32, 3 => (c.base + r.below(c.tag.1)) as u32, 4 => 0x7FFFFFFF, 5 => r.below(c.data.len()) as u32, 6 => u32::from_le_bytes(c.data[k..k + 4].try_into().unwrap()) ^ 1 << r.below(32), _ => r.next() as u32 };
            put(&mut c.data, k, 4, x, true);
        }
        match open(&c, ParseStrictness::Relaxed, r.below(4) != 0) {
            Ok(m) => {
                cover!(true, "damaged and accepted");
                let inside = |d: DomainType| if let Some((x, _)) = m.get_domain(&d) { let (a, z) = m.get_domain(&DomainType::MapData).unwrap().0.as_ptr_range().into_ends(); let x = x.as_ptr_range(); assert!(x.start >= a && x.end <= z, "region {d:?} lies outside the file") };
                for d in [DomainType::TagData, DomainType::ModelVertexData, DomainType::ModelTriangleData] { inside(d) }
                for k in 0..c.bsps.len() + 2 { inside(DomainType::BSP(k)); inside(DomainType::BSPVertices(k)) }
                for p in m.get_all_tags() { assert!(m.get_tag(&p).is_some_and(|t| t.tag_path == p), "a listed tag is not found") }
                let s = m.get_scenario_tag();
                assert!(s.tag_path.group() == TagGroup::Scenario);
            },
            Err(_) => cover!(true, "damaged and refused")
        }
    }
}
trait Ends { type T; fn into_ends(self) -> (Self::T, Self::T); }
impl<T> Ends for std::ops::Range<T> { type T = T; fn into_ends(self) -> (T, T) { (self.start, self.end) } }
