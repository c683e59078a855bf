//! P12: extracting a tag from a cache file. Whole synthetic cache files of every engine are laid out around a tag value;
//! what `extract_tag` gives is the stored value with what the cache file changed undone.
use crate::p03::{Placer, World};
use crate::p16::{blank, named, off, resource, word};
use crate::{cover, nd, spec::*, Contract};
use ringhopper::map::gearbox::GearboxCacheFile;
use ringhopper::map::xbox::XboxCacheFile;
use ringhopper::tag::model::ModelFunctions;
use ringhopper::tag::nudge::nudge_tag;
use ringhopper::tag::object::downcast_base_object_mut;
use ringhopper::tag::scenario_structure_bsp::recompress_scenario_structure_bsp_vertices;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use ringhopper_primitives::byteorder::LittleEndian;
use ringhopper_primitives::engine::*;
use ringhopper_primitives::map::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;

fn field(s: usize, f: &str) -> usize { layout().structs[s].fields.iter().position(|x| x.rust == f).unwrap_or_else(|| panic!("{f}")) }
fn sub<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Val { let Val::Struct(v) = v else { panic!() }; &mut v[field(s, f)] }
/// set a number, or one unit of several
fn set(s: usize, v: &mut Val, f: &str, x: u32) { let w = sub(s, v, f); *w = Val::Units(vec![x]) }
fn get(s: usize, v: &mut Val, f: &str) -> u32 { let Val::Units(u) = sub(s, v, f) else { panic!() }; u[0] }
fn items<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Vec<Val> { let Val::List(l) = sub(s, v, f) else { panic!() }; l }
fn bytes<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Vec<u8> { let Val::Bytes(l) = sub(s, v, f) else { panic!() }; l }
/// every value of the structure with this name inside the value
fn visit(s: usize, v: &mut Val, name: &str, f: &mut dyn FnMut(usize, &mut Val)) {
    let l = layout();
    if l.structs[s].name == name { f(s, v); return }
    let Val::Struct(v) = v else { panic!() };
    for (d, v) in l.structs[s].fields.iter().zip(v) {
        match (d.kind, v) { (Kind::Struct(q), v) => visit(q, v, name, f), (Kind::List(q), Val::List(i)) => for v in i { visit(q, v, name, f) }, _ => () }
    }
}
/// bytes of a value of numbers only
fn flat(s: usize, v: &Val) -> Vec<u8> {
    let d = &layout().structs[s];
    let Val::Struct(v) = v else { panic!() };
    let mut out = vec![0; d.size];
    for (f, v) in d.fields.iter().zip(v) { match (f.kind, v) { (Kind::Prim(p), Val::Units(u)) => for (i, x) in u.iter().enumerate() { let w = p.shape().0; put(&mut out, f.off + i * w, w, *x, true) }, (Kind::Pad, _) => (), _ => panic!("{}", f.rust) } }
    out
}
fn real(r: &mut Rng) -> u32 { (((r.below(20001) as f32) - 10000.0) / [1.0, 10.0, 777.0, 5000.0][r.below(4)]).to_bits() }

/// What the cache file holds besides the tag's own bytes, and what it stands for.
#[derive(Default)]
struct Made {
    engine: Option<&'static Engine>, data: Vec<u8>, bitmaps: Vec<u8>, sounds: Vec<u8>,
    parts: Vec<(Vec<u8>, Vec<u16>)>, pixels: Vec<(Vec<u8>, u32)>, offsets: [f64; 32], campaign: bool, extended: bool, bad: bool, group: usize, tag_region: (usize, usize)
}

/// format, bits of a pixel, pixels on a side of a block
const FORMATS: [(u32, usize, usize); 14] = [(0, 8, 1), (1, 8, 1), (2, 8, 1), (3, 16, 1), (6, 16, 1), (8, 16, 1), (9, 16, 1), (10, 32, 1), (11, 32, 1), (14, 4, 4), (15, 8, 4), (16, 8, 4), (17, 8, 1), (18, 8, 4)];
fn weave(c: &[usize], n: u32) -> usize { let mut m = 0; let mut k = 0; for i in 0..n { for x in c { m |= (x >> i & 1) << k; k += 1 } } m }
/// where the pixel is in a swizzled texture
fn place(x: usize, y: usize, z: usize, w: usize, h: usize, d: usize) -> usize {
    if d > 1 { return weave(&[x, y, z], w.trailing_zeros()) }
    let n = w.min(h);
    weave(&[x % n, y % n], n.trailing_zeros()) + (x / n + y / n) * n * n
}
fn swizzled(image: &[u8], px: usize, w: usize, h: usize, d: usize) -> Vec<u8> {
    let mut out = vec![0; image.len()];
    for z in 0..d { for y in 0..h { for x in 0..w { let (i, k) = ((x + w * (y + h * z)) * px, place(x, y, z, w, h, d) * px); out[k..k + px].copy_from_slice(&image[i..i + px]) } } }
    out
}

/// Fill in one bitmap: its pixels as the tag holds them, and as the cache file of the engine does.
fn bitmap(r: &mut Rng, e: &Engine, s: usize, v: &mut Val, map: &mut Vec<u8>, external: &mut Vec<u8>, m: &mut Made) {
    let o = &e.bitmap_options;
    let (format, bits, b) = FORMATS[r.below(14)];
    let kind = r.below(3) as u32;
    let swizzle = o.swizzled && b == 1 && r.below(2) == 0;
    let pow = |r: &mut Rng, n: usize| 1usize << r.below(n);
    let (mut w, mut h, d);
    if kind == 1 { w = pow(r, 4); h = if swizzle { w } else { 1 + r.below(9) }; d = if swizzle { w } else { pow(r, 4) } }
    else { w = if swizzle { pow(r, 6) } else { 1 + r.below(33) }; h = if kind == 2 { w } else if swizzle { pow(r, 6) } else { 1 + r.below(20) }; d = 1 }
    if o.texture_dimension_must_modulo_block_size { w = w.next_multiple_of(b); h = h.next_multiple_of(b) }
    let count = r.below(8);
    let mut levels = vec![];
    loop {
        let k = levels.len();
        let half = |x: usize| (x >> k).max(1);
        levels.push((half(w), half(h), half(d)));
        if k == count || (half(w), half(h), half(d)) == (1, 1, 1) { break }
    }
    let mut kept = count;
    if o.texture_dimension_must_modulo_block_size { let n = levels.iter().take_while(|l| l.0 % b == 0 && l.1 % b == 0).count(); levels.truncate(n); kept = n - 1 }
    let faces = if kind == 2 { 6 } else { 1 };
    // pixels[level][face]
    let pixels: Vec<Vec<Vec<u8>>> = levels.iter().map(|l| (0..faces).map(|_| (0..l.0.div_ceil(b) * l.1.div_ceil(b) * l.2 * (bits * b * b / 8)).map(|_| r.u8()).collect()).collect()).collect();
    let image: Vec<u8> = pixels.iter().flatten().flatten().copied().collect();
    let own: Vec<Vec<Vec<u8>>> = if !swizzle { pixels } else { pixels.iter().zip(&levels).map(|(f, l)| f.iter().map(|p| swizzled(p, bits / 8, l.0, l.1, l.2)).collect()).collect() };
    let mut stored: Vec<u8> = vec![];
    let pad = |s: &mut Vec<u8>, r: &mut Rng| while s.len() % o.alignment != 0 { s.push(r.u8()) };
    if o.cubemap_faces_stored_separately && kind == 2 {
        for at in 0..6 {
            let face = [0, 2, 1, 3, 4, 5][at];
            for l in &own { stored.extend(&l[face]) }
            pad(&mut stored, r);
        }
        cover!(levels.len() > 1, "separate faces with levels");
    }
    else {
        for l in own.iter().flatten() { stored.extend(l) }
        pad(&mut stored, r);
        if o.texture_dimension_must_modulo_block_size { for _ in 0..r.below(3) * o.alignment { stored.push(r.u8()) } }
    }
    let outside = e.resource_maps.is_some() && r.below(2) == 0;
    let to = if outside { external } else { map };
    for _ in 0..r.below(5) { let x = r.u8(); to.push(x) }
    let at = to.len();
    let mut size = stored.len();
    to.extend(&stored);
    // one in a while does not have the size its dimensions call for
    if r.below(12) == 0 {
        m.bad = true;
        match r.below(3) { 0 => { size -= o.alignment.min(size); if kind != 2 && o.texture_dimension_must_modulo_block_size { size = 0 } }, 1 if !o.texture_dimension_must_modulo_block_size || kind == 2 && o.cubemap_faces_stored_separately => { size += o.alignment; let n = o.alignment; for _ in 0..n { to.push(0) } }, _ if o.alignment > 1 => size -= 1, _ => size = 0 }
    }
    let mut flags = 1 | (b == 4) as u32 * 2 | (swizzle as u32) << 3 | (outside as u32) << 8;
    let mut depth = d;
    if r.below(40) == 0 { m.bad = true; match r.below(4) { 0 => flags ^= 2, 1 => w = 0, 2 => depth = 3, _ => if o.swizzled { flags |= 2; flags ^= (b == 1) as u32 * 2; flags |= 8; m.bad = b == 4 || flags & 2 != 0 ; if !m.bad { flags ^= 2; m.bad = true } } else { flags |= 8 } } }
    for (f, x) in [("width", w), ("height", h), ("depth", depth), ("_type", kind as usize), ("format", format as usize), ("flags", flags as usize), ("mipmap_count", count), ("pixel_data_offset", at), ("pixel_data_size", size)] { set(s, v, f, x as u32) }
    m.pixels.push((image, kept as u32));
    cover!(swizzle && d > 1, "swizzled volume");
    cover!(swizzle && kind == 2, "swizzled cube map");
    cover!(outside, "external pixels");
    cover!(b == 4 && kept < count, "small levels dropped");
}

fn animation(r: &mut Rng, s: usize, v: &mut Val, m: &mut Made) {
    let nodes = if r.below(30) == 0 { m.bad = true; 65 } else { r.below(65).min(r.below(65)) };
    let frames = r.below(6);
    let mut sizes = [0, 0];
    for n in 0..nodes.min(64) {
        for (f, z) in [("node_rotation_flag_data", 8), ("node_transform_flag_data", 12), ("node_scale_flag_data", 4)] {
            let Val::Units(u) = sub(s, v, f) else { panic!() };
            sizes[1 - (u[n / 32] >> (n % 32) & 1) as usize] += z;
        }
    }
    let compressed = r.below(3) == 0;
    let flags = get(s, v, "flags") & !1 | compressed as u32;
    set(s, v, "flags", flags);
    let kind = r.below(4);
    set(s, v, "frame_info_type", kind as u32); set(s, v, "node_count", nodes as u32); set(s, v, "frame_count", frames as u32);
    // no NaN: it is not a value the format defines
    let mut resize = |f: &str, n: usize| { let mut n = n; if r.below(40) == 0 { m.bad = true; n += 1 + r.below(3) } *bytes(s, v, f) = (0..n).map(|_| match r.u8() { x if x & 0x7F == 0x7F => 7, x => x }).collect() };
    resize("frame_info", [0, 8, 12, 16][kind] * frames);
    if compressed { let n = nodes * 3; let d: Vec<u8> = (0..n).map(|k| k as u8 ^ 0x5A).collect(); *bytes(s, v, "frame_data") = d }
    else { resize("frame_data", sizes[0] * frames); resize("default_data", sizes[1]) }
}
/// The same words, the other way around.
fn turned(d: &[u8], widths: &mut dyn Iterator<Item = usize>) -> Vec<u8> {
    let mut out = vec![];
    while out.len() < d.len() { let w = widths.next().unwrap(); out.extend(d[out.len()..out.len() + w].iter().rev()) }
    out
}
fn fix_animation(a: &mut ModelAnimationsAnimation) {
    let bit = |f: &[u32; 2], n: usize| f[n / 32] >> (n % 32) & 1 == 1;
    let words = |on: bool| -> Vec<usize> { (0..a.node_count as usize).flat_map(|n| {
        let mut w = vec![];
        if bit(&a.node_rotation_flag_data, n) == on { w.extend([2; 4]) }
        if bit(&a.node_transform_flag_data, n) == on { w.extend([4; 3]) }
        if bit(&a.node_scale_flag_data, n) == on { w.extend([4; 1]) }
        w
    }).collect() };
    let (frame, rest) = (words(true), words(false));
    let sum = |v: &[usize]| v.iter().sum::<usize>();
    let info = turned(&a.frame_info.bytes, &mut std::iter::repeat(4));
    a.frame_info.bytes = info;
    if a.flags.compressed_data {
        let n = sum(&frame) * a.frame_count as usize;
        let mut d = vec![0; n];
        d.extend(&a.frame_data.bytes);
        a.frame_data.bytes = d;
        a.offset_to_compressed_data = n as u32;
        a.default_data.bytes = vec![0; sum(&rest)];
    } else {
        a.frame_data.bytes = turned(&a.frame_data.bytes, &mut frame.iter().copied().cycle());
        a.default_data.bytes = turned(&a.default_data.bytes, &mut rest.iter().copied());
    }
}

fn model(r: &mut Rng, e: &'static Engine, p: &mut Placer, s: usize, v: &mut Val, m: &mut Made, vert: &mut Vec<u8>, tri: &mut Vec<u8>) {
    let (nodes, regions) = (items(s, v, "nodes").len(), { let l = layout(); let d = &l.structs[s].fields[field(s, "regions")]; let Kind::List(q) = d.kind else { panic!() }; items(s, v, "regions").iter_mut().map(|x| items(q, x, "permutations").len()).collect::<Vec<_>>() });
    let homes: Vec<usize> = (0..regions.len()).filter(|i| regions[*i] > 0).collect();
    if nodes == 0 || homes.is_empty() { items(s, v, "runtime_markers").clear() }
    visit(s, v, "ModelMarkerInstance", &mut |s, v| {
        let at = homes[r.below(homes.len())];
        let (mut a, mut b, mut c) = (at, r.below(regions[at]), r.below(nodes));
        if r.below(60) == 0 { m.bad = true; match r.below(3) { 0 => a = regions.len(), 1 => b = regions[at], _ => c = nodes } }
        set(s, v, "region_index", a as u32); set(s, v, "permutation_index", b as u32); set(s, v, "node_index", c as u32)
    });
    let small = e.compressed_models;
    let q = named(if small { "ModelVertexCompressed" } else { "ModelVertexUncompressed" });
    visit(s, v, "ModelGeometryPart", &mut |s, v| {
        let (n, t) = (r.below(6), match r.below(4) { 0 => 0, _ => r.below(12) });
        let mut mk = Maker::new(r.next(), 0, Side::Map);
        let vertices: Vec<u8> = (0..n).flat_map(|_| {
            let mut x = mk.struct_val(q);
            let fields = &layout().structs[q].fields;
            let Val::Struct(u) = &mut x else { panic!() };
            for (f, u) in fields.iter().zip(u) {
                let Val::Units(u) = u else { continue };
                if f.rust.ends_with("_index") && !small { *u = vec![if nodes == 0 || r.below(4) == 0 { 0xFFFF } else { r.below(nodes.min(42)) as u32 }] }
                else if let Kind::Prim(p) = f.kind { if p.shape().2 { for x in u { *x = real(r) } } }
            }
            flat(q, &x)
        }).collect();
        let indices: Vec<u16> = (0..if t > 0 { t + 2 } else { 0 }).map(|_| match r.below(5) { 0 => 0xFFFF, 1 => r.next() as u16, _ => r.below(9) as u16 }).collect();
        let raw: Vec<u8> = indices.iter().flat_map(|x| x.to_le_bytes()).collect();
        let mut lay = |r: &mut Rng, into: &mut Vec<u8>, d: &[u8], p: &mut Placer| -> u32 {
            if e.external_models { for _ in 0..r.below(7) { let x = r.u8(); into.push(x) } let at = into.len(); into.extend(d); at as u32 }
            else { let q = p.room(d.len()); p.region(q.0)[q.1..q.1 + d.len()].copy_from_slice(d); p.address(q) }
        };
        let mut at = lay(r, vert, &vertices, p);
        if small && !e.external_models { let q = p.room(12); p.num(q, 4, 4, at); at = p.address(q) }
        let ta = lay(r, tri, &raw, p);
        let mut counts = (n as u32, t as u32);
        if r.below(80) == 0 { m.bad = true; if r.below(2) == 0 { counts.0 = 0x10000 + r.below(2) as u32 * 0x7FFF0000 } else { counts.1 = 0xFFFE * 3 + 1 + r.below(2) as u32 * 0x7FFF0000 } }
        set(s, v, "triangle_count", counts.1); set(s, v, "triangle_pointer", ta);
        let x = named("ModelVertexReference");
        let w = sub(s, v, "vertices");
        set(x, w, "vertex_count", counts.0); set(x, w, "vertex_pointer", at);
        m.parts.push((vertices, indices));
        cover!(t % 3 == 2, "indices fill the last triple partly");
    });
}

const PATHS: [(&str, &str); 3] = [("weapon", "weapons\\pistol\\pistol"), ("weapon", "weapons\\plasma rifle\\plasma rifle"), ("damage_effect", "weapons\\pistol\\bullet")];

fn make(g: &Group, seed: u64, budget: usize) -> (Made, TagPath) {
    let l = layout();
    let mut mk = Maker::new(seed, budget, Side::Map);
    // only the scenario's own BSPs may be named
    for p in &mut mk.paths { if ["scenario", "scenario_structure_bsp", "font", "detail_object_collection"].map(|n| l.codes.iter().find(|c| c.0 == n).unwrap().2).contains(&p.0) { p.0 = l.codes[0].2 } }
    let mut r = Rng(mk.rng.next());
    let e = &ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())];
    let mut m = Made { engine: Some(e), group: g.root, ..Default::default() };
    let mut v = mk.struct_val(g.root);
    let in_bsp = g.name == "scenario_structure_bsp";
    let base = if e.base_memory_address.inferred { 0x50000000 } else { e.base_memory_address.address as usize };
    let w = World { engine: e, map: vec![0; 0x800], tag: vec![], tag_base: base, bsp: vec![0; 24], bsp_base: base + 0x1000000 - r.below(1024) * 4, verts: vec![], sounds: resource(&mut r, &[]), tags: vec![] };
    let mut p = Placer { w, r: Rng(r.next()), in_bsp, outside: e.resource_maps.is_some() };
    m.bitmaps = resource(&mut r, &[]);

    // what the cache holds, tag by tag
    let kind = r.below(3) as u32;
    let flags = if r.below(3) == 0 { 8 } else { 0 } | r.next() as u32 & 7;
    m.campaign = kind == 0 && flags & 8 == 0;
    let sc = named("Scenario");
    let mut scenario = default_struct(sc);
    let path = match PATHS.iter().filter(|x| x.0 == g.name).nth(r.below(3)) { Some(x) if r.below(4) != 0 => x.1, _ => "self\\tag" };
    let this = TagPath::new(path, TagGroup::from_fourcc(g.code).unwrap()).unwrap();
    let mut tags: Vec<(TagPath, usize)> = vec![(if g.name == "scenario" { this.clone() } else { TagPath::new("levels\\x\\x", TagGroup::Scenario).unwrap() }, 0)];
    let me = if g.name == "scenario" { 0 } else { tags.push((this.clone(), 0)); 1 };
    for (c, q) in &mk.paths { tags.push((TagPath::new(std::str::from_utf8(q).unwrap(), TagGroup::from_fourcc(*c).unwrap()).unwrap(), 0)) }
    let mut seen = vec![];
    tags.retain(|t| !seen.contains(&t.0) && { seen.push(t.0.clone()); true });
    // tags whose content matters for another's
    let mut others: Vec<(usize, usize, Val)> = vec![];
    let more = if in_bsp { r.below(5) } else if g.name == "unicode_string_list" { r.below(3) } else { 0 };
    for i in 0..more {
        let doc = in_bsp;
        let q = named(if doc { "DetailObjectCollection" } else { "Font" });
        let mut x = default_struct(q);
        if doc { set(q, &mut x, "global_z_offset", real(&mut r)) } else { let k = (r.below(3) == 0) as u32; set(q, &mut x, "encoding_type", k); m.extended |= k == 1 }
        others.push((tags.len(), q, x));
        tags.push((TagPath::new(&format!("more\\m{i}"), if doc { TagGroup::DetailObjectCollection } else { TagGroup::Font }).unwrap(), 0));
    }
    for (i, (t, _)) in tags.iter().enumerate() { p.w.tags.push((ID::new(Some(i as u16), 0x6174), Tag { tag_path: t.clone(), address: 0, domain: DomainType::TagData })) }
    p.w.tag = vec![0; if e.external_models { 40 } else { 36 } + tags.len() * 32];
    let array = if e.external_models { 40 } else { 36 };
    let (mut vert, mut tri) = (vec![], vec![]);

    // the value, as this kind of tag can be in a cache file
    let mut more_external = std::mem::take(&mut m.bitmaps);
    match &g.name[..] {
        "bitmap" => { let mut map = std::mem::take(&mut p.w.map); visit(g.root, &mut v, "BitmapData", &mut |s, v| bitmap(&mut r, e, s, v, &mut map, &mut more_external, &mut m)); p.w.map = map;
            visit(g.root, &mut v, "BitmapGroupSprite", &mut |s, v| { let i = match r.below(4) { 0 => 0xFFFF, _ => r.below(5) }; set(s, v, "bitmap_index", i as u32) }) },
        "model_animations" => visit(g.root, &mut v, "ModelAnimationsAnimation", &mut |s, v| animation(&mut r, s, v, &mut m)),
        "model" | "gbxmodel" => model(&mut r, e, &mut p, g.root, &mut v, &mut m, &mut vert, &mut tri),
        "sound" => { visit(g.root, &mut v, "SoundPermutation", &mut |s, v| { let b = bytes(s, v, "samples"); if b.len() % 2 == 1 && r.below(20) != 0 { b.pop(); } let odd = b.len() % 2 == 1; m.bad |= odd && get(s, v, "format") == 0 || odd && get(s, v, "format") > 3 }); set(g.root, &mut v, "maximum_bend_rate", (0.9 + r.below(2000) as f32 / 10000.0).to_bits()) },
        "scenario" => {
            items(sc, &mut v, "structure_bsps").clear();
            items(sc, &mut v, "scripts").clear(); items(sc, &mut v, "globals").clear();
            let (max, size) = { let k = r.below(4); (k, r.below(k + 1)) };
            let mut d: Vec<u8> = (0..56 + max * 20).map(|_| r.u8()).collect();
            d[..32].fill(0); d[0] = b's'; put(&mut d, 32, 2, max as u32, true); put(&mut d, 34, 2, 20, true); put(&mut d, 46, 2, size as u32, true);
            let types = l.enums.iter().find(|e| e.name == "ScenarioScriptValueType").unwrap();
            let known: Vec<u32> = types.options.iter().filter(|o| !o.3).map(|o| o.0 as u32).collect();
            for k in 0..max { put(&mut d, 56 + k * 20 + 4, 2, known[r.below(known.len())], true); let f = r.below(32) as u32; put(&mut d, 56 + k * 20 + 6, 2, f, true) }
            for k in [37, 38, 39, 44, 45] { d[k] = 0 }
            *bytes(sc, &mut v, "script_syntax_data") = d;
        },
        "scenario_structure_bsp" => visit(g.root, &mut v, "ScenarioStructureBSPDetailObjectData", &mut |s, v| {
            let n = items(s, v, "z_reference_vectors").len();
            let Kind::List(q) = layout().structs[s].fields[field(s, "cells")].kind else { panic!() };
            for c in items(s, v, "cells") {
                let count = r.below(n + 1);
                let start = r.below(n - count + 1);
                let mut bits = 0u32;
                while bits.count_ones() < count as u32 { bits |= 1 << if r.below(2) == 0 { r.below(6) } else { r.below(32) } }
                set(q, c, "count_index", start as u32); set(q, c, "valid_layers_flags", bits);
                if r.below(60) == 0 { m.bad = true; set(q, c, "valid_layers_flags", 1); set(q, c, "count_index", [n as u32, u32::MAX][r.below(2)]) }
            }
            let Kind::List(q) = layout().structs[s].fields[field(s, "z_reference_vectors")].kind else { panic!() };
            for z in items(s, v, "z_reference_vectors") { set(q, z, "z_reference_l", real(&mut r)) }
        }),
        _ => ()
    }
    m.bitmaps = more_external;
    visit(g.root, &mut v, "ObjectChangeColors", &mut |s, v| {
        let Kind::List(q) = layout().structs[s].fields[field(s, "permutations")].kind else { panic!() };
        let list = items(s, v, "permutations");
        let n = list.len();
        let mut w: Vec<f32> = (0..n).map(|_| r.below(1001) as f32 / 1000.0).collect();
        w.sort_by(f32::total_cmp);
        if let Some(x) = w.last_mut() { *x = 1.0 }
        if n > 2 && r.below(3) == 0 { for i in 0..n { w[i] = (i + 1) as f32 / n as f32 } }
        if n > 1 && r.below(30) == 0 { m.bad = true; match r.below(3) { 0 => w[n - 1] = 0.99999, 1 => w[n - 1] = 1.00001, _ => { w[0] = 0.6; w[1] = if n == 2 { 1.0 } else { 0.5 }; if n == 2 { w[0] = 1.5 } } } }
        for (x, w) in list.iter_mut().zip(w) { set(q, x, "weight", w.to_bits()) }
    });
    if g.name == "scenario" { set(sc, &mut v, "_type", kind); set(sc, &mut v, "flags", flags) }
    let at = loop { let q = p.room(l.structs[g.root].size); if q.0 == in_bsp { break q } };
    p.store(g.root, &mut v, at);
    tags[me].1 = p.address(at) as usize;
    p.in_bsp = false;
    for (i, q, mut x) in others { let at = p.room(l.structs[q].size); p.store(q, &mut x, at); tags[i].1 = p.address(at) as usize }

    // the file: resources, vertices and BSP, models, tags
    let mut data = std::mem::take(&mut p.w.map);
    let junk = |d: &mut Vec<u8>, r: &mut Rng| for _ in 0..r.below(6) { let x = r.u8(); d.push(x) };
    junk(&mut data, &mut r);
    if g.name != "scenario" {
        set(sc, &mut scenario, "_type", kind); set(sc, &mut scenario, "flags", flags);
        if in_bsp {
            let verts = data.len();
            let n = p.w.verts.len();
            data.extend(&p.w.verts);
            junk(&mut data, &mut r);
            let start = data.len();
            let mut bsp = p.w.bsp.clone();
            word(&mut bsp, 0, tags[me].1); word(&mut bsp, 20, g.code as usize);
            if e.external_bsps { word(&mut bsp, 4, n); word(&mut bsp, 8, verts) }
            data.extend(&bsp);
            junk(&mut data, &mut r);
            let b = named("ScenarioBSP");
            let mut x = default_struct(b);
            set(b, &mut x, "bsp_start", start as u32); set(b, &mut x, "bsp_size", bsp.len() as u32); set(b, &mut x, "bsp_address", p.w.bsp_base as u32);
            *sub(b, &mut x, "structure_bsp") = Val::Ref(g.code, path.as_bytes().to_vec());
            items(sc, &mut scenario, "structure_bsps").push(x);
            let d = named("ScenarioDetailObjectCollectionPalette");
            let docs: Vec<usize> = (0..tags.len()).filter(|i| tags[*i].0.path().starts_with("more")).collect();
            let n = r.below(8) * if r.below(4) == 0 { 6 } else { 1 };
            for k in 0..n {
                let mut x = default_struct(d);
                if !docs.is_empty() && r.below(4) != 0 {
                    let i = docs[r.below(docs.len())];
                    *sub(d, &mut x, "reference") = Val::Ref(code_of(TagGroup::DetailObjectCollection), tags[i].0.path().as_bytes().to_vec());
                    let o = tags[i].1 - base + off("DetailObjectCollection", "global_z_offset");
                    if k < 32 { m.offsets[k] = f32::from_le_bytes(p.w.tag[o..o + 4].try_into().unwrap()) as f64 * 0.125 }
                    cover!(k >= 32, "more collections than layers");
                }
                else if r.below(60) == 0 {
                    // some other tag, or the BSP itself
                    let i = 1 + r.below(tags.len() - 1);
                    *sub(d, &mut x, "reference") = Val::Ref(code_of(tags[i].0.group()), tags[i].0.path().as_bytes().to_vec());
                    m.bad |= k < 32 && !docs.contains(&i);
                    if k < 32 && docs.contains(&i) { let o = tags[i].1 - base + off("DetailObjectCollection", "global_z_offset"); m.offsets[k] = f32::from_le_bytes(p.w.tag[o..o + 4].try_into().unwrap()) as f64 * 0.125 }
                    cover!(k < 32 && i == me, "a palette naming the BSP");
                }
                items(sc, &mut scenario, "detail_object_collection_palette").push(x);
            }
        }
        let at = p.room(l.structs[sc].size);
        p.store(sc, &mut scenario, at);
        tags[0].1 = p.address(at) as usize;
    }
    let model = data.len();
    data.extend(&vert); data.extend(&tri);
    junk(&mut data, &mut r);
    for i in 0..tags.len() {
        let at = array + i * 32;
        let name = p.room(tags[i].0.path().len() + 1);
        let text = tags[i].0.path().as_bytes();
        p.w.tag[name.1..name.1 + text.len()].copy_from_slice(text);
        p.w.tag[name.1 + text.len()] = 0;
        let t = &mut p.w.tag;
        let code = code_of(tags[i].0.group()) as usize;
        word(t, at, code); word(t, at + 4, u32::MAX as usize); word(t, at + 8, u32::MAX as usize);
        word(t, at + 12, p.w.tags[i].0.as_u32() as usize); word(t, at + 16, base + name.1); word(t, at + 20, tags[i].1);
    }
    let t = &mut p.w.tag;
    for _ in 0..r.below(3) { let x = r.u8(); t.push(x) }
    word(t, 0, base + array); word(t, 4, p.w.tags[0].0.as_u32() as usize); word(t, 12, tags.len());
    if e.external_models { word(t, 20, model); word(t, 28, vert.len()); word(t, 32, vert.len() + tri.len()); word(t, 36, 0x74616773) }
    let td = data.len();
    m.tag_region = (td, t.len());
    data.extend(&*t);
    let demo = e.cache_file_version == 6 && r.below(2) == 0;
    let at = |n: &str| off(if demo { "CacheFileHeaderPCDemo" } else { "CacheFileHeader" }, n);
    word(&mut data, at("head_fourcc"), if demo { 0x45686564 } else { 0x68656164 });
    word(&mut data, at("foot_fourcc"), if demo { 0x47666F74 } else { 0x666F6F74 });
    word(&mut data, at("cache_version"), e.cache_file_version as usize);
    word(&mut data, at("tag_data_offset"), td); word(&mut data, at("tag_data_size"), p.w.tag.len());
    let len = data.len(); word(&mut data, at("decompressed_size"), len);
    let build = e.build.map_or("other", |b| b.string);
    data[at("build")..at("build") + build.len()].copy_from_slice(build.as_bytes());
    put(&mut data, at("map_type"), 2, kind, true);
    m.data = data;
    m.sounds = p.w.sounds;
    (m, this)
}

const THIRTY: f64 = 30.0;
fn nudged<T: PrimaryTagStructDyn>(t: &mut T) { nudge_tag(t); }

/// What the cache file changed, undone. `None`: the value is not one a cache file may hold.
fn fix(t: &mut dyn PrimaryTagStructDyn, path: &TagPath, m: &Made) -> Option<()> {
    macro_rules! to { ($t:ty) => { t.as_any_mut().downcast_mut::<$t>() } }
    let campaign = |p: &str| m.campaign && path.path() == p;
    if let Some(t) = to!(ActorVariant) { t.grenades.grenade_velocity *= THIRTY; nudged(t) }
    if let Some(t) = to!(ContinuousDamageEffect) { t.camera_shaking.wobble_period /= THIRTY; nudged(t) }
    if let Some(t) = to!(DamageEffect) { t.camera_shaking.wobble_period /= THIRTY; nudged(t); if campaign("weapons\\pistol\\bullet") { t.damage.modifiers.elite_energy_shield = 1.0; cover!(true, "campaign bullet") } }
    if let Some(t) = to!(Light) { t.effect_parameters.duration /= THIRTY; nudged(t) }
    if let Some(t) = to!(PointPhysics) { t.air_friction /= 10000.0; t.water_friction /= 10000.0; nudged(t) }
    if let Some(t) = to!(Projectile) {
        for x in [&mut t.minimum_velocity, &mut t.initial_velocity, &mut t.final_velocity] { *x *= THIRTY }
        for x in &mut t.material_response.items { x.potential_and.lower *= THIRTY; x.potential_and.upper *= THIRTY }
        nudged(t)
    }
    if let Some(t) = to!(Weapon) {
        let first = t.triggers.items.first_mut();
        let b = |l: f32, u: f32| Bounds { lower: Angle::from_degrees(l), upper: Angle::from_degrees(u) };
        if let Some(f) = first {
            if campaign("weapons\\pistol\\pistol") { f.minimum_error = Angle::from_degrees(0.0); f.error_angle = b(0.2, 2.0); cover!(true, "campaign pistol") }
            if campaign("weapons\\plasma rifle\\plasma rifle") { f.error_angle = b(0.5, 5.0); cover!(true, "campaign plasma rifle") }
        }
    }
    if let Some(t) = to!(Sound) {
        for x in t.pitch_ranges.items.iter_mut().flat_map(|p| &mut p.permutations.items) {
            if x.format == SoundFormat::PCM { let b = &mut x.samples.bytes; if b.len() % 2 == 1 { return None } for k in (0..b.len()).step_by(2) { b.swap(k, k + 1) } cover!(b.len() > 8, "samples") }
        }
        t.maximum_bend_rate = t.maximum_bend_rate.powf(THIRTY);
        nudged(t)
    }
    if let Some(_) = to!(UnicodeStringList) { if m.extended { return None } }
    if let Some(t) = to!(ModelAnimations) { for a in &mut t.animations.items { fix_animation(a) } }
    macro_rules! models { ($t:ident) => { if let Some(t) = to!($t) {
        t.flags.blend_shared_normals = false;
        t.flip_lod_cutoffs();
        t.fix_runtime_markers().ok()?;
        let mut k = m.parts.iter();
        for p in t.geometries.items.iter_mut().flat_map(|g| &mut g.parts.items) {
            let p = models!(part $t p);
            let (v, i) = k.next().unwrap();
            if m.engine.unwrap().compressed_models { p.compressed_vertices.items = v.chunks(32).map(|c| ModelVertexCompressed::read::<LittleEndian>(c, 0, 32).unwrap()).collect() }
            else { p.uncompressed_vertices.items = v.chunks(68).map(|c| ModelVertexUncompressed::read::<LittleEndian>(c, 0, 68).unwrap()).collect() }
            p.triangle_data.items = i.chunks(3).map(|c| ModelTriangleStripData { indices: [0, 1, 2].map(|k| c.get(k).copied().filter(|x| *x != 0xFFFF)) }).collect();
            cover!(!v.is_empty(), "vertices");
        }
        if m.engine.unwrap().compressed_models { t.fix_uncompressed_vertices(); } else { t.fix_compressed_vertices(); }
    } };
        (part Model $p:ident) => { $p };
        (part GBXModel $p:ident) => { &mut $p.model_geometry_part };
    }
    models!(Model);
    models!(GBXModel);
    if let Some(t) = to!(Scenario) {
        let d = &mut t.script_syntax_data.bytes;
        let n = u16::from_le_bytes([d[46], d[47]]) as usize;
        d[32..34].reverse(); d[34..36].reverse(); d[40..44].reverse();
        for k in [46, 48, 50] { d[k..k + 2].reverse() }
        d[52..56].reverse();
        for k in 0..(d.len() - 56) / 20 { let x = &mut d[56 + k * 20..][..20]; if k >= n { x.fill(0) } else { for k in [0, 2, 4, 6] { x[k..k + 2].reverse() } for k in [8, 12, 16] { x[k..k + 4].reverse() } } }
        for c in &mut t.cutscene_titles.items { c.up_time = (c.up_time - c.fade_in_time) / THIRTY; c.fade_in_time /= THIRTY; c.fade_out_time /= THIRTY }
        nudged(t)
    }
    if let Some(t) = to!(ScenarioStructureBSP) {
        for d in &mut t.detail_objects.items {
            for c in &d.cells.items {
                let bits: Vec<usize> = (0..32).filter(|b| c.valid_layers_flags as u32 >> b & 1 == 1).collect();
                for (k, b) in bits.iter().enumerate() { d.z_reference_vectors.items.get_mut(c.count_index as usize + k)?.z_reference_l -= m.offsets[*b]; cover!(m.offsets[*b] != 0.0, "layer offset") }
            }
        }
        recompress_scenario_structure_bsp_vertices(t).ok()?;
    }
    if let Some(t) = to!(Bitmap) {
        if t._type == BitmapType::Sprites {
            for s in &mut t.bitmap_group_sequence.items {
                s.bitmap_count = (s.sprites.items.len() == 1) as u16;
                s.first_bitmap_index = s.sprites.items.iter().filter_map(|x| x.bitmap_index).min();
            }
        }
        if !t.bitmap_data.items.is_empty() { t.processed_pixel_data.bytes.clear() }
        for (b, (pixels, mips)) in t.bitmap_data.items.iter_mut().zip(&m.pixels) {
            b.pixel_data_offset = t.processed_pixel_data.bytes.len() as u32;
            b.mipmap_count = *mips as u16;
            t.processed_pixel_data.bytes.extend(pixels);
        }
    }
    if let Some(o) = downcast_base_object_mut(t) {
        for c in &mut o.change_colors.items {
            let p = &mut c.permutations.items;
            if p.len() == 1 { p[0].weight = 1.0; continue }
            let w: Vec<f64> = p.iter().map(|p| p.weight).collect();
            if p.len() > 1 && (w[w.len() - 1] != 1.0 || w.windows(2).any(|w| w[1] < w[0])) { return None }
            for k in 1..w.len() { p[k].weight = w[k] - w[k - 1] }
            cover!(w.len() > 2, "three permutations");
        }
        nudged(o)
    }
    Some(())
}

fn with(m: &Made, f: impl FnOnce(&dyn Map, &dyn Fn(&TagPath) -> Box<dyn PrimaryTagStructDyn>)) {
    match m.engine.unwrap().cache_parser {
        EngineCacheParser::PC => { let map = GearboxCacheFile::new(m.data.clone(), m.bitmaps.clone(), m.sounds.clone(), vec![], ParseStrictness::Relaxed).expect("a well-formed cache file is opened"); f(&map, &|p| read_any_tag_from_map(p, &map).expect("a well-formed tag is read")) },
        EngineCacheParser::Xbox => { let map = XboxCacheFile::new(m.data.clone(), ParseStrictness::Relaxed).expect("a well-formed cache file is opened"); f(&map, &|p| read_any_tag_from_map(p, &map).expect("a well-formed tag is read")) }
    }
}

fn one(g: &Group, seed: u64, budget: usize) {
    let (m, path) = make(g, seed, budget);
    with(&m, |map, read| {
        let mut want = read(&path);
        let ok = if m.bad { None } else { fix(&mut *want, &path, &m) };
        match (map.extract_tag(&path), ok) {
            (Ok(t), Some(())) => {
                let (a, b) = (t.to_tag_file().expect("an extracted tag is written"), want.to_tag_file().unwrap());
                assert!(a == b, "{} for {}: extracted as another value (tag files of {} and {} bytes first differ at {:?})", g.name, m.engine.unwrap().name, a.len(), b.len(), (64..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)));
            },
            (Err(_), None) => cover!(true, "refused"),
            (Ok(_), None) => panic!("{} for {}: a value no cache file may hold is extracted", g.name, m.engine.unwrap().name),
            (Err(e), Some(())) => panic!("{} for {}: a well-formed tag is not extracted: {e}", g.name, m.engine.unwrap().name)
        }
    })
}

const FIXED: [&str; 15] = ["actor_variant", "bitmap", "continuous_damage_effect", "damage_effect", "gbxmodel", "light", "model_animations", "model", "point_physics", "projectile", "scenario", "scenario_structure_bsp", "sound", "unicode_string_list", "weapon"];
fn of(name: &str) -> &'static Group { layout().groups.iter().find(|g| g.name == name).unwrap() }

contracts! {
    native every_group(iters 20) "extract_tag_from_map: every group, from cache files of every engine" {
        let seed = nd::u64();
        for (i, g) in layout().groups.iter().enumerate() { for k in 0..3 { one(g, seed.wrapping_add((i * 3 + k) as u64), [0, 2000, 60000][k]) } }
    }
    native changed_groups(iters 200000) "fix_*_tag: the groups a cache file holds in other units or another form" { let seed = nd::u64(); one(of(FIXED[nd::u64() as usize % 15]), seed, 6000) }
    native bitmaps(iters 80000) "fix_bitmap_tag: pixels of every format and kind, swizzled, separated and padded as each engine stores them" { one(of("bitmap"), nd::u64(), 500 + nd::below(3000)) }
    native models(iters 100000) "fix_model_tag, fix_gbxmodel_tag, load_all_indices: vertices and triangles from where the engine keeps them" { let seed = nd::u64(); one(of(["model", "gbxmodel"][nd::below(2)]), seed, 6000) }
    native animations(iters 60000) "fix_model_animations_tag: frames of every animation in the tag's byte order" { one(of("model_animations"), nd::u64(), 3000) }
    native structures(iters 60000) "fix_scenario_structure_bsp_tag: detail object layers and vertices" { one(of("scenario_structure_bsp"), nd::u64(), 5000) }
    native any_group(iters 100000) "extract_tag_from_map for any group" { let l = layout(); let seed = nd::u64(); one(&l.groups[nd::u64() as usize % l.groups.len()], seed, 6000) }
    native damaged(iters 300000) "extract_tag_from_map: a damaged cache file's tag is refused or extracted, without a panic or a disproportionate allocation" {
        let seed = nd::u64();
        let l = layout();
        let k = nd::u64() as usize;
        let g = if k & 1 == 0 { of(FIXED[(k >> 1) % 15]) } else { &l.groups[(k >> 1) % l.groups.len()] };
        if g.name == "model_animations" { return }
        let (mut m, path) = make(g, seed, 3000);
        let mut r = Rng(seed ^ 77);
        let (a, n) = m.tag_region;
        for _ in 0..1 + r.below(8) {
            let k = if r.below(4) == 0 { 0x800 + r.below(m.data.len() - 0x800) } else { a + 40 + r.below(n - 40) };
            match r.below(4) { 0 => m.data[k] ^= 1 << r.below(8), _ => { let k = k & !3; if k + 4 <= m.data.len() { let x = [u32::MAX, 0, 0x7FFFFFFF, 0x10000000, r.next() as u32, r.below(50) as u32][r.below(6)]; put(&mut m.data, k, 4, x, true) } } }
        }
        let total = m.data.len() + m.bitmaps.len() + m.sounds.len();
        let (d, b, s) = (m.data.clone(), m.bitmaps.clone(), m.sounds.clone());
        let map: Box<dyn Map> = match m.engine.unwrap().cache_parser {
            EngineCacheParser::PC => match GearboxCacheFile::new(d, b, s, vec![], ParseStrictness::Relaxed) { Ok(m) => Box::new(m), Err(_) => return },
            EngineCacheParser::Xbox => match XboxCacheFile::new(d, ParseStrictness::Relaxed) { Ok(m) => Box::new(m), Err(_) => return }
        };
        crate::memory::reset();
        let t = map.extract_tag(&path);
        let peak = crate::memory::peak();
        assert!(peak <= total * 4096 + 1_000_000, "{}: extracting from {total} bytes took {peak} bytes of memory", g.name);
        match t { Ok(_) => cover!(true, "accepted"), Err(_) => cover!(true, "refused") }
    }
}
