//! P21: models, structure BSPs, animations and objects are converted without losing or inventing anything; nudging rounds.
use crate::{cover, nd, spec::Rng, Contract};
use ringhopper::tag::convert::get_tag_conversion_fn;
use ringhopper::tag::model::*;
use ringhopper::tag::model_animations::*;
use ringhopper::tag::nudge::*;
use ringhopper::tag::object::*;
use ringhopper::tag::scenario_structure_bsp::*;
use ringhopper_primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;

fn rng() -> Rng { Rng(nd::u64()) }
fn num(r: &mut Rng) -> f64 { ((r.below(4001) as f64) - 2000.0) / 1000.0 }
fn unit(r: &mut Rng) -> f64 { [0.0, 1.0, -1.0, -0.0001, 0.0001, 0.25, -0.7][r.below(7)] + ((r.below(2001) as f64) - 1000.0) * if r.below(2) == 0 { 0.0 } else { 1e-4 } }
fn v3(r: &mut Rng) -> Vector3D { Vector3D { x: unit(r), y: unit(r), z: unit(r) } }
/// an index below `n`, none, or now and then one out of range
fn idx(r: &mut Rng, n: usize, bad: usize) -> Index {
    match r.below(12) {
        0 | 1 => None,
        2 if bad > 0 && r.below(bad) == 0 => Some((n + [0, 1, 60000][r.below(3)]).min(65534) as u16),
        _ if n == 0 => None,
        _ => Some(r.below(n) as u16)
    }
}
fn list<T: TagData>(items: Vec<T>) -> Reflexive<T> { Reflexive { items } }
fn made<T>(r: &mut Rng, max: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> { let n = r.below(max + 1); (0..n).map(|_| f(r)).collect() }

fn vertex(r: &mut Rng, nodes: usize, bad: usize) -> ModelVertexUncompressed {
    let w = r.below(101) as f64 / 100.0;
    let total = [1.0, 1.0, 0.5, 2.0][r.below(4)];
    let (a, b) = if r.below(10) == 0 { (0.0, 0.0) } else { (w * total, (1.0 - w) * total) };
    ModelVertexUncompressed { position: Vector3D { x: num(r) * 100.0, y: num(r), z: num(r) }, normal: v3(r), binormal: v3(r), tangent: v3(r), texture_coords: Vector2D { x: unit(r), y: unit(r) },
        node0_index: idx(r, nodes, bad), node1_index: idx(r, nodes, bad), node0_weight: a, node1_weight: b, ..Default::default() }
}
fn small_vertex(r: &mut Rng, nodes: usize, bad: usize) -> ModelVertexCompressed {
    let node = |r: &mut Rng| match idx(r, nodes.min(42), bad) { None => 253 + r.below(3) as u8, Some(n) => (n as usize * 3 + r.below(3)).min(252) as u8 };
    ModelVertexCompressed { position: v3(r), normal: CompressedVector3D { data: r.next() as u32 }, binormal: CompressedVector3D { data: r.next() as u32 }, tangent: CompressedVector3D { data: r.next() as u32 },
        texture_coordinate_u: CompressedFloat { data: r.next() as u16 }, texture_coordinate_v: CompressedFloat { data: r.next() as u16 }, node0_index: node(r), node1_index: node(r), node0_weight: CompressedFloat { data: (r.next() & 0x7FFF) as u16 }, ..Default::default() }
}
fn part(r: &mut Rng, nodes: usize, local: Option<usize>, shaders: usize, bad: usize) -> ModelGeometryPart {
    let of = local.unwrap_or(nodes);
    let kind = r.below(4);
    ModelGeometryPart {
        flags: ModelGeometryPartFlags { zoner: local.is_some() != (bad > 0 && r.below(bad * 10) == 0), ..Default::default() },
        shader_index: idx(r, shaders, bad), prev_filthy_part_index: r.u8(), next_filthy_part_index: r.u8(),
        centroid_primary_node: idx(r, nodes, bad), centroid_secondary_node: idx(r, nodes, bad), centroid_primary_weight: unit(r), centroid_secondary_weight: unit(r), centroid: v3(r),
        uncompressed_vertices: list(if kind == 0 { vec![] } else { made(r, 4, |r| vertex(r, of, bad)) }),
        compressed_vertices: list(if kind == 1 || (local.is_some() && r.below(4) != 0) { vec![] } else { made(r, 4, |r| small_vertex(r, nodes, bad)) }),
        triangle_data: list(made(r, 2, |r| ModelTriangleStripData { indices: [idx(r, 5, 0), None, Some(3)], ..Default::default() })),
        triangle_count: r.below(9) as u32, ..Default::default()
    }
}
macro_rules! fill {
    ($m:expr, $r:expr, $nodes:expr, $geometries:expr, $shaders:expr, $bad:expr) => {{
        let (r, nodes, geometries, shaders, bad) = (&mut *$r, $nodes, $geometries, $shaders, $bad);
        $m.node_list_checksum = r.next() as i32;
        $m.detail_cutoff = ModelDetailCutoff { super_high: num(r), high: num(r), medium: num(r), low: num(r), super_low: num(r), ..Default::default() };
        $m.detail_node_count = ModelDetailNodeCount { super_low: 1, low: r.u8() as u16, medium: 3, high: 4, super_high: 5, ..Default::default() };
        $m.base_map_u_scale = num(r);
        $m.base_map_v_scale = num(r);
        $m.flags.blend_shared_normals = r.below(2) == 0;
        $m.nodes = list((0..nodes).map(|i| ModelNode { name: String32::from_str(&format!("node{i}")).unwrap(), next_sibling_node_index: idx(r, nodes, bad), first_child_node_index: idx(r, nodes, bad), parent_node_index: idx(r, nodes, bad), default_rotation: Quaternion { x: unit(r), y: unit(r), z: unit(r), w: 0.5 }, ..Default::default() }).collect());
        $m.regions = list(made(r, 2, |r| ModelRegion { name: String32::from_str("region").unwrap(), permutations: list(made(r, 2, |r| ModelRegionPermutation {
            super_low: idx(r, geometries, bad), low: idx(r, geometries, bad), medium: idx(r, geometries, bad), high: idx(r, geometries, bad), super_high: idx(r, geometries, bad), permutation_number: r.u8() as u16,
            markers: list(made(r, 2, |r| ModelRegionPermutationMarker { name: String32::from_str("kept").unwrap(), node_index: idx(r, nodes, bad), translation: v3(r), ..Default::default() })), ..Default::default() })), ..Default::default() }));
        $m.shaders = list((0..shaders).map(|i| ModelShaderReference { permutation: Some(i as u16), ..Default::default() }).collect());
        $m.runtime_markers = list(made(r, 3, |r| ModelMarker { name: String32::from_str(["one", "two"][r.below(2)]).unwrap(), instances: list(made(r, 3, |r| ModelMarkerInstance {
            region_index: r.below(2) as u8, permutation_index: r.below(2) as u8, node_index: r.below(nodes.max(1) + (bad > 0) as usize) as u8, translation: v3(r), rotation: Quaternion { x: unit(r), y: 0.0, z: 0.1, w: 0.2 }, ..Default::default() })), ..Default::default() }));
    }};
}
fn model(r: &mut Rng, bad: usize) -> Model {
    let (nodes, shaders, geometries) = ([0, 1, 3, 42, 43, 60][r.below(6)], r.below(3), r.below(3));
    let mut m = Model::default();
    fill!(m, r, nodes, geometries, shaders, bad);
    m.geometries = list((0..geometries).map(|_| ModelGeometry { parts: list(made(r, 2, |r| part(r, nodes, None, shaders, bad))), ..Default::default() }).collect());
    m
}
fn gbx(r: &mut Rng, bad: usize) -> GBXModel {
    let (nodes, shaders, geometries) = ([1, 2, 3, 42, 43, 60][r.below(6)], r.below(3), r.below(3));
    let locals = r.below(2) == 0;
    let mut m = GBXModel::default();
    fill!(m, r, nodes, geometries, shaders, bad);
    m.flags.parts_have_local_nodes = locals;
    m.geometries = list((0..geometries).map(|_| GBXModelGeometry { parts: list(made(r, 2, |r| {
        let count = if bad > 0 && r.below(bad * 4) == 0 { 23 } else { r.below(23) };
        let mut indices = [0u8; 22];
        for i in &mut indices { *i = (r.below(nodes) + if bad > 0 && r.below(bad * 20) == 0 { nodes } else { 0 }) as u8 }
        GBXModelGeometryPart { model_geometry_part: part(r, nodes, locals.then_some(count), shaders, bad), local_node_count: count as u8, local_node_indices: indices, ..Default::default() }
    })), ..Default::default() }).collect());
    m
}
fn within(i: Index, n: usize) -> bool { i.is_none_or(|i| (i as usize) < n) }
fn frame_ok(nodes: &[ModelNode], regions: &[ModelRegion], geometries: usize) -> bool {
    nodes.iter().all(|n| within(n.next_sibling_node_index, nodes.len()) && within(n.first_child_node_index, nodes.len()) && within(n.parent_node_index, nodes.len()))
        && regions.iter().flat_map(|r| &r.permutations.items).all(|p| [p.super_low, p.low, p.medium, p.high, p.super_high].into_iter().all(|g| within(g, geometries)) && p.markers.items.iter().all(|m| within(m.node_index, nodes.len())))
}
fn small_node(n: u8) -> Index { if n >= 253 { None } else { Some(n as u16 / 3) } }
fn part_ok(p: &ModelGeometryPart, nodes: usize, shaders: usize, local: Option<&[u8]>) -> bool {
    let resolve = |i: Index| match (i, local) { (None, _) => true, (Some(i), None) => (i as usize) < nodes, (Some(i), Some(l)) => l.get(i as usize).is_some_and(|n| (*n as usize) < nodes) };
    within(p.shader_index, shaders) && within(p.centroid_primary_node, nodes) && within(p.centroid_secondary_node, nodes)
        && p.uncompressed_vertices.items.iter().all(|v| resolve(v.node0_index) && resolve(v.node1_index))
        && p.compressed_vertices.items.iter().all(|v| within(small_node(v.node0_index), nodes) && within(small_node(v.node1_index), nodes))
}
fn model_ok(m: &Model) -> bool {
    frame_ok(&m.nodes.items, &m.regions.items, m.geometries.items.len()) && m.geometries.items.iter().flat_map(|g| &g.parts.items).all(|p| !p.flags.zoner && part_ok(p, m.nodes.items.len(), m.shaders.items.len(), None))
}
fn gbx_ok(m: &GBXModel) -> bool {
    let local = m.flags.parts_have_local_nodes;
    frame_ok(&m.nodes.items, &m.regions.items, m.geometries.items.len()) && m.geometries.items.iter().flat_map(|g| &g.parts.items).all(|p| {
        let map = if local { match p.local_node_indices.get(..p.local_node_count as usize) { Some(l) => Some(l), None => return false } } else { None };
        p.model_geometry_part.flags.zoner == local && part_ok(&p.model_geometry_part, m.nodes.items.len(), m.shaders.items.len(), map)
    })
}
fn near(a: f64, b: f64, e: f64) -> bool { (a - b).abs() <= e }
fn cut(v: f64) -> f64 { v.max(-1.0).min(1.0) }
fn close(a: Vector3D, b: Vector3D) -> bool { near(cut(a.x), b.x, 0.0005) && near(cut(a.y), b.y, 0.0005) && near(cut(a.z), b.z, 0.00098) }
/// the compressed form of a vertex, to the precision of that form
fn squeezed(u: &ModelVertexUncompressed, c: &ModelVertexCompressed) -> bool {
    let total = u.node0_weight + u.node1_weight;
    let weight = u.node0_weight / if total == 0.0 { 1.0 } else { total };
    let node = |i: Index| i.map_or(253, |i| i * 3);
    c.position == u.position && close(u.normal, c.normal.into()) && close(u.binormal, c.binormal.into()) && close(u.tangent, c.tangent.into())
        && near(cut(u.texture_coords.x), c.texture_coordinate_u.into(), 0.00002) && near(cut(u.texture_coords.y), c.texture_coordinate_v.into(), 0.00002)
        && node(u.node0_index) == c.node0_index as u16 && node(u.node1_index) == c.node1_index as u16 && near(cut(weight), c.node0_weight.into(), 0.00002)
}
/// the full form of a compressed vertex, exactly
fn expanded(c: &ModelVertexCompressed, u: &ModelVertexUncompressed) -> bool {
    let w: f64 = c.node0_weight.into();
    u.position == c.position && u.normal == c.normal.into() && u.binormal == c.binormal.into() && u.tangent == c.tangent.into() && u.texture_coords.x == f64::from(c.texture_coordinate_u) && u.texture_coords.y == f64::from(c.texture_coordinate_v)
        && u.node0_index == small_node(c.node0_index) && u.node1_index == small_node(c.node1_index) && u.node0_weight == w && near(u.node1_weight, 1.0 - w, 1e-12)
}
fn vertices<'a>(before: &'a ModelGeometryPart, after: &'a ModelGeometryPart, small: bool, anew: bool, what: &str) {
    let mut same = after.clone();
    same.uncompressed_vertices = before.uncompressed_vertices.clone();
    same.compressed_vertices = before.compressed_vertices.clone();
    assert!(same == *before, "{what}: nothing but vertices changes");
    let (bu, bc, au, ac) = (&before.uncompressed_vertices.items, &before.compressed_vertices.items, &after.uncompressed_vertices.items, &after.compressed_vertices.items);
    if small {
        assert!(au == bu, "{what}: the full vertices stay");
        let rebuild = if anew { !bu.is_empty() } else { bc.is_empty() };
        if rebuild { assert!(ac.len() == bu.len() && bu.iter().zip(ac).all(|(u, c)| squeezed(u, c)), "{what}: every full vertex is compressed, in order") }
        else { assert!(ac == bc, "{what}: the compressed vertices stay") }
    }
    else {
        assert!(ac == bc, "{what}: the compressed vertices stay");
        if bu.is_empty() { assert!(au.len() == bc.len() && bc.iter().zip(au).all(|(c, u)| expanded(c, u)), "{what}: every compressed vertex is expanded, in order") }
        else { assert!(au == bu, "{what}: the full vertices stay") }
    }
}
macro_rules! each_part { ($m:expr, $get:expr) => { $m.geometries.items.iter().flat_map(|g| g.parts.items.iter().map($get)) } }
macro_rules! markers {
    ($m:expr) => {{
        let before = $m;
        let mut after = before.clone();
        let got = after.fix_runtime_markers();
        let (nodes, regions) = (before.nodes.items.len(), &before.regions.items);
        let all: Vec<_> = before.runtime_markers.items.iter().flat_map(|m| m.instances.items.iter().map(move |i| (m.name, i))).collect();
        let fits = all.iter().all(|(_, i)| (i.node_index as usize) < nodes && regions.get(i.region_index as usize).is_some_and(|r| (i.permutation_index as usize) < r.permutations.items.len()));
        assert!(got.is_ok() == fits, "runtime markers are moved exactly when they name what exists");
        if let Ok(changed) = got {
            assert!(changed == !before.runtime_markers.items.is_empty() && after.runtime_markers.items.is_empty(), "no runtime marker is left");
            let mut want = before.clone();
            want.runtime_markers.items.clear();
            for (name, i) in &all { want.regions.items[i.region_index as usize].permutations.items[i.permutation_index as usize].markers.items.push(ModelRegionPermutationMarker { name: *name, node_index: Some(i.node_index as u16), rotation: i.rotation, translation: i.translation, ..Default::default() }) }
            assert!(want == after, "every marker goes to the permutation it names, after those it has");
        }
    }};
}
macro_rules! vertex_ops {
    ($m:expr, $get:expr) => {{
        let m = $m;
        let (mut a, mut b, mut c) = (m.clone(), m.clone(), m.clone());
        let ok = a.supports_compressed_vertices();
        let told = [a.fix_compressed_vertices(), b.fix_uncompressed_vertices(), c.recompress_vertices()];
        for (what, told, after, could) in [
            ("fix_compressed_vertices", told[0], &a, ok && each_part!(m, $get).any(|p| p.compressed_vertices.items.is_empty())),
            ("fix_uncompressed_vertices", told[1], &b, each_part!(m, $get).any(|p| p.uncompressed_vertices.items.is_empty())),
            ("recompress_vertices", told[2], &c, each_part!(m, $get).any(|p| !p.uncompressed_vertices.items.is_empty() || (ok && p.compressed_vertices.items.is_empty())))
        ] {
            assert!(told || after == m, "{what}: a change is told");
            assert!(could || !told, "{what}: nothing to fix, nothing told");
        }
        for (before, after) in each_part!(m, $get).zip(each_part!(a, $get)) { if ok { vertices(before, after, true, false, "fix_compressed_vertices") } else { assert!(before == after, "models with many nodes have no compressed vertices to fix") } }
        for (before, after) in each_part!(m, $get).zip(each_part!(b, $get)) { vertices(before, after, false, false, "fix_uncompressed_vertices") }
        for (before, after) in each_part!(m, $get).zip(each_part!(c, $get)) {
            if ok { vertices(before, after, true, true, "recompress_vertices") }
            else {
                let mut want = before.clone();
                if !want.uncompressed_vertices.items.is_empty() { want.compressed_vertices.items.clear() }
                assert!(want == *after, "without compressed vertices the stale ones go, unless they are all there is");
            }
        }
        ok
    }};
}

/// decimal digits of a positive number, shortest form, and the power of ten of the first
fn digits(v: f64) -> (Vec<u8>, i32) {
    let s = format!("{v:e}");
    let (m, e) = s.split_once('e').unwrap();
    (m.bytes().filter(|b| *b != b'.').map(|b| b - b'0').collect(), e.parse().unwrap())
}
/// the number rounded to six significant digits, half up, by long addition on its decimal digits
fn six(v: f64) -> f64 {
    if v == 0.0 || !v.is_finite() { return v }
    let (mut d, mut e) = digits(v.abs());
    if d.len() <= 6 { return v }
    let up = d[6] >= 5;
    d.truncate(6);
    if up {
        let mut i = 6;
        loop {
            if i == 0 { d.insert(0, 1); d.pop(); e += 1; break }
            i -= 1;
            if d[i] == 9 { d[i] = 0 } else { d[i] += 1; break }
        }
    }
    let text: String = d.iter().map(|b| (b + b'0') as char).collect();
    let back: f64 = format!("{}.{}e{e}", &text[..1], &text[1..]).parse().unwrap();
    if v < 0.0 { -back } else { back }
}
fn wild(r: &mut Rng) -> f64 {
    let base = [0.0, 1.0, 0.1, 0.999999, 9.99999, 100.0, 99999.9, 999999.0, 33.3333, 0.00049999, 0.0999999, 123456.0, 7.0][r.below(13)];
    let nudge = [0.0, 5e-7, 4e-7, 6e-7, 5e-5, 0.5, 0.49999, 1e-9, 5e-10, 3.0e-8][r.below(10)];
    let v = match r.below(6) { 0 => f32::from_bits(r.next() as u32) as f64, 1 => (r.below(2_000_000) as f64) / 30.0, 2 => (r.below(2_000_000) as f32 / 30.0) as f64 * 30.0, 3 => r.below(10_000_000) as f64 * 1e-6 + 5e-7, _ => base + nudge };
    if r.below(3) == 0 { -v } else { v }
}

contracts! {
    native model_check(iters 400) "ModelFunctions::check_indices: a model passes exactly when every node, geometry, shader and local node index is in range" {
        let mut r = rng();
        let bad = [0, 3, 8][r.below(3)];
        let m = model(&mut r, bad);
        assert!(m.check_indices().is_ok() == model_ok(&m), "model indices: in range {}", model_ok(&m));
        let g = gbx(&mut r, bad);
        assert!(g.check_indices().is_ok() == gbx_ok(&g), "gbxmodel indices: in range {}", gbx_ok(&g));
        cover!(model_ok(&m), "good");
        cover!(!model_ok(&m), "bad");
    }
    native model_convert(iters 300) "get_tag_conversion_fn for models and gbxmodels: everything is carried over; local nodes become the nodes they stand for; bad indices are an error" {
        let mut r = rng();
        let bad = [0, 0, 8][r.below(3)];
        let m = model(&mut r, bad);
        let to = get_tag_conversion_fn(TagGroup::Model, TagGroup::GBXModel).expect("models convert");
        let from = get_tag_conversion_fn(TagGroup::GBXModel, TagGroup::Model).expect("gbxmodels convert");
        assert!(get_tag_conversion_fn(TagGroup::Model, TagGroup::Model).is_none() && get_tag_conversion_fn(TagGroup::Model, TagGroup::Bitmap).is_none());
        let got = to(&m);
        assert!(got.is_ok() == model_ok(&m), "a model converts exactly when its indices are in range");
        if let Ok(g) = got {
            let g = g.as_any().downcast_ref::<GBXModel>().expect("a gbxmodel");
            assert!(!g.flags.parts_have_local_nodes && g.flags.blend_shared_normals == m.flags.blend_shared_normals && g.node_list_checksum == m.node_list_checksum && g.detail_cutoff == m.detail_cutoff && g.detail_node_count == m.detail_node_count, "the head of the model");
            assert!(g.base_map_u_scale == m.base_map_u_scale && g.base_map_v_scale == m.base_map_v_scale && g.runtime_markers == m.runtime_markers && g.nodes == m.nodes && g.regions == m.regions && g.shaders == m.shaders, "the lists of the model");
            assert!(g.geometries.items.len() == m.geometries.items.len());
            for (a, b) in g.geometries.items.iter().zip(&m.geometries.items) { assert!(a.flags == b.flags && a.parts.items.len() == b.parts.items.len() && a.parts.items.iter().zip(&b.parts.items).all(|(x, y)| x.model_geometry_part == *y && x.local_node_count == 0), "the geometries of the model") }
            let back = from(g).expect("and back");
            assert!(*back.as_any().downcast_ref::<Model>().expect("a model") == m, "the model comes back");
        }
        let g = gbx(&mut r, bad);
        let got = from(&g);
        assert!(got.is_ok() == gbx_ok(&g), "a gbxmodel converts exactly when its indices are in range");
        if let Ok(m) = got {
            let m = m.as_any().downcast_ref::<Model>().expect("a model");
            assert!(g.flags.blend_shared_normals == m.flags.blend_shared_normals && g.node_list_checksum == m.node_list_checksum && g.detail_cutoff == m.detail_cutoff && g.detail_node_count == m.detail_node_count, "the head of the gbxmodel");
            assert!(g.base_map_u_scale == m.base_map_u_scale && g.base_map_v_scale == m.base_map_v_scale && g.runtime_markers == m.runtime_markers && g.nodes == m.nodes && g.regions == m.regions && g.shaders == m.shaders, "the lists of the gbxmodel");
            assert!(g.geometries.items.len() == m.geometries.items.len());
            for (a, b) in g.geometries.items.iter().zip(&m.geometries.items) {
                assert!(a.flags == b.flags && a.parts.items.len() == b.parts.items.len());
                for (x, y) in a.parts.items.iter().zip(&b.parts.items) {
                    let mut want = x.model_geometry_part.clone();
                    if g.flags.parts_have_local_nodes {
                        want.flags.zoner = false;
                        for v in &mut want.uncompressed_vertices.items { v.node0_index = v.node0_index.map(|i| x.local_node_indices[i as usize] as u16); v.node1_index = v.node1_index.map(|i| x.local_node_indices[i as usize] as u16); }
                        cover!(!want.uncompressed_vertices.items.is_empty(), "local");
                    }
                    assert!(want == *y, "a part keeps all it holds, naming nodes directly");
                }
            }
        }
    }
    native model_vertices(iters 300) "ModelFunctions::recompress_vertices, fix_compressed_vertices, fix_uncompressed_vertices, supports_compressed_vertices: only what is missing (or stale) is rebuilt, from the other form, vertex by vertex" {
        let mut r = rng();
        let m = model(&mut r, 0);
        let ok = vertex_ops!(&m, |p: &ModelGeometryPart| p);
        assert!(ok == (m.nodes.items.len() <= 42), "compressed vertices name at most 42 nodes");
        let g = gbx(&mut r, 0);
        let ok = vertex_ops!(&g, |p: &GBXModelGeometryPart| &p.model_geometry_part);
        assert!(ok == (g.nodes.items.len() <= 42 && !g.flags.parts_have_local_nodes), "and no local ones");
    }
    native model_markers(iters 400) "ModelFunctions::fix_runtime_markers, flip_lod_cutoffs: markers go to the permutations they name; cutoffs are mirrored" {
        let mut r = rng();
        let bad = r.below(2) * 4;
        let m = model(&mut r, bad);
        markers!(&m);
        let g = gbx(&mut r, bad);
        markers!(&g);
        let mut f = m.clone();
        f.flip_lod_cutoffs();
        let (a, b) = (m.detail_cutoff.clone(), f.detail_cutoff.clone());
        assert!(b.super_low == a.super_high && b.low == a.high && b.medium == a.medium && b.high == a.low && b.super_high == a.super_low, "cutoffs are mirrored");
        f.flip_lod_cutoffs();
        assert!(f == m, "twice is nothing");
        let mut f = g.clone();
        f.flip_lod_cutoffs();
        f.detail_cutoff = g.detail_cutoff.clone();
        assert!(f == g, "nothing else is touched");
    }
    native bsp_vertices(iters 400) "recompress_scenario_structure_bsp_vertices: the missing form of every material is rebuilt from the other, vertex by vertex; sizes that disagree are an error" {
        let mut r = rng();
        let mut b = ScenarioStructureBSP::default();
        let lightmaps = r.below(3);
        let mut want = Vec::new();
        for _ in 0..lightmaps {
            let mut l = ScenarioStructureBSPLightmap::default();
            for _ in 0..r.below(3) {
                let mut m = ScenarioStructureBSPMaterial::default();
                let rendered = r.below(4);
                let lightmap = if r.below(2) == 0 { 0 } else { rendered };
                m.rendered_vertices.vertex_count = rendered as u32;
                m.lightmap_vertices.vertex_count = lightmap as u32;
                let small = r.below(2) == 0;
                let mut size = if small { rendered * 32 + lightmap * 8 } else { rendered * 56 + lightmap * 20 };
                if r.below(25) == 0 { size += 1 + r.below(8) }
                if r.below(40) == 0 && lightmap == 0 && rendered > 1 { m.lightmap_vertices.vertex_count = 1; size += if small { 8 } else { 20 } }
                let bytes: Vec<u8> = if small { (0..size).map(|i| if i < rendered * 32 && (i % 32 < 12 || i % 32 >= 24) { [0x3F, 0x12, 0x00, 0x3E][i % 4] } else { r.u8() }).collect() }
                    else { let mut o = Vec::new(); while o.len() < size { o.extend((unit(&mut r) as f32).to_le_bytes()) } o.truncate(size); o };
                if small { m.compressed_vertices.bytes = bytes } else { m.uncompressed_vertices.bytes = bytes }
                if r.below(8) == 0 { m.compressed_vertices.bytes = vec![1, 2, 3]; m.uncompressed_vertices.bytes = vec![4]; m.rendered_vertices.vertex_count = 99; }
                want.push(m.clone());
                l.materials.items.push(m);
            }
            b.lightmaps.items.push(l);
        }
        let wrong = want.iter().any(|m| {
            let (c, u) = (m.compressed_vertices.bytes.len(), m.uncompressed_vertices.bytes.len());
            let (r, l) = (m.rendered_vertices.vertex_count as usize, m.lightmap_vertices.vertex_count as usize);
            (c == 0) != (u == 0) && ((l != 0 && l != r) || if c == 0 { u != r * 56 + l * 20 } else { c != r * 32 + l * 8 })
        });
        let got = recompress_scenario_structure_bsp_vertices(&mut b);
        assert!(got.is_ok() == !wrong, "sizes agree: {}", !wrong);
        if let Ok(changed) = got {
            assert!(changed == want.iter().any(|m| m.compressed_vertices.bytes.is_empty() != m.uncompressed_vertices.bytes.is_empty()), "it is told whether anything was missing");
            let after: Vec<_> = b.lightmaps.items.iter().flat_map(|l| &l.materials.items).collect();
            assert!(after.len() == want.len());
            for (a, w) in after.into_iter().zip(&want) {
                let (full, small) = (&a.uncompressed_vertices.bytes, &a.compressed_vertices.bytes);
                let mut rest = a.clone();
                rest.uncompressed_vertices = w.uncompressed_vertices.clone();
                rest.compressed_vertices = w.compressed_vertices.clone();
                assert!(rest == *w, "nothing but vertices changes");
                if !w.uncompressed_vertices.bytes.is_empty() { assert!(*full == w.uncompressed_vertices.bytes, "full vertices stay") }
                if !w.compressed_vertices.bytes.is_empty() { assert!(*small == w.compressed_vertices.bytes, "compressed vertices stay") }
                if w.uncompressed_vertices.bytes.is_empty() == w.compressed_vertices.bytes.is_empty() { assert!(*full == w.uncompressed_vertices.bytes && *small == w.compressed_vertices.bytes); continue }
                let (n, l) = (w.rendered_vertices.vertex_count as usize, w.lightmap_vertices.vertex_count as usize);
                assert!(full.len() == n * 56 + l * 20 && small.len() == n * 32 + l * 8, "one for each");
                let exact = w.uncompressed_vertices.bytes.is_empty();
                let f = |at: usize| f32::from_le_bytes(full[at..at + 4].try_into().unwrap());
                let word = |at: usize| u32::from_le_bytes(small[at..at + 4].try_into().unwrap());
                let vec3 = |u: usize, c: usize| {
                    let d = Vector3D::from(CompressedVector3D { data: word(c) });
                    if exact { assert!(f(u) == d.x as f32 && f(u + 4) == d.y as f32 && f(u + 8) == d.z as f32, "a vector is expanded exactly") }
                    else { assert!(close(Vector3D { x: f(u) as f64, y: f(u + 4) as f64, z: f(u + 8) as f64 }, d), "a vector is compressed to the nearest") }
                };
                for i in 0..n {
                    let (u, c) = (i * 56, i * 32);
                    assert!(full[u..u + 12] == small[c..c + 12], "positions are equal");
                    vec3(u + 12, c + 12);
                    vec3(u + 24, c + 16);
                    vec3(u + 36, c + 20);
                    assert!(full[u + 48..u + 56] == small[c + 24..c + 32], "texture coordinates are equal");
                }
                for i in 0..l {
                    let (u, c) = (n * 56 + i * 20, n * 32 + i * 8);
                    vec3(u, c);
                    let d = Vector2D::from(CompressedVector2D { data: word(c + 4) });
                    if exact { assert!(f(u + 12) == d.x as f32 && f(u + 16) == d.y as f32, "lightmap coordinates are expanded exactly") }
                    else { assert!(near(cut(f(u + 12) as f64), d.x, 0.00002) && near(cut(f(u + 16) as f64), d.y, 0.00002), "lightmap coordinates are compressed to the nearest") }
                }
                cover!(l > 0 && exact, "expanded");
                cover!(l > 0 && !exact, "compressed");
            }
        }
    }
    native frame_sizes(iters 4000) "FrameDataIterator: for each node in turn its rotation, translation and scale, when flagged (or, inverted, when not); their sizes add up" {
        let mut a = ModelAnimationsAnimation::default();
        let n = nd::below(66);
        a.node_count = n as u16;
        let bits: [u64; 3] = [nd::u64(), nd::u64(), nd::u64()];
        let words = |v: u64| [v as u32, (v >> 32) as u32];
        (a.node_rotation_flag_data, a.node_transform_flag_data, a.node_scale_flag_data) = (words(bits[0]), words(bits[1]), words(bits[2]));
        for invert in [false, true] {
            let it = || if invert { FrameDataIterator::for_animation_inverted(&a) } else { FrameDataIterator::for_animation(&a) };
            let mut want = Vec::new();
            for node in 0..n.min(64) { for k in 0..3 { if ((bits[k] >> node) & 1 == 1) != invert { want.push(k) } } }
            let got: Vec<usize> = it().map(|t| match t { FrameDataType::Rotate => 0, FrameDataType::Transform => 1, FrameDataType::Scale => 2 }).collect();
            assert!(got == want, "{n} nodes, flags {bits:x?}, inverted {invert}");
            assert!(it().to_size() == want.iter().map(|k| [8, 12, 4][*k]).sum::<usize>(), "{n} nodes, flags {bits:x?}, inverted {invert}");
        }
    }
    native nudging(iters 4000) "nudge_tag: the documented fields are rounded to six significant digits, half up; nothing else changes; twice is once" {
        let mut r = rng();
        let v = wild(&mut r);
        let mut t = ActorVariant::default();
        t.grenades.grenade_velocity = v;
        t.ranged_combat.maximum_firing_distance = 0.1000005;
        let before = t.clone();
        let changed = nudge_tag(&mut t);
        let got = t.grenades.grenade_velocity;
        assert!(got == six(v) || (got.is_nan() && v.is_nan()), "{v:e} is nudged to {got:e}, not {:e}", six(v));
        assert!(v.is_nan() || changed == (got != v), "it is told whether anything changed");
        let again = got;
        nudge_tag(&mut t);
        assert!(t.grenades.grenade_velocity == again || again.is_nan(), "{v:e} nudged twice is nudged once");
        t.grenades.grenade_velocity = 0.0;
        let mut rest = before;
        rest.grenades.grenade_velocity = 0.0;
        assert!(t == rest, "nothing else changes");
    }
    native nudging_fields(iters 400) "nudge_tag, is_nudgeable: every field it is documented for, in every group" {
        let mut r = rng();
        let mut v = || { let v = wild(&mut r); if v.is_nan() { 1.5 } else { v } };
        macro_rules! fields {
            ($t:ident, $($($f:ident).+),*) => {{
                let mut t = $t::default();
                $( t.$($f).+ = v(); )*
                let mut want = t.clone();
                $( want.$($f).+ = six(want.$($f).+); )*
                assert!(is_nudgeable(TagGroup::$t), "{} is nudged", stringify!($t));
                let before = t.clone();
                let changed = nudge_tag(&mut t);
                assert!(t == want, "fields of {}", stringify!($t));
                assert!(changed == (t != before), "it is told whether {} changed", stringify!($t));
            }};
        }
        fields!(ContinuousDamageEffect, camera_shaking.wobble_period);
        fields!(DamageEffect, camera_shaking.wobble_period);
        fields!(PointPhysics, air_friction, water_friction);
        fields!(Projectile, minimum_velocity, initial_velocity, final_velocity);
        fields!(Light, effect_parameters.duration);
        fields!(Sound, maximum_bend_rate);
        let mut p = Projectile::default();
        for _ in 0..3 { let mut m = ProjectileMaterialResponse::default(); m.potential_and.lower = v(); m.potential_and.upper = v(); m.maximum_distance = 0.1000005; p.material_response.items.push(m) }
        let mut want = p.clone();
        for m in &mut want.material_response.items { m.potential_and.lower = six(m.potential_and.lower); m.potential_and.upper = six(m.potential_and.upper) }
        let before = p.clone();
        assert!(nudge_tag(&mut p) == (want != before), "it is told whether a projectile changed");
        assert!(p == want, "material responses of a projectile");
        let mut s = Scenario::default();
        for _ in 0..3 { let mut c = ScenarioCutsceneTitle::default(); c.fade_in_time = v(); c.fade_out_time = v(); c.up_time = v(); s.cutscene_titles.items.push(c) }
        let mut want = s.clone();
        for c in &mut want.cutscene_titles.items { c.fade_in_time = six(c.fade_in_time); c.fade_out_time = six(c.fade_out_time); c.up_time = six(c.up_time) }
        let before = s.clone();
        assert!(nudge_tag(&mut s) == (want != before), "it is told whether a scenario changed");
        assert!(s == want, "titles of a scenario");
        // weights of color permutations: rounded, and equal shares become one each
        let n = [nd::below(5), 1 + nd::below(5), 6 + nd::below(40)][nd::below(3)];
        let mut w = Weapon::default();
        let mut c = ObjectChangeColors::default();
        let even = nd::below(3);
        for i in 0..n { let mut p = ObjectChangeColorsPermutation::default(); p.weight = match even { 0 => (1.0 / n as f32) as f64, 1 => (i + 1) as f64 * 0.300000012, _ => 1.0 }; c.permutations.items.push(p) }
        if even == 0 && n > 1 && nd::bool() { c.permutations.items[nd::below(n)].weight *= 1.25 }
        let odd = even == 0 && c.permutations.items.iter().any(|p| p.weight != c.permutations.items[0].weight) || (even == 0 && n > 1 && c.permutations.items[0].weight > 1.1 / n as f64);
        w.item.object.change_colors.items.push(Default::default());
        w.item.object.change_colors.items.push(c);
        let mut want = w.clone();
        for p in &mut want.item.object.change_colors.items[1].permutations.items { p.weight = if even == 0 && !odd { 1.0 } else { six(p.weight) } }
        let before = w.clone();
        assert!(nudge_tag(&mut w) == (want != before), "it is told whether an object changed: {n} color permutations, kind {even}");
        assert!(w == want, "weights of {n} color permutations, kind {even}");
        assert!(!is_nudgeable(TagGroup::Bitmap) && !nudge_tag(&mut Bitmap::default()) && is_nudgeable(TagGroup::Weapon) && is_nudgeable(TagGroup::Scenery));
    }
    native object_convert(iters 60) "get_tag_conversion_fn between object groups: the common part is kept, the rest is default; groups that do not convert have no function" {
        let mut r = rng();
        let fill = |o: &mut Object, r: &mut Rng| { o.bounding_radius = num(r); o.model = TagReference::Set(TagPath::new(&format!("a\\b{}", r.below(9)), TagGroup::GBXModel).unwrap()); o.change_colors.items.resize(r.below(3), Default::default()); o.hud_text_message_index = r.u8() as u16; };
        let mut w = Weapon::default();
        fill(&mut w.item.object, &mut r);
        w.item.flags.unaffected_by_gravity = r.below(2) == 0;
        w.item.pickup_text_index = Some(r.u8() as u16);
        w.label = String32::from_str("weapon").unwrap();
        let conv = |from: TagGroup, to: TagGroup, t: &dyn PrimaryTagStructDyn| get_tag_conversion_fn(from, to).map(|f| f(t).unwrap());
        let s = conv(TagGroup::Weapon, TagGroup::Scenery, &w).expect("an object becomes scenery");
        let mut want = Scenery::default();
        want.basic_object.object = w.item.object.clone();
        assert!(*s.as_any().downcast_ref::<Scenery>().unwrap() == want, "a weapon as scenery");
        let g = conv(TagGroup::Weapon, TagGroup::Garbage, &w).expect("an item becomes garbage");
        assert!(*g.as_any().downcast_ref::<Garbage>().unwrap() == Garbage { item: w.item.clone(), ..Default::default() }, "a weapon as garbage");
        let e = conv(TagGroup::Weapon, TagGroup::Equipment, &w).expect("an item becomes equipment");
        assert!(*e.as_any().downcast_ref::<Equipment>().unwrap() == Equipment { item: w.item.clone(), ..Default::default() }, "a weapon as equipment");
        let x = conv(TagGroup::Garbage, TagGroup::Weapon, g.as_ref()).expect("garbage becomes a weapon");
        assert!(*x.as_any().downcast_ref::<Weapon>().unwrap() == Weapon { item: w.item.clone(), ..Default::default() }, "garbage as a weapon");
        let mut v = Vehicle::default();
        fill(&mut v.unit.object, &mut r);
        let s = conv(TagGroup::Vehicle, TagGroup::Scenery, &v).expect("an object becomes scenery");
        want.basic_object.object = v.unit.object.clone();
        assert!(*s.as_any().downcast_ref::<Scenery>().unwrap() == want, "a vehicle as scenery");
        let mut d = DeviceMachine::default();
        fill(&mut d.device.object, &mut r);
        let s = conv(TagGroup::DeviceMachine, TagGroup::Scenery, &d).expect("an object becomes scenery");
        want.basic_object.object = d.device.object.clone();
        assert!(*s.as_any().downcast_ref::<Scenery>().unwrap() == want, "a machine as scenery");
        let mut p = Projectile::default();
        fill(&mut p.object, &mut r);
        let s = conv(TagGroup::Projectile, TagGroup::Scenery, &p).expect("an object becomes scenery");
        want.basic_object.object = p.object.clone();
        assert!(*s.as_any().downcast_ref::<Scenery>().unwrap() == want, "a projectile as scenery");
        let mut so = SoundScenery::default();
        fill(&mut so.basic_object.object, &mut r);
        let s = conv(TagGroup::SoundScenery, TagGroup::Scenery, &so).expect("an object becomes scenery");
        want.basic_object.object = so.basic_object.object.clone();
        assert!(*s.as_any().downcast_ref::<Scenery>().unwrap() == want, "sound scenery as scenery");
        assert!(get_tag_conversion_fn(TagGroup::Vehicle, TagGroup::Weapon).is_none() && get_tag_conversion_fn(TagGroup::Scenery, TagGroup::Scenery).is_none() && get_tag_conversion_fn(TagGroup::Bitmap, TagGroup::Scenery).is_none());
    }
}
