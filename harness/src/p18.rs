//! P18: defaults are set and unset exactly where they are documented; comparing two tags finds exactly what differs.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::tag::compare::*;
use ringhopper::tag::default::*;
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;

fn at(s: usize, f: &str) -> usize { layout().structs[s].fields.iter().position(|x| x.rust == f).unwrap_or_else(|| panic!("{f}")) }
fn sub<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Val { let Val::Struct(v) = v else { panic!() }; &mut v[at(s, f)] }
fn units<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Vec<u32> { let Val::Units(u) = sub(s, v, f) else { panic!() }; u }
fn items<'a>(s: usize, v: &'a mut Val, f: &str) -> &'a mut Vec<Val> { let Val::List(l) = sub(s, v, f) else { panic!() }; l }
/// every structure with this name inside the value
fn visit(s: usize, v: &mut Val, name: &str, f: &mut dyn FnMut(usize, &mut Val)) {
    let l = layout();
    if l.structs[s].name == name { f(s, v); return }
    let Val::Struct(v) = v else { panic!() };
    for (d, v) in l.structs[s].fields.iter().zip(v) {
        match (d.kind, v) { (Kind::Struct(q), v) => visit(q, v, name, f), (Kind::List(q), Val::List(i)) => for v in i { visit(q, v, name, f) }, _ => () }
    }
}
fn f(u: u32) -> f32 { f32::from_bits(u) }
fn b(x: f32) -> u32 { x.to_bits() }
fn angle(degrees: f32) -> f32 { degrees.to_radians() }
/// the default of a field in stored units: angles are documented in degrees
fn documented(d: &Field) -> Option<Vec<u32>> {
    let p = match d.kind { Kind::Prim(p) => p, _ => Prim::U8 };
    d.default.as_ref().map(|x| x.iter().map(|x| match x.split_at(1) {
        ("f", h) => { let v = f(u32::from_str_radix(h, 16).unwrap()); b(if p == Prim::Angle { angle(v) } else { v }) },
        (_, n) => n.parse::<i32>().unwrap() as u32
    }).collect())
}
fn equal(p: Prim, a: &[u32], c: &[u32]) -> bool { a.len() == c.len() && a.iter().zip(c).all(|(a, c)| if p.shape().2 { f(*a) == f(*c) } else { a == c }) }

/// the defaults of the definitions, at any depth
fn plain(s: usize, v: &mut Val, undo: bool) -> bool {
    let l = layout();
    let mut any = false;
    let Val::Struct(v) = v else { panic!() };
    for (d, v) in l.structs[s].fields.iter().zip(v) {
        match (documented(d), d.kind, v) {
            (Some(def), Kind::Prim(p), Val::Units(u)) => {
                let zero = vec![0; u.len()];
                let (from, to) = if undo { (&def, &zero) } else { (&zero, &def) };
                if equal(p, u, from) { *u = to.clone(); any = true }
            },
            (None, Kind::Struct(q), v) => any |= plain(q, v, undo),
            (None, Kind::List(q), Val::List(i)) => for v in i { any |= plain(q, v, undo) },
            (None, ..) => (),
            _ => panic!("a default of numbers")
        }
    }
    any
}
fn pair(s: usize, v: &mut Val, names: [&str; 2], to: [f32; 2], undo: bool) {
    let is = |x: f32, y: f32| x == y;
    let now = names.map(|n| f(units(s, v, n)[0]));
    let (from, to) = if undo { (to, [0.0, 0.0]) } else { ([0.0, 0.0], to) };
    if is(now[0], from[0]) && is(now[1], from[1]) { for (n, t) in names.iter().zip(to) { units(s, v, n)[0] = b(t) } }
}
fn single(u: &mut u32, to: f32, undo: bool) { let (from, to) = if undo { (to, 0.0) } else { (0.0, to) }; if f(*u) == from { *u = b(to) } }
/// both scales missing: 1; one missing: as the other
fn scales(s: usize, v: &mut Val, undo: bool) {
    let [x, y] = ["map_u_scale", "map_v_scale"].map(|n| f(units(s, v, n)[0]));
    let one = |v: f32| v == 0.0 || v == 1.0;
    let (x, y) = if undo { if one(x) && one(y) { (0.0, 0.0) } else { (x, y) } } else if x == 0.0 && y == 0.0 { (1.0, 1.0) } else { (if x == 0.0 { y } else { x }, if y == 0.0 { x } else { y }) };
    units(s, v, "map_u_scale")[0] = b(x);
    units(s, v, "map_v_scale")[0] = b(y);
}
/// (classes, distances)
const DISTANCES: &[(&[&str], f32, f32)] = &[
    (&["DeviceMachinery", "DeviceForceField", "AmbientMachinery", "AmbientNature", "DeviceDoor", "Music", "DeviceNature"], 0.9, 5.0),
    (&["WeaponEmpty", "WeaponIdle", "WeaponReady", "WeaponReload", "WeaponCharge", "WeaponOverheat"], 1.0, 9.0),
    (&["ScriptedDialogOther", "ScriptedDialogPlayer", "GameEvent", "UnitDialog", "ScriptedDialogForceUnspatialized"], 3.0, 20.0),
    (&["FirstPersonDamage", "ObjectImpacts", "AmbientComputers", "ParticleImpacts", "DeviceComputers", "SlowParticleImpacts"], 0.5, 3.0),
    (&["VehicleEngine", "ProjectileImpact", "VehicleCollision"], 1.4, 8.0),
    (&["WeaponFire"], 4.0, 70.0), (&["ScriptedEffect"], 2.0, 5.0), (&["ProjectileDetonation"], 8.0, 120.0), (&["UnitFootsteps"], 0.9, 10.0)
];
const QUIET: &[&str] = &["ObjectImpacts", "ParticleImpacts", "SlowParticleImpacts", "UnitDialog", "Music", "AmbientNature", "AmbientMachinery", "AmbientComputers", "ScriptedDialogPlayer", "ScriptedDialogOther", "ScriptedDialogForceUnspatialized", "ScriptedEffect"];
fn class(s: usize, v: &mut Val) -> (f32, f32, f32) {
    let n = units(s, v, "sound_class")[0];
    let Kind::Enum(e) = layout().structs[s].fields[at(s, "sound_class")].kind else { panic!() };
    let name = layout().enums[e].options.iter().find(|o| o.0 as u32 == n && !o.3).expect("a known class").1.clone();
    let d = DISTANCES.iter().find(|d| d.0.contains(&&name[..])).unwrap_or_else(|| panic!("{name}"));
    (d.1, d.2, if QUIET.contains(&&name[..]) { 0.0 } else { 1.0 })
}
fn sound(s: usize, v: &mut Val, undo: bool) {
    let l = layout();
    let (lower, upper, gain) = class(s, v);
    let Kind::Bits(fl) = l.structs[s].fields[at(s, "flags")].kind else { panic!() };
    let split = units(s, v, "flags")[0] & l.bits[fl].bits.iter().find(|x| x.1 == "split_long_sound_into_permutations").unwrap().0 != 0;
    let Kind::List(pr) = l.structs[s].fields[at(s, "pitch_ranges")].kind else { panic!() };
    let Kind::List(pe) = l.structs[pr].fields[at(pr, "permutations")].kind else { panic!() };
    for r in items(s, v, "pitch_ranges") {
        let natural = f(units(pr, r, "natural_pitch")[0]);
        let natural = if natural <= 0.0 { 1.0 } else { natural };
        let u = units(pr, r, "bend_bounds");
        if f(u[1]) < natural { u[1] = b(natural) }
        if f(u[0]) > natural { u[0] = b(natural) }
        if undo && f(u[1]) == natural && f(u[0]) == 0.0 { u[1] = 0 }
        let count = units(pr, r, "actual_permutation_count")[0] as usize;
        let p = items(pr, r, "permutations");
        let main = if split { count } else { p.len() };
        if main > p.len() { continue }
        for x in &mut p[..main] { single(&mut units(pe, x, "gain")[0], 1.0, undo) }
        if !split { continue }
        if undo { for x in &mut p[main..] { units(pe, x, "gain")[0] = 0 } }
        else {
            for k in 0..main {
                // all that hangs on this permutation gets its gain
                let gain = units(pe, &mut p[k], "gain")[0];
                let mut chain = vec![];
                let mut next = units(pe, &mut p[k], "next_permutation_index")[0] as usize;
                while next < p.len() && !chain.contains(&next) { chain.push(next); next = units(pe, &mut p[next], "next_permutation_index")[0] as usize }
                for x in chain { units(pe, &mut p[x], "gain")[0] = gain }
            }
        }
    }
    let u = units(s, v, "distance_bounds");
    single(&mut u[0], lower, undo);
    single(&mut u[1], upper, undo);
    let u = units(s, v, "random_pitch_bounds");
    single(&mut u[0], 1.0, undo);
    single(&mut u[1], 1.0, undo);
    pair(s, v, ["zero_skip_fraction_modifier", "one_skip_fraction_modifier"], [1.0, 1.0], undo);
    pair(s, v, ["zero_pitch_modifier", "one_pitch_modifier"], [1.0, 1.0], undo);
    pair(s, v, ["zero_gain_modifier", "one_gain_modifier"], [gain, 1.0], undo);
}
/// what each group has beside the definitions
fn special(g: &Group, v: &mut Val, undo: bool) -> bool {
    let s = g.root;
    match &g.camel[..] {
        "Sound" => sound(s, v, undo),
        "Light" => visit(s, v, "LightColor", &mut |s, v| {
            let u = units(s, v, "color");
            let (from, to) = if undo { (1.0, 0.0) } else { (0.0, 1.0) };
            if [1, 2, 3, 5, 6, 7].iter().all(|i| f(u[*i]) == from) { for i in [1, 2, 3, 5, 6, 7] { u[i] = b(to) } }
        }),
        "Particle" => {
            let u = units(s, v, "radius_animation");
            single(&mut u[0], 1.0, undo);
            single(&mut u[1], 1.0, undo);
            let [x, y] = ["fade_start_size", "fade_end_size"].map(|n| f(units(s, v, n)[0]));
            let to = if undo { if (x == 5.0 || x == 0.0) && (y == 4.0 || y == 0.0) { (0.0, 0.0) } else { (x, y) } } else if x == 0.0 || y == 0.0 { (5.0, 4.0) } else { (x, y) };
            units(s, v, "fade_start_size")[0] = b(to.0);
            units(s, v, "fade_end_size")[0] = b(to.1);
        },
        "LightVolume" => pair(s, v, ["perpendicular_brightness_scale", "parallel_brightness_scale"], [1.0, 1.0], undo),
        "SoundLooping" => pair(s, v, ["zero_detail_sound_period", "one_detail_sound_period"], [1.0, 1.0], undo),
        "ShaderModel" => visit(s, v, "ShaderModelMaps", &mut |s, v| scales(s, v, undo)),
        "ShaderTransparentChicago" | "ShaderTransparentChicagoExtended" | "ShaderTransparentGeneric" => visit(s, v, "ShaderTransparentMapParameters", &mut |s, v| scales(s, v, undo)),
        "LensFlare" => {
            let u = &mut units(s, v, "rotation_function_scale")[0];
            let x = f(*u);
            // 360 radians is what older tools took for 360 degrees
            if undo { let d = x.to_degrees() as f64; if (359.9995..360.0005).contains(&d) || x == 360.0 { *u = 0 } }
            else if x == 0.0 || x == 360.0 { *u = b(angle(360.0)) }
        },
        "Model" | "GBXModel" => visit(s, v, "ModelGeometryPart", &mut |s, v| {
            let n = ["next_filthy_part_index", "prev_filthy_part_index"];
            let (from, to) = if undo { (255, 0) } else { (0, 255) };
            if n.iter().all(|n| units(s, v, n)[0] == from) { for n in n { units(s, v, n)[0] = to } }
        }),
        _ => return false
    }
    true
}
fn object(g: &Group, v: &mut Val, undo: bool) -> bool {
    let mut any = false;
    visit(g.root, v, "Object", &mut |s, v| {
        any = true;
        let whole = units(s, v, "bounding_radius")[0];
        let u = &mut units(s, v, "render_bounding_radius")[0];
        if undo { if f(*u) == f(whole) { *u = 0 } } else if f(*u) == 0.0 { *u = whole }
    });
    any
}
fn apply(g: &Group, v: &mut Val, undo: bool) {
    if undo { object(g, v, true); special(g, v, true); plain(g.root, v, true); }
    else { plain(g.root, v, false); special(g, v, false); object(g, v, false); }
}
fn has_default(s: usize) -> bool { layout().structs[s].fields.iter().any(|d| d.default.is_some() || match d.kind { Kind::Struct(q) | Kind::List(q) => has_default(q), _ => false }) }

/// numbers that matter here, more often
fn tune(s: usize, v: &mut Val, r: &mut Rng, k: usize) {
    let l = layout();
    let Val::Struct(v) = v else { panic!() };
    for (d, v) in l.structs[s].fields.iter().zip(v) {
        if !stored(d, Side::Tag) { continue }
        match (d.kind, v) {
            (Kind::Prim(p), Val::Units(u)) => {
                let def = documented(d);
                for (i, x) in u.iter_mut().enumerate() {
                    let nice = if p == Prim::Angle { [0.0, 360.0, angle(360.0), angle(360.0) + 4e-6, angle(359.9996), angle(359.9993), angle(180.0)][r.below(7)] } else if p.shape().2 { [0.0, 1.0, 0.0, 1.0, -0.0, 5.0, 4.0][r.below(7)] } else { 0.0 };
                    match r.below(6) {
                        0 | 1 => *x = 0,
                        2 if def.is_some() => *x = def.as_ref().unwrap()[i],
                        3 if p == Prim::U8 => *x = 255,
                        3 | 4 if p.shape().2 => *x = b(nice),
                        _ => ()
                    }
                }
                // all of one kind, for those that go together
                match r.below(4) { 0 => u.fill(0), 1 => if let Some(def) = def { *u = def } else if p.shape().2 { let x = [1.0, 0.0][k]; u.fill(b(x)) }, _ => () }
            },
            (Kind::Struct(q), v) => { let k = r.below(2); tune(q, v, r, k) },
            (Kind::List(q), Val::List(i)) => for v in i { let k = r.below(2); tune(q, v, r, k) },
            _ => ()
        }
    }
}
fn value(g: &Group, seed: u64, budget: usize) -> (Val, Rng) {
    let mut m = Maker::new(seed, budget, Side::Tag);
    let v = m.struct_val(g.root);
    let mut v = read_struct(g.root, &v, Side::Tag);
    let mut r = m.rng;
    if r.below(8) != 0 { let k = r.below(2); tune(g.root, &mut v, &mut r, k) }
    let l = layout();
    match &g.camel[..] {
        "Sound" => {
            let (lower, upper, gain) = class(g.root, &mut v);
            if r.below(2) == 0 { let u = units(g.root, &mut v, "distance_bounds"); if r.below(3) != 0 { u[0] = b(lower) } if r.below(3) != 0 { u[1] = b(upper) } }
            if r.below(3) == 0 { units(g.root, &mut v, "zero_gain_modifier")[0] = b(gain); units(g.root, &mut v, "one_gain_modifier")[0] = b(1.0) }
            visit(g.root, &mut v, "SoundPitchRange", &mut |s, v| {
                let n = items(s, v, "permutations").len();
                units(s, v, "actual_permutation_count")[0] = r.below(n + 2) as u32;
                if r.below(2) == 0 { let x = b([0.5, 1.0, 1.5][r.below(3)]); units(s, v, "natural_pitch")[0] = x; if r.below(2) == 0 { *units(s, v, "bend_bounds") = vec![[0, x][r.below(2)], x] } }
                let Kind::List(q) = l.structs[s].fields[at(s, "permutations")].kind else { panic!() };
                for p in items(s, v, "permutations") { units(q, p, "next_permutation_index")[0] = [0xFFFF, r.below(n + 1) as u32][r.below(3).min(1)] }
            });
        },
        "Particle" => for (n, x) in [("fade_start_size", 5.0), ("fade_end_size", 4.0)] { if r.below(2) == 0 { units(g.root, &mut v, n)[0] = b(x) } },
        "LightVolume" | "SoundLooping" => for n in if g.camel == "LightVolume" { ["perpendicular_brightness_scale", "parallel_brightness_scale"] } else { ["zero_detail_sound_period", "one_detail_sound_period"] } { if r.below(2) == 0 { units(g.root, &mut v, n)[0] = b(1.0) } },
        "Light" => { let x = r.below(3); visit(g.root, &mut v, "LightColor", &mut |s, v| if x < 2 { for i in [1, 2, 3, 5, 6, 7] { units(s, v, "color")[i] = b(x as f32) } if r.below(5) == 0 { units(s, v, "color")[r.below(8)] = b(0.5) } }) },
        "Model" | "GBXModel" => visit(g.root, &mut v, "ModelGeometryPart", &mut |s, v| for n in ["next_filthy_part_index", "prev_filthy_part_index"] { if r.below(4) != 0 { units(s, v, n)[0] = [0, 255][r.below(5) / 3] } }),
        _ => ()
    }
    visit(g.root, &mut v, "Object", &mut |s, v| if r.below(3) == 0 { units(s, v, "render_bounding_radius")[0] = units(s, v, "bounding_radius")[0] });
    (v, r)
}
fn file(g: &Group, v: &Val) -> Vec<u8> {
    let (mut body, tail) = tag_struct(g.root, v, &mut None);
    body.extend(tail);
    let mut f = tag_header(g, crc(&body));
    f.extend(body);
    f
}
fn read(g: &Group, f: &[u8]) -> Box<dyn PrimaryTagStructDyn> { match read_any_tag_from_file_buffer(f, ParseStrictness::Strict) { Ok(t) => t, Err(e) => panic!("{}: a well-formed tag is refused: {e}", g.name) } }
fn check(g: &Group, want: &Val, got: &dyn PrimaryTagStructDyn, what: &str) { if let Err(e) = same_struct(g.root, want, got.as_dynamic(), &g.name) { panic!("{what}: {e}") } }
/// -0 is 0
fn plus(s: usize, v: &mut Val) {
    let Val::Struct(v) = v else { panic!() };
    for (d, v) in layout().structs[s].fields.iter().zip(v) {
        match (d.kind, v) {
            (Kind::Prim(p), Val::Units(u)) => if p.shape().2 { for x in u { if f(*x) == 0.0 { *x = 0 } } },
            (Kind::Struct(q), v) => plus(q, v),
            (Kind::List(q), Val::List(i)) => for v in i { plus(q, v) },
            _ => ()
        }
    }
}
fn defaults(g: &Group, seed: u64, budget: usize) {
    let (v, _) = value(g, seed, budget);
    let start = file(g, &v);
    let mut tag = read(g, &start);
    check(g, &v, &*tag, "tag");
    let (mut set, mut unset) = (v.clone(), v.clone());
    apply(g, &mut set, false);
    apply(g, &mut unset, true);
    set_all_defaults_for_tag(&mut *tag);
    check(g, &set, &*tag, "defaults set");
    cover!(set != v && unset != v, "both");
    let mut other = read(g, &start);
    unset_all_defaults_for_tag(&mut *other);
    check(g, &unset, &*other, "defaults unset");
    // what was set is also unset, through a tag file or not, and comes back
    let mut back = set.clone();
    apply(g, &mut back, true);
    let mut again = read(g, &tag.to_tag_file().expect("a tag is written"));
    unset_all_defaults_for_tag(&mut *tag);
    check(g, &back, &*tag, "defaults unset after being set");
    unset_all_defaults_for_tag(&mut *again);
    check(g, &back, &*again, "defaults unset after being set and saved");
    set_all_defaults_for_tag(&mut *again);
    let mut twice = back.clone();
    apply(g, &mut twice, false);
    check(g, &twice, &*again, "defaults set, unset and set");
    if g.camel != "Sound" && g.camel != "LensFlare" { plus(g.root, &mut twice); plus(g.root, &mut set); assert!(twice == set, "{}: setting, unsetting and setting is setting", g.name) }
    let any = has_default(g.root) || special(g, &mut v.clone(), false) || object(g, &mut v.clone(), false);
    assert!(group_has_defaults(tag.group()) == any, "{} has defaults: {any}", g.name);
}

struct Found { depth: usize, path: String, what: String }
fn diff(s: usize, a: &Val, c: &Val, path: &str, depth: usize, raw: bool, short: bool, out: &mut Vec<Found>) {
    let (Val::Struct(a), Val::Struct(c)) = (a, c) else { panic!() };
    for ((d, a), c) in layout().structs[s].fields.iter().zip(a).zip(c) {
        if d.kind == Kind::Pad || d.exclude || (!raw && d.cache_only) { continue }
        let path = if path.is_empty() { d.matcher.clone() } else { format!("{path}.{}", d.matcher) };
        let start = out.len();
        diff_field(d, a, c, &path, depth + 1, raw, short, out);
        let n = out.len() - start;
        let many = match (d.count, a) { (Count::Bounds, _) => true, (Count::N(n), _) => n > 1, (_, Val::List(l)) => l.len() > 1, _ => false };
        if short && many && n > 1 { out.truncate(start); out.push(Found { depth: depth + 1, path, what: format!("{n} difference(s) found (minimized)") }) }
    }
}
fn diff_field(d: &Field, a: &Val, c: &Val, path: &str, depth: usize, raw: bool, short: bool, out: &mut Vec<Found>) {
    let l = layout();
    let mut add = |depth: usize, path: String, what: String| out.push(Found { depth, path, what });
    match (d.kind, a, c) {
        (Kind::Prim(p), Val::Units(x), Val::Units(y)) => {
            let k = p.shape().1;
            let whole = d.count == Count::One;
            for (i, (x, y)) in x.chunks(k).zip(y.chunks(k)).enumerate() {
                if equal(p, x, y) { continue }
                let text = match p { Prim::U8 | Prim::U16 | Prim::U32 => format!("value is different ({} != {})", x[0], y[0]), Prim::I32 => format!("value is different ({} != {})", x[0] as i32, y[0] as i32), Prim::I16 => format!("value is different ({} != {})", x[0] as i16, y[0] as i16), _ => "value is different (".into() };
                if whole { add(depth, path.into(), text) } else { add(depth + 1, if d.count == Count::Bounds { format!("{path}.{}", ["lower", "upper"][i]) } else { format!("{path}[{i}]") }, text) }
            }
        },
        (Kind::Enum(e), Val::Units(x), Val::Units(y)) => if x != y { let n = |v: u32| &l.enums[e].options.iter().find(|o| o.0 as u32 == v && !o.3).unwrap().2; add(depth, path.into(), format!("enum is different (`{}` != `{}`)", n(x[0]), n(y[0]))) },
        (Kind::Bits(q), Val::Units(x), Val::Units(y)) => for bit in &l.bits[q].bits { if !bit.2 && (raw || !bit.3) && (x[0] ^ y[0]) & bit.0 != 0 { add(depth + 1, format!("{path}.{}", bit.1), format!("value is different ({} != {})", x[0] & bit.0 != 0, y[0] & bit.0 != 0)) } },
        (Kind::Str32, ..) | (Kind::Utf16, ..) => if a != c { add(depth, path.into(), "value is different (".into()) },
        (Kind::Ref, ..) => if a != c { add(depth, path.into(), "reference is different (`".into()) },
        (Kind::Data | Kind::FileData | Kind::BspData, Val::Bytes(x), Val::Bytes(y)) => {
            if x.len() != y.len() { add(depth, path.into(), format!("length is different ({} != {})", x.len(), y.len())) }
            else if x != y { add(depth, path.into(), "data is different (CRC64: ".into()) }
        },
        (Kind::Struct(q), ..) => diff(q, a, c, path, depth, raw, short, out),
        (Kind::List(q), Val::List(x), Val::List(y)) => {
            if x.len() != y.len() { add(depth, path.into(), format!("length is different ({} != {})", x.len(), y.len())) }
            for (i, (x, y)) in x.iter().zip(y).enumerate() { diff(q, x, y, &format!("{path}[{i}]"), depth + 1, raw, short, out) }
        },
        _ => panic!()
    }
}
/// other values here and there; lists become longer or shorter
fn change(s: usize, v: &mut Val, m: &mut Maker, p: usize) {
    let l = layout();
    let fresh = read_struct(s, &m.struct_val(s), Side::Tag);
    let (Val::Struct(v), Val::Struct(n)) = (v, fresh) else { panic!() };
    for ((d, v), n) in l.structs[s].fields.iter().zip(v).zip(n) {
        if !stored(d, Side::Tag) { continue }
        match (d.kind, &mut *v) {
            (Kind::Struct(q), v) => change(q, v, m, p),
            (Kind::List(q), Val::List(i)) => {
                if m.rng.below(p) == 0 { if m.rng.below(2) == 0 { i.pop(); } else if m.budget > l.structs[q].size { m.budget -= l.structs[q].size; i.push(read_struct(q, &m.struct_val(q), Side::Tag)) } }
                for v in i { if m.rng.below(2) == 0 { change(q, v, m, p) } }
            },
            (Kind::Prim(_) | Kind::Bits(_), Val::Units(u)) => if m.rng.below(p) == 0 {
                let Val::Units(n) = n else { panic!() };
                let k = m.rng.below(u.len());
                if m.rng.below(2) == 0 { *u = n } else { u[k] = n[k] }
            },
            (Kind::Data | Kind::FileData | Kind::BspData, Val::Bytes(x)) if !x.is_empty() && m.rng.below(2) == 0 => if m.rng.below(p) == 0 { let k = m.rng.below(x.len()); x[k] ^= 1 << m.rng.below(8) },
            _ => if m.rng.below(p) == 0 { *v = n }
        }
    }
}
/// values tag files do not store, in memory and in the model of it
fn hidden(s: usize, v: &mut Val, d: &mut dyn DynamicTagData, r: &mut Rng) {
    let l = layout();
    let Val::Struct(v) = v else { panic!() };
    for (x, v) in l.structs[s].fields.iter().zip(v) {
        if x.kind == Kind::Pad || x.exclude { continue }
        let y = d.get_field_mut(&x.matcher).unwrap();
        match (x.kind, v) {
            (Kind::Struct(q), v) => hidden(q, v, y, r),
            (Kind::List(q), Val::List(i)) => { let a = y.as_array_mut().unwrap(); for (k, v) in i.iter_mut().enumerate() { hidden(q, v, a.get_at_index_mut(k).unwrap(), r) } },
            (Kind::Bits(q), Val::Units(u)) => for bit in &l.bits[q].bits { if bit.3 && !bit.2 && r.below(2) == 0 { *y.get_field_mut(&bit.1).unwrap().as_any_mut().downcast_mut::<bool>().unwrap() = true; u[0] |= bit.0 } },
            (Kind::Prim(_), Val::Units(u)) if x.cache_only && x.count == Count::One && r.below(2) == 0 => {
                let n = 1 + r.below(2) as u32;
                let a = y.as_any_mut();
                if let Some(y) = a.downcast_mut::<f64>() { *y = n as f64; u[0] = b(n as f32) }
                else if let Some(y) = a.downcast_mut::<i16>() { *y = n as i16; u[0] = n }
                else if let Some(y) = a.downcast_mut::<u16>() { *y = n as u16; u[0] = n }
                else if let Some(y) = a.downcast_mut::<u32>() { *y = n; u[0] = n }
                else if let Some(y) = a.downcast_mut::<i32>() { *y = n as i32; u[0] = n }
                else if let Some(y) = a.downcast_mut::<ID>() { *y = ID::from_u32(n); u[0] = n }
                else if let Some(y) = a.downcast_mut::<Index>() { *y = Some(n as u16); u[0] = n }
            },
            _ => ()
        }
    }
}
/// more precision than a tag file has, which is no difference
fn finer(s: usize, d: &mut dyn DynamicTagData, r: &mut Rng) {
    let l = layout();
    let x = |v: &mut f64, r: &mut Rng| if r.below(2) == 0 { let w = *v * (1.0 + 1e-10); if w as f32 == *v as f32 { *v = w } };
    for f in &l.structs[s].fields {
        if f.kind == Kind::Pad || f.exclude { continue }
        let y = d.get_field_mut(&f.matcher).unwrap();
        match f.kind {
            Kind::Struct(q) => finer(q, y, r),
            Kind::List(q) => { let a = y.as_array_mut().unwrap(); for k in 0..a.len() { finer(q, a.get_at_index_mut(k).unwrap(), r) } },
            Kind::Prim(_) if f.count == Count::One => {
                let a = y.as_any_mut();
                if let Some(v) = a.downcast_mut::<f64>() { x(v, r) }
                else if let Some(v) = a.downcast_mut::<Vector2D>() { x(&mut v.x, r); x(&mut v.y, r) }
                else if let Some(v) = a.downcast_mut::<Vector3D>() { x(&mut v.x, r); x(&mut v.y, r); x(&mut v.z, r) }
                else if let Some(v) = a.downcast_mut::<Plane2D>() { x(&mut v.vector.x, r); x(&mut v.vector.y, r); x(&mut v.d, r) }
                else if let Some(v) = a.downcast_mut::<Plane3D>() { x(&mut v.vector.x, r); x(&mut v.vector.z, r); x(&mut v.d, r) }
                else if let Some(v) = a.downcast_mut::<Quaternion>() { x(&mut v.x, r); x(&mut v.y, r); x(&mut v.z, r); x(&mut v.w, r) }
                else if let Some(v) = a.downcast_mut::<ColorRGBFloat>() { x(&mut v.red, r); x(&mut v.green, r); x(&mut v.blue, r) }
                else if let Some(v) = a.downcast_mut::<ColorARGBFloat>() { x(&mut v.alpha, r); x(&mut v.red, r); x(&mut v.green, r); x(&mut v.blue, r) }
                else if let Some(v) = a.downcast_mut::<Matrix3x3>() { for v in &mut v.vectors { x(&mut v.x, r); x(&mut v.y, r); x(&mut v.z, r) } }
            },
            _ => ()
        }
    }
}
fn compare(g: &Group, seed: u64, budget: usize) {
    let (mut v, r) = value(g, seed, budget);
    let mut m = Maker { rng: r, budget, paths: Maker::new(seed, 0, Side::Tag).paths, side: Side::Tag, wild: true };
    let mut w = v.clone();
    let p = [2, 8, 40, 1_000_000][m.rng.below(4)];
    change(g.root, &mut w, &mut m, p);
    let (mut a, mut c) = (read(g, &file(g, &v)), read(g, &file(g, &w)));
    if m.rng.below(2) == 0 { hidden(g.root, &mut v, a.as_mut_dynamic(), &mut m.rng); hidden(g.root, &mut w, c.as_mut_dynamic(), &mut m.rng) }
    if m.rng.below(2) == 0 { finer(g.root, a.as_mut_dynamic(), &mut m.rng) }
    for (raw, short) in [(false, false), (true, false), (false, true), (true, true)] {
        let mut want = vec![];
        diff(g.root, &v, &w, "", 0, raw, short, &mut want);
        let got = compare_tags(&*a, &*c, raw, short);
        for (i, (x, y)) in want.iter().zip(&got).enumerate() {
            assert!(x.path == y.path && x.depth == y.depth && y.difference.starts_with(&x.what), "{}: difference {i} (raw {raw}, short {short}) is {} at {} ({} deep), not {} at {} ({} deep)", g.name, y.difference, y.path, y.depth, x.what, x.path, x.depth);
        }
        assert!(want.len() == got.len(), "{}: {} differences (raw {raw}, short {short}), not {}: {:?}", g.name, got.len(), want.len(), want.get(got.len()).map(|x| &x.path).or(got.get(want.len()).map(|x| &x.path)));
        cover!(want.is_empty() && p < 1000, "hidden only");
        cover!(want.len() > 40, "many");
        cover!(want.iter().any(|x| x.what.contains("minimized")), "minimized");
        assert!(compare_tags(&*a, &*a, raw, short).is_empty(), "{}: a tag differs from itself", g.name);
    }
}
fn group() -> &'static Group { &layout().groups[nd::u64() as usize % layout().groups.len()] }
const HAND: [&str; 12] = ["Sound", "Light", "Particle", "LightVolume", "ShaderModel", "ShaderTransparentChicago", "ShaderTransparentChicagoExtended", "ShaderTransparentGeneric", "LensFlare", "SoundLooping", "Model", "GBXModel"];

contracts! {
    native defaults_any(iters 1500) "set_all_defaults_for_tag, unset_all_defaults_for_tag, group_has_defaults: every group; exactly the documented fields, at any depth" { defaults(group(), nd::u64(), 3000) }
    native defaults_hand(iters 3000) "the same for the groups whose defaults go together or depend on other fields" { let n = HAND[nd::below(12)]; defaults(layout().groups.iter().find(|g| g.camel == n).unwrap(), nd::u64(), 4000) }
    native comparing(iters 1200) "compare_tags: every group; exactly the fields that differ, in order, with their path and depth; cache-only fields when asked; minimized when asked" { compare(group(), nd::u64(), 3000) }
}
