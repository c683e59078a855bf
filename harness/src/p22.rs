//! P22: checking and repairing tags always ends, reports exactly the problems it describes, and mends what it can.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::result::TagResult;
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use ringhopper_primitives::engine::Engine;
use ringhopper_primitives::error::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::num::NonZeroUsize;
use std::sync::Arc;

fn file_of(g: &Group, v: &Val) -> Vec<u8> {
    let (mut body, tail) = tag_struct(g.root, v, &mut None);
    body.extend(tail);
    let mut file = tag_header(g, crc(&body));
    file.extend(&body);
    file
}
fn parsed(g: &Group, v: &Val) -> Box<dyn PrimaryTagStructDyn> { read_any_tag_from_file_buffer(&file_of(g, v), ParseStrictness::Strict).expect("a well-formed tag") }
fn group(g: TagGroup) -> &'static Group { layout().groups.iter().find(|x| x.code == code_of(g)).unwrap() }

/// Visit every field with a value, in lists and structures.
fn each(s: usize, v: &mut Val, f: &mut dyn FnMut(&Field, &mut Val)) {
    let Val::Struct(vals) = v else { panic!() };
    for (d, v) in layout().structs[s].fields.iter().zip(vals) {
        match (d.kind, &mut *v) {
            (Kind::Struct(s), v) => each(s, v, f),
            (Kind::List(s), Val::List(l)) => for x in l { each(s, x, f) },
            (Kind::Pad, _) => (),
            (_, v) => f(d, v)
        }
    }
}
fn is_nan(u: u32) -> bool { f32::from_bits(u).is_nan() }
/// Spoil some numbers.
fn spoil(s: usize, v: &mut Val, r: &mut Rng, chance: usize) {
    each(s, v, &mut |f, v| if let (Kind::Prim(p), Val::Units(u)) = (f.kind, v) { if p.shape().2 && !f.exclude { for x in u {
        if matches!(p, Prim::Rgb | Prim::Argb) && r.below(3) != 0 { *x = [0u32, 0x3F800000, 0x3F000000][r.below(3)] }
        if r.below(chance) == 0 { *x = if matches!(p, Prim::Rgb | Prim::Argb) { [0x7FC00000u32, 0x3F800001, 0x80000001, 0xBF800000, 0x7F800000, 0x40000000][r.below(6)] } else { 0x7FC00000 } }
    } } });
}
/// Specification: no number is NaN, and the parts of colors are from 0 to 1.
fn mended(s: usize, v: &mut Val) -> bool {
    let mut any = false;
    each(s, v, &mut |f, v| if let (Kind::Prim(p), Val::Units(u)) = (f.kind, v) { if p.shape().2 && !f.exclude { for x in u {
        let y = if is_nan(*x) { 0 } else if matches!(p, Prim::Rgb | Prim::Argb) { let n = f32::from_bits(*x); if n < 0.0 { 0 } else if n > 1.0 { 0x3F800000 } else { *x } } else { *x };
        if y != *x { any = true; *x = y }
    } } });
    any
}
fn special(g: TagGroup) -> bool { matches!(g, TagGroup::Model | TagGroup::GBXModel | TagGroup::Sound | TagGroup::Scenario | TagGroup::UnicodeStringList | TagGroup::ScenarioStructureBSP) }
fn nan_left(t: &dyn PrimaryTagStructDyn) -> bool { let mut bad = false; for_each_field(t.as_dynamic(), |_, f| if let Some(x) = f.as_any().downcast_ref::<f64>() { bad |= x.is_nan() } else if let Some(x) = f.as_any().downcast_ref::<Vector3D>() { bad |= x.x.is_nan() || x.y.is_nan() || x.z.is_nan() } else if let Some(x) = f.as_any().downcast_ref::<Quaternion>() { bad |= x.x.is_nan() || x.y.is_nan() || x.z.is_nan() || x.w.is_nan() }); bad }
fn done(r: BludgeonResult) -> bool { matches!(r, BludgeonResult::Done) }
fn path(g: TagGroup) -> TagPath { TagPath::new("levels\\a\\thing", g).unwrap() }
fn unit(q: f64) -> bool { (1.0 - q).abs() < 0.001 }
fn q2(q: &Quaternion) -> f64 { q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w }
fn list<T: TagData>(items: Vec<T>) -> Reflexive<T> { Reflexive { items } }

// ---- trees

struct Memory { items: HashMap<TagPath, Vec<u8>> }
impl TagTree for Memory {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { match self.items.get(p) { Some(t) => read_any_tag_from_file_buffer(t, ParseStrictness::Strict), None => Err(Error::TagNotFound(p.clone())) } }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { panic!("nothing is written") }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.items.contains_key(p) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.items.keys().cloned().collect() }
}
struct Item { v: Val }
struct Built { items: BTreeMap<TagPath, Item>, scenario: TagPath, engine: &'static Engine, kind: ScenarioType }
fn set_ref(t: TagGroup, v: &mut Val, field: &[&str], to: Option<&TagPath>) {
    // only for the few references that tie a tree together
    fn at<'a>(s: usize, v: &'a mut Val, name: &str) -> (&'static Field, &'a mut Val) { let Val::Struct(l) = v else { panic!() }; let i = layout().structs[s].fields.iter().position(|f| f.matcher == name).unwrap_or_else(|| panic!("field {name}")); (&layout().structs[s].fields[i], &mut l[i]) }
    let mut s = group(t).root;
    let mut v = v;
    for n in field {
        let (f, x) = at(s, v, n);
        v = match f.kind { Kind::Struct(i) => { s = i; x }, Kind::List(i) => { s = i; let Val::List(l) = x else { panic!() }; if l.is_empty() { l.push(default_struct(i)) } &mut l[0] }, _ => x };
    }
    *v = match to { Some(p) => Val::Ref(code_of(p.group()), p.path().as_bytes().to_vec()), None => Val::Ref(code_of(TagGroup::Bitmap), vec![]) };
}
fn code(n: &str) -> u32 { layout().codes.iter().find(|c| c.1 == n).unwrap().2 }
fn paths_of(v: &mut Val, s: usize) -> HashSet<TagPath> { let mut out = HashSet::new(); each(s, v, &mut |_, v| if let Val::Ref(c, p) = v { if !p.is_empty() { out.insert(TagPath::new(std::str::from_utf8(p).unwrap(), tag_group(*c)).unwrap()); } }); out }
fn tag_group(c: u32) -> TagGroup { TagGroup::from_fourcc(c).unwrap() }

fn build(r: &mut Rng, wild: bool) -> Built {
    let engine = &ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())];
    let kind = [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface][r.below(3)];
    let scenario = TagPath::new("levels\\test\\test", TagGroup::Scenario).unwrap();
    let globals = TagPath::new("globals\\globals", TagGroup::Globals).unwrap();
    let hud = TagPath::new("ui\\hud\\default", TagGroup::HUDGlobals).unwrap();
    let text = TagPath::new("ui\\text", TagGroup::UnicodeStringList).unwrap();
    let mut names: Vec<TagPath> = vec![scenario.clone(), globals.clone(), hud.clone(), text.clone()];
    let required = &engine.required_tags;
    for i in required.all.iter().chain(match kind { ScenarioType::Singleplayer => required.singleplayer, ScenarioType::Multiplayer => required.multiplayer, _ => required.user_interface }.iter()) { names.push(TagPath::from_path(i).unwrap()) }
    let first_made = names.len();
    let favourites = [TagGroup::WeaponHUDInterface, TagGroup::WeaponHUDInterface, TagGroup::WeaponHUDInterface, TagGroup::Weapon, TagGroup::Bitmap, TagGroup::Effect, TagGroup::UnitHUDInterface, TagGroup::GrenadeHUDInterface, TagGroup::GBXModel, TagGroup::ModelAnimations, TagGroup::Biped, TagGroup::ParticleSystem, TagGroup::Particle, TagGroup::Sound, TagGroup::UnicodeStringList, TagGroup::HUDGlobals, TagGroup::ScenarioStructureBSP, TagGroup::Scenery];
    let l = layout();
    for i in 0..2 + r.below(14) {
        let g = if r.below(3) == 0 { tag_group(l.groups[r.below(l.groups.len())].code) } else { favourites[r.below(favourites.len())] };
        names.push(TagPath::new(&format!("made\\thing{}", i % 9), g).unwrap());
    }
    let mut items: BTreeMap<TagPath, Item> = BTreeMap::new();
    let all: Vec<(u32, Vec<u8>)> = names.iter().map(|p| (code_of(p.group()), p.path().as_bytes().to_vec())).collect();
    for (i, p) in names.iter().enumerate() {
        let g = group(p.group());
        let mut m = Maker::new(r.next(), 1500, Side::Tag);
        m.paths = all.clone();
        let plain = i < first_made || r.below(4) == 0;
        let mut v = if plain { default_struct(g.root) } else { m.struct_val(g.root) };
        let damaged = wild && r.below(3) == 0;
        // mostly references that are allowed there
        each(g.root, &mut v, &mut |f, v| if let Val::Ref(c, p) = v {
            if !(damaged && r.below(6) == 0) {
                let fits: Vec<&(u32, Vec<u8>)> = all.iter().filter(|a| f.groups.iter().any(|n| code(n) == a.0)).collect();
                if fits.is_empty() || r.below(4) == 0 { *c = code(&f.groups[0]); p.clear() } else { let a = fits[r.below(fits.len())]; *c = a.0; *p = a.1.clone() }
            }
            // a reference to nothing of no group is not part of a tree that verifies
            if *c == u32::MAX { *c = code(&f.groups[0]); p.clear() }
        });
        if damaged && r.below(2) == 0 { spoil(g.root, &mut v, r, 20) } else { mended(g.root, &mut v); }
        if *p == scenario { set_ref(p.group(), &mut v, &["structure_bsps", "structure_bsp"], None); put_kind(&mut v, kind) }
        if *p == globals { set_ref(p.group(), &mut v, &["interface_bitmaps", "hud_globals"], Some(&hud)) }
        if *p == hud { set_ref(p.group(), &mut v, &["messaging_parameters", "item_message_text"], Some(&text)) }
        items.insert(p.clone(), Item { v });
    }
    // a collection that is always loaded ties the tags together
    if let Some(c) = names[..first_made].iter().find(|p| p.group() == TagGroup::TagCollection) {
        let root = group(TagGroup::TagCollection).root;
        let Kind::List(e) = l.structs[root].fields[0].kind else { panic!() };
        let list = names[first_made..].iter().map(|p| { let mut x = default_struct(e); let Val::Struct(f) = &mut x else { panic!() }; f[0] = Val::Ref(code_of(p.group()), p.path().as_bytes().to_vec()); x }).collect();
        items.insert(c.clone(), Item { v: Val::Struct(vec![Val::List(list)]) });
    }
    Built { items, scenario, engine, kind }
}
fn put_kind(v: &mut Val, k: ScenarioType) {
    let s = group(TagGroup::Scenario).root;
    let i = layout().structs[s].fields.iter().position(|f| f.matcher == "type").unwrap();
    let Val::Struct(l) = v else { panic!() };
    l[i] = Val::Units(vec![match k { ScenarioType::Singleplayer => 0, ScenarioType::Multiplayer => 1, _ => 2 }]);
}

/// Specification: what is wrong with a tag on its own (numbers that are not numbers, colors out of range, references to
/// groups that the field or the engine does not take).
fn problem(b: &Built, g: &Group, v: &Val) -> bool {
    let mut v = read_struct(g.root, v, Side::Tag);
    let mut bad = false;
    each(g.root, &mut v, &mut |f, v| if let Val::Ref(c, p) = v { if !p.is_empty() && stored(f, Side::Tag) { bad |= !f.groups.iter().any(|n| code(n) == *c) || !group_supported_on_engine(tag_group(*c), b.engine) } });
    bad | mended(g.root, &mut v)
}
fn closure(b: &Built) -> HashSet<TagPath> {
    let required = &b.engine.required_tags;
    let mut stack: Vec<TagPath> = vec![b.scenario.clone()];
    for i in required.all.iter().chain(match b.kind { ScenarioType::Singleplayer => required.singleplayer, ScenarioType::Multiplayer => required.multiplayer, _ => required.user_interface }.iter()) { stack.push(TagPath::from_path(i).unwrap()) }
    let mut out = HashSet::new();
    while let Some(p) = stack.pop() { if !out.insert(p.clone()) { continue } let g = group(p.group()); let mut v = read_struct(g.root, &b.items[&p].v, Side::Tag); stack.extend(paths_of(&mut v, g.root)) }
    out
}
/// Specification: does following the child HUDs of this HUD ever come back to one already seen?
fn loops(tags: &HashMap<TagPath, Box<dyn PrimaryTagStructDyn>>, p: &TagPath) -> bool {
    let mut seen = HashSet::new();
    let mut at = p.clone();
    loop {
        if !seen.insert(at.clone()) { return true }
        match tags[&at].as_any().downcast_ref::<WeaponHUDInterface>().and_then(|h| h.child_hud.path()) { Some(n) => at = n.clone(), None => return false }
    }
}
fn alone(g: TagGroup) -> bool { use TagGroup::*; !ringhopper::tag::object::is_object(g) && !matches!(g, Effect | HUDGlobals | WeaponHUDInterface | UnitHUDInterface | GrenadeHUDInterface | Globals | Model | GBXModel | UnicodeStringList | Bitmap | Sound | ParticleSystem | Scenario | ScenarioStructureBSP) }
fn tree_of(b: &Built) -> HashMap<TagPath, Box<dyn PrimaryTagStructDyn>> { b.items.iter().map(|(p, i)| (p.clone(), parsed(group(p.group()), &i.v))).collect() }
fn copy(b: &Built, without: Option<&TagPath>) -> Memory { Memory { items: b.items.iter().filter(|i| Some(i.0) != without).map(|(p, i)| (p.clone(), file_of(group(p.group()), &i.v))).collect() } }
fn run(b: &Built, without: Option<&TagPath>, threads: usize) -> RinghopperResult<HashMap<TagPath, TagResult>> {
    verify(&b.scenario, Arc::new(CachingTagTree::new(copy(b, without), CachingTagTreeWriteStrategy::Manual)), b.engine, NonZeroUsize::new(threads).unwrap())
}
fn shown(r: &HashMap<TagPath, TagResult>) -> BTreeMap<TagPath, (Vec<String>, Vec<String>, Vec<String>)> { r.iter().map(|(p, r)| (p.clone(), (r.errors.clone(), r.warnings.clone(), r.pedantic_warnings.clone()))).collect() }
fn check_tree(r: &mut Rng, wild: bool) {
    let b = build(r, wild);
    let tags = tree_of(&b);
    let want = closure(&b);
    let n = [2, 4, 8][r.below(3)];
    let one = run(&b, None, 1).unwrap_or_else(|e| panic!("a complete tree is refused: {e}"));
    let many = run(&b, None, n).unwrap_or_else(|e| panic!("a complete tree is refused: {e}"));
    let (one, many) = (shown(&one), shown(&many));
    for p in &want { assert!(one.contains_key(p), "{p} has no verdict with one thread"); assert!(many.contains_key(p), "{p} has no verdict with {n} threads"); }
    for p in one.keys().chain(many.keys()) { assert!(want.contains(p), "{p} is not part of the map") }
    for (p, v) in &one { assert!(many[p] == *v, "{p}: {v:?} with one thread, {:?} with {n}", many[p]) }
    for (p, v) in &one {
        let g = group(p.group());
        let ok = v.0.is_empty();
        let bad = problem(&b, g, &b.items[p].v);
        cover!(bad, "a damaged tag");
        if bad { assert!(!ok, "{p}: a damaged tag passes") }
        if alone(p.group()) { assert!(ok != bad, "{p}: a sound tag is refused: {:?}", v.0) }
        let t = tags[p].as_any();
        if p.group() == TagGroup::WeaponHUDInterface && loops(&tags, p) { cover!(true, "HUDs in a loop"); assert!(!ok, "{p}: its child HUDs never end") }
        if let Some(e) = t.downcast_ref::<Effect>() { let null = e.events.items.iter().any(|e| e.parts.items.iter().any(|p| matches!(p._type, TagReference::Null(TagGroup::DamageEffect)))); assert_eq!(ok, !bad && !null, "{p}: {:?}", v.0) }
        if let Some(s) = t.downcast_ref::<Scenario>() { assert_eq!(ok, !bad && (!s.source_files.items.is_empty() || s.scripts.items.is_empty() && s.globals.items.is_empty()), "{p}: {:?}", v.0) }
        // what a tag's own checks follow must be sound as well
        if let (true, Some(h)) = (ok, t.downcast_ref::<WeaponHUDInterface>()) { if let Some(c) = h.child_hud.path() { assert!(one[c].0.is_empty(), "{p} passes although its child {c} does not") } }
        if !bad && ringhopper::tag::object::is_object(p.group()) {
            let o = ringhopper::tag::object::downcast_base_object(tags[p].as_ref()).unwrap();
            if let Some(m) = o.model.path() { if !one[m].0.is_empty() { assert!(!ok, "{p} passes although its model {m} does not") } } else if !o.animation_graph.is_null() || !o.collision_model.is_null() { assert!(!ok, "{p} has animations without a model") }
        }
    }
    // a tag that is not there
    if r.below(3) == 0 {
        let gone = want.iter().min_by_key(|p| crc(p.to_string().as_bytes())).unwrap().clone();
        assert!(run(&b, Some(&gone), 2).is_err(), "{gone} is missing");
    }
}

// ---- damaged sounds, text, structure BSPs and models

fn sound(r: &mut Rng) -> Sound {
    let mut s = Sound::default();
    let f = [SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM];
    let main = f[r.below(3)];
    s.format = f[r.below(3)];
    s.channel_count = if r.below(2) == 0 { SoundChannelCount::Mono } else { SoundChannelCount::Stereo };
    s.sample_rate = if r.below(2) == 0 { SoundSampleRate::_22050Hz } else { SoundSampleRate::_44100Hz };
    let mixed = r.below(5) == 0;
    let odd = r.below(5) == 0;
    let split = r.below(2) == 0;
    s.flags.split_long_sound_into_permutations = r.below(3) == 0;
    s.pitch_ranges = list((0..r.below(3)).map(|_| { let n = r.below(7); let actual = if n == 0 { 0 } else { 1 + r.below(n) }; SoundPitchRange { actual_permutation_count: r.below(4) as u16, permutations: list((0..n).map(|i| SoundPermutation {
        format: if mixed { f[r.below(3)] } else { main }, buffer_size: r.below(3) as u32 * 72,
        next_permutation_index: match r.below(12) { 0 => Some(0), 1 if split => Some(r.below(9) as u16), _ if split && i + actual < n => Some((i + actual) as u16), _ => None },
        samples: FileData { bytes: vec![0; if odd { r.below(80) } else { 72 * r.below(3) }], ..Default::default() }, ..Default::default() }).collect()), ..Default::default() } }).collect());
    s
}
fn healthy(s: &Sound) -> bool {
    let c = if s.channel_count == SoundChannelCount::Mono { 1 } else { 2 };
    s.pitch_ranges.items.iter().all(|p| p.permutations.items.iter().all(|x| x.format == s.format && x.buffer_size as usize == if s.format == SoundFormat::PCM { x.samples.bytes.len() } else { 0 }
        && match s.format { SoundFormat::PCM => x.samples.bytes.len() % (2 * c) == 0, SoundFormat::XboxADPCM => x.samples.bytes.len() % (36 * c) == 0, _ => true } && x.next_permutation_index != Some(0))
        && p.actual_permutation_count as usize == if s.flags.split_long_sound_into_permutations { p.permutations.items.iter().filter_map(|x| x.next_permutation_index).map(|n| n as usize).min().unwrap_or(usize::MAX).min(p.permutations.items.len()) } else { p.permutations.items.len() }
        && !p.permutations.items.is_empty())
        && (s.flags.split_long_sound_into_permutations || s.pitch_ranges.items.iter().all(|p| p.permutations.items.iter().all(|x| x.next_permutation_index.is_none())))
}
/// every chain of split permutations ends, inside the pitch range
fn chains_end(p: &SoundPitchRange) -> bool {
    let n = p.permutations.items.len();
    (0..p.actual_permutation_count as usize).all(|i| { let (mut at, mut k) = (i, 0); loop { if at >= n || k > n { return false } match p.permutations.items[at].next_permutation_index { Some(x) if x != 0 => { at = x as usize; k += 1 }, _ => return true } } })
}
fn mendable(s: &Sound) -> bool {
    let c = if s.channel_count == SoundChannelCount::Mono { 1 } else { 2 };
    let all: Vec<&SoundPermutation> = s.pitch_ranges.items.iter().flat_map(|p| &p.permutations.items).collect();
    all.iter().all(|x| match x.format { SoundFormat::PCM => x.samples.bytes.len() % (2 * c) == 0, SoundFormat::XboxADPCM => x.samples.bytes.len() % (36 * c) == 0, _ => true })
        && (all.iter().all(|x| x.format == s.format) || all.iter().all(|x| x.format == all[0].format))
}
fn utf16_ok(b: &[u8]) -> bool { b.len() % 2 == 0 && b.len() >= 2 && b[b.len() - 2..] == [0, 0] && char::decode_utf16(b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]]))).all(|c| c.is_ok()) }

contracts! {
    native bludgeon_any(iters 6000) "bludgeon_tag: in any tag of any group, NaN becomes 0 and colors are brought into range, nothing else changes; mending again changes nothing" {
        let l = layout();
        let seed = nd::u64();
        let g = &l.groups[nd::u64() as usize % l.groups.len()];
        let mut m = Maker::new(seed, 6000, Side::Tag);
        let mut v = m.struct_val(g.root);
        let chance = [3, 30, 100000][m.rng.below(3)];
        spoil(g.root, &mut v, &mut m.rng, chance);
        let v = read_struct(g.root, &v, Side::Tag);
        let mut t = parsed(g, &v);
        let gg = t.group();
        let r = bludgeon_tag(t.as_mut(), &path(gg));
        assert!(!nan_left(t.as_ref()), "{}: NaN is left", g.name);
        let mut want = v.clone();
        let damaged = mended(g.root, &mut want);
        cover!(damaged, "damaged tag");
        if !special(gg) {
            assert!(done(r), "{}: every other tag can be mended", g.name);
            if let Err(e) = same_struct(g.root, &want, t.as_dynamic(), &g.name) { panic!("mended differently: {e}") }
        } else if done(r) {
            let w = t.to_tag_file();
            let mut u = t.clone_inner();
            assert!(done(bludgeon_tag(u.as_mut(), &path(gg))), "{}: mended, but not twice", g.name);
            if let Ok(w) = w { assert!(u.to_tag_file().unwrap() == w, "{}: mending again changes the tag", g.name) }
        }
    }
    native bludgeon_sound(iters 30000) "bludgeon_tag on sounds: healthy sounds stay as they are, mendable ones come out healthy, others are refused; samples never change" {
        let mut r = Rng(nd::u64());
        let before = sound(&mut r);
        let mut s = before.clone();
        let ok = done(bludgeon_tag(&mut s, &path(TagGroup::Sound)));
        assert_eq!(ok, mendable(&before), "mended exactly when it can be");
        cover!(ok, "mended"); cover!(!ok, "beyond repair"); cover!(healthy(&before) && before.pitch_ranges.items.len() > 1, "healthy");
        if ok {
            for p in &s.pitch_ranges { if !p.permutations.items.is_empty() { for x in &p.permutations { assert!(x.next_permutation_index != Some(0) && x.format == s.format) } } }
            let mut t = s.clone();
            t.pitch_ranges.items.retain(|p| !p.permutations.items.is_empty());
            assert!(healthy(&t), "mended into a sound that is not healthy");
            let fine = s.pitch_ranges.items.iter().all(|p| !p.permutations.items.is_empty() && (!s.flags.split_long_sound_into_permutations || chains_end(p)));
            assert_eq!(ringhopper::tag::verify::sound_is_playable(&s), fine, "a mended sound is playable unless its permutations lead nowhere");
        }
        if healthy(&before) { assert!(ok && s.to_tag_file().unwrap() == before.to_tag_file().unwrap(), "a healthy sound was changed") }
        for (a, b) in s.pitch_ranges.items.iter().zip(&before.pitch_ranges.items) { for (a, b) in a.permutations.items.iter().zip(&b.permutations.items) { assert!(a.samples.bytes == b.samples.bytes && a.format == b.format && (a.next_permutation_index == b.next_permutation_index || b.next_permutation_index == Some(0))) } }
        if s.format == before.format && before.channel_count != s.channel_count { panic!("the channel count of raw sounds is not known better") }
        // what is reported
        let all = before.pitch_ranges.items.iter().all(|p| !p.permutations.items.is_empty() && (!before.flags.split_long_sound_into_permutations || chains_end(p)));
        assert_eq!(ringhopper::tag::verify::sound_is_playable(&before), healthy(&before) && all, "reported exactly when something is wrong");
    }
    native bludgeon_text(iters 30000) "bludgeon_tag on string lists: corrupted strings become well-formed, others stay; what could be read is kept" {
        let mut r = Rng(nd::u64());
        let g = group(TagGroup::UnicodeStringList);
        let Kind::List(e) = layout().structs[g.root].fields[0].kind else { panic!() };
        let texts: Vec<Vec<u8>> = (0..1 + r.below(4)).map(|_| {
            let mut b: Vec<u8> = (0..r.below(8)).flat_map(|_| [0x41u16, 0x42, 0xE9, 0x5B57, 0xD83D, 0xDC27, 0x0D, 0][if r.below(4) == 0 { r.below(8) } else { r.below(4) }].to_le_bytes()).collect();
            if r.below(4) != 0 { b.extend([0, 0]) }
            if r.below(8) == 0 { b.push(r.u8()) }
            b
        }).collect();
        let v = Val::Struct(vec![Val::List(texts.iter().map(|b| { let mut x = default_struct(e); let Val::Struct(f) = &mut x else { panic!() }; f[0] = Val::Bytes(b.clone()); x }).collect())]);
        let mut t = parsed(g, &v);
        assert!(done(bludgeon_tag(t.as_mut(), &path(TagGroup::UnicodeStringList))));
        let file = t.to_tag_file().unwrap();
        let n = |at: usize| u32::from_be_bytes(file[at..at + 4].try_into().unwrap()) as usize;
        assert_eq!(n(64), texts.len());
        let mut at = 76 + 20 * texts.len();
        for (i, b) in texts.iter().enumerate() {
            let a = &file[at..at + n(76 + 20 * i)];
            at += a.len();
            assert!(utf16_ok(a), "{b:?} was mended into {a:?}");
            if utf16_ok(b) && !b[..b.len() - 2].chunks(2).any(|c| c == [0, 0] || c == [0x0D, 0]) { cover!(true, "a healthy string"); assert_eq!(a, b, "a healthy string was changed") }
        }
        bludgeon_tag(t.as_mut(), &path(TagGroup::UnicodeStringList));
        assert!(t.to_tag_file().unwrap() == file, "mending again changes the tag");
    }
    native bludgeon_bsp(iters 20000) "bludgeon_tag on structure BSPs: normals become unit vectors and nothing else changes; data of the wrong size is refused" {
        let mut r = Rng(nd::u64());
        let mut t = ScenarioStructureBSP::default();
        let mut good = true;
        t.lightmaps = list((0..r.below(3)).map(|_| ScenarioStructureBSPLightmap { materials: list((0..r.below(3)).map(|_| {
            let mut m = ScenarioStructureBSPMaterial::default();
            let n = r.below(4);
            let k = match r.below(8) { 0 => r.below(4), 1 | 2 => 0, _ => n };
            m.rendered_vertices.vertex_count = n as u32;
            m.lightmap_vertices.vertex_count = k as u32;
            let bad = if r.below(8) == 0 { 1 + r.below(60) } else { 0 };
            let mut data = |r: &mut Rng, len: usize, _: usize| -> Vec<u8> { if r.below(4) == 0 { return vec![] } (0..len.saturating_add(bad) / 4 * 4 + (bad % 4)).map(|i| if i % 4 == 3 { [0x3F, 0xBF, 0x40, 0][r.below(4)] } else if i % 4 == 2 { [0x80, 0, 0x7F][r.below(3)] } else { 0 }).collect() };
            m.uncompressed_vertices.bytes = data(&mut r, 56 * n + 20 * k, 0);
            m.compressed_vertices.bytes = data(&mut r, 32 * n + 8 * k, 0);
            let (u, c) = (m.uncompressed_vertices.bytes.len(), m.compressed_vertices.bytes.len());
            good &= (k == 0 || k == n) && (u == 0 || u == 56 * n + 20 * k) && (c == 0 || c == 32 * n + 8 * k);
            m
        }).collect()), ..Default::default() }).collect());
        let before = t.clone();
        let ok = done(bludgeon_tag(&mut t, &path(TagGroup::ScenarioStructureBSP)));
        cover!(ok && !t.lightmaps.items.is_empty(), "mended"); cover!(!ok, "refused");
        assert_eq!(ok, good, "mended exactly when the data has the size it should have");
        for (a, b) in t.lightmaps.items.iter().zip(&before.lightmaps.items) { for (a, b) in a.materials.items.iter().zip(&b.materials.items) {
            assert!(a.compressed_vertices.bytes == b.compressed_vertices.bytes);
            let (x, y) = (&a.uncompressed_vertices.bytes, &b.uncompressed_vertices.bytes);
            assert_eq!(x.len(), y.len());
            if !ok { assert_eq!(x, y); continue }
            if y.is_empty() { continue }
            for i in 0..x.len() / 4 {
                let n = b.rendered_vertices.vertex_count as usize;
                let (v, o) = (i * 4 / 56, i * 4 % 56);
                if v < n && (12..24).contains(&o) { continue }
                assert_eq!(x[i * 4..i * 4 + 4], y[i * 4..i * 4 + 4], "data other than normals was changed");
            }
            for v in 0..b.rendered_vertices.vertex_count as usize {
                let f = |d: &[u8], i: usize| f32::from_le_bytes(d[v * 56 + 12 + 4 * i..][..4].try_into().unwrap()) as f64;
                let (p, q) = ([f(x, 0), f(x, 1), f(x, 2)], [f(y, 0), f(y, 1), f(y, 2)]);
                let m = |p: [f64; 3]| p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
                assert!(unit(m(p)), "{q:?} became {p:?}");
                if unit(m(q)) && (1.0 - m(q)).abs() < 1e-6 { assert_eq!(p, q) }
                if m(q) > 0.0 && m(q).is_finite() { for i in 0..3 { assert!((p[i] * m(q).sqrt() - q[i]).abs() <= 1e-3 * m(q).sqrt(), "{q:?} became {p:?}") } }
            }
        } }
    }
    native bludgeon_model(iters 20000) "bludgeon_tag on models: rotations become unit quaternions pointing the same way, vertices that name missing nodes do not crash" {
        let mut r = Rng(nd::u64());
        let q = |r: &mut Rng| { let mut n = || [0.0, 1.0, 0.5, -3.0, 1e30, 1e-30, f64::INFINITY, f64::NAN][if r.below(8) == 0 { r.below(8) } else { r.below(4) }]; Quaternion { x: n(), y: n(), z: n(), w: n() } };
        let mut m = GBXModel::default();
        let nodes = [0, 1, 3, 42, 43][r.below(5)];
        m.nodes = list((0..nodes).map(|_| ModelNode { default_rotation: q(&mut r), ..Default::default() }).collect());
        m.regions = list((0..r.below(2)).map(|_| ModelRegion { permutations: list(vec![ModelRegionPermutation { markers: list((0..r.below(3)).map(|_| ModelRegionPermutationMarker { rotation: q(&mut r), ..Default::default() }).collect()), ..Default::default() }]), ..Default::default() }).collect());
        let part = |r: &mut Rng| { let mut p = GBXModelGeometryPart::default(); let bad = r.below(4) == 0;
            let mut idx = |r: &mut Rng| if bad && r.below(2) == 0 { Some([nodes, 127, 60000][r.below(3)] as u16) } else if nodes == 0 { None } else { Some(r.below(nodes) as u16) };
            p.model_geometry_part.uncompressed_vertices = list((0..r.below(3)).map(|_| ModelVertexUncompressed { node0_index: idx(r), node1_index: idx(r), node0_weight: 1.0, ..Default::default() }).collect()); p };
        m.geometries = list((0..r.below(3)).map(|_| GBXModelGeometry { parts: list(vec![part(&mut r)]), ..Default::default() }).collect());
        let before = m.clone();
        assert!(done(bludgeon_tag(&mut m, &path(TagGroup::GBXModel))));
        let same = |a: &Quaternion, b: &Quaternion| {
            assert!(unit(q2(a)), "{b:?} became {a:?}");
            let z = |x: f64| if x.is_nan() { 0.0 } else { x };
            let b = Quaternion { x: z(b.x), y: z(b.y), z: z(b.z), w: z(b.w) };
            let n = q2(&b).sqrt();
            if n > 0.0 && n.is_finite() { for (x, y) in [(a.x, b.x), (a.y, b.y), (a.z, b.z), (a.w, b.w)] { assert!((x * n - y).abs() <= 1e-3 * n, "{b:?} became {a:?}") } }
        };
        for (a, b) in m.nodes.items.iter().zip(&before.nodes.items) { same(&a.default_rotation, &b.default_rotation) }
        for (a, b) in m.regions.items.iter().zip(&before.regions.items) { for (a, b) in a.permutations.items.iter().zip(&b.permutations.items) { for (a, b) in a.markers.items.iter().zip(&b.markers.items) { same(&a.rotation, &b.rotation) } } }
        for (a, b) in m.geometries.items.iter().zip(&before.geometries.items) { for (a, b) in a.parts.items.iter().zip(&b.parts.items) { let (a, b) = (&a.model_geometry_part.uncompressed_vertices.items, &b.model_geometry_part.uncompressed_vertices.items); assert!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.node0_index == b.node0_index && a.node1_index == b.node1_index)) } }
    }
    native verify_trees(iters 250) "verify: over any tree of tags, with any number of threads, it ends with a verdict for exactly the tags of the map, the same for every number of threads, and no damaged tag passes" {
        let mut r = Rng(nd::u64());
        let wild = r.below(4) != 0;
        check_tree(&mut r, wild);
    }
}
