//! P19: dependencies are exactly the references a tag holds, directly, recursively and in reverse; refactoring rewrites
//! exactly the references it names and moves exactly the tags it selects, or nothing.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use ringhopper_primitives::dynamic::DynamicTagData;
use ringhopper_primitives::error::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};

fn short(g: &Group) -> TagGroup { TagGroup::from_fourcc(g.code).unwrap() }
fn groups_of(names: &[String]) -> HashSet<TagGroup> { names.iter().map(|n| TagGroup::from_fourcc(layout().codes.iter().find(|c| c.1 == *n).unwrap().2).unwrap()).collect() }
/// every structure a structure holds, itself included
fn inside(s: usize, out: &mut BTreeSet<usize>) {
    if !out.insert(s) { return }
    for f in &layout().structs[s].fields { match f.kind { Kind::Struct(q) | Kind::List(q) => inside(q, out), _ => () } }
}
fn referenceable(g: &Group) -> HashSet<TagGroup> {
    let mut all = BTreeSet::new();
    inside(g.root, &mut all);
    all.iter().flat_map(|s| layout().structs[*s].fields.iter().filter(|f| f.kind == Kind::Ref)).flat_map(|f| groups_of(&f.groups)).collect()
}
/// references in a specified value, in order; with whether a read-only field leads to it and what it may refer to
fn refs(s: usize, v: &Val, locked: bool, out: &mut Vec<(u32, Vec<u8>, bool, Vec<String>)>) {
    let Val::Struct(v) = v else { panic!() };
    for (f, v) in layout().structs[s].fields.iter().zip(v) {
        if f.kind == Kind::Pad || f.exclude { continue }
        let locked = locked || f.readonly;
        match (f.kind, v) {
            (Kind::Ref, Val::Ref(g, p)) => out.push((*g, p.clone(), locked, f.groups.clone())),
            (Kind::Struct(q), v) => refs(q, v, locked, out),
            (Kind::List(q), Val::List(i)) => for v in i { refs(q, v, locked, out) },
            _ => ()
        }
    }
}
/// the same references in the tag itself
fn held(s: usize, d: &dyn DynamicTagData, out: &mut Vec<TagReference>) {
    for f in &layout().structs[s].fields {
        if f.kind == Kind::Pad || f.exclude { continue }
        let x = d.get_field(&f.matcher).unwrap();
        match f.kind {
            Kind::Ref => out.push(x.as_any().downcast_ref::<TagReference>().unwrap().clone()),
            Kind::Struct(q) => held(q, x, out),
            Kind::List(q) => { let a = x.as_array().unwrap(); for i in 0..a.len() { held(q, a.get_at_index(i).unwrap(), out) } },
            _ => ()
        }
    }
}
fn made(g: &Group, m: &mut Maker) -> (Box<dyn PrimaryTagStructDyn>, Val) {
    let v = m.struct_val(g.root);
    let (mut body, tail) = tag_struct(g.root, &v, &mut None);
    body.extend(tail);
    let mut file = tag_header(g, crc(&body));
    file.extend(&body);
    (read_any_tag_from_file_buffer(&file, ParseStrictness::Strict).expect("a well-formed tag"), read_struct(g.root, &v, Side::Tag))
}
fn blank(g: TagGroup) -> Box<dyn PrimaryTagStructDyn> {
    let g = layout().groups.iter().find(|x| x.code == code_of(g)).unwrap();
    let (mut body, tail) = tag_struct(g.root, &default_struct(g.root), &mut None);
    body.extend(tail);
    let mut file = tag_header(g, crc(&body));
    file.extend(&body);
    read_any_tag_from_file_buffer(&file, ParseStrictness::Strict).unwrap()
}

/// A tree in memory, some of whose tags cannot be opened.
#[derive(Default)]
struct Memory { items: HashMap<TagPath, Option<Box<dyn PrimaryTagStructDyn>>> }
impl TagTree for Memory {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { match self.items.get(p) { Some(Some(t)) => Ok(t.clone_inner()), Some(None) => Err(Error::FailedToReadTag(p.clone(), vec![])), None => Err(Error::TagNotFound(p.clone())) } }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
        if !path.is_empty() { return None }
        Some(self.items.keys().map(|p| TagTreeItem::new(TagTreeItemType::Tag, Cow::Owned(p.path().to_owned()), Some(p.group()), self)).collect())
    }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { panic!("nothing is written") }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.items.contains_key(p) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { iterate_through_all_tags(self, f).collect() }
}
type Graph = BTreeMap<TagPath, Vec<TagReference>>;
fn node(g: TagGroup, refs: &[TagReference]) -> Box<dyn PrimaryTagStructDyn> {
    match g {
        TagGroup::TagCollection => { let mut t = TagCollection::default(); for r in refs { let mut x = TagCollectionTag::default(); x.reference = r.clone(); t.tags.items.push(x) } Box::new(t) },
        TagGroup::Sound => { let mut t = Sound::default(); t.promotion_sound = refs[0].clone(); Box::new(t) },
        _ => Box::new(PointPhysics::default())
    }
}
fn graph(r: &mut Rng, names: &[&str]) -> Graph {
    let groups = [TagGroup::TagCollection, TagGroup::TagCollection, TagGroup::Sound, TagGroup::PointPhysics];
    let mut all: Vec<TagPath> = vec![];
    for _ in 0..1 + r.below(12) { all.push(TagPath::new(names[r.below(names.len())], groups[r.below(4)]).unwrap()) }
    let mut g = Graph::new();
    for p in &all {
        let any = |r: &mut Rng| if r.below(6) == 0 { TagPath::new(names[r.below(names.len())], groups[r.below(4)]).unwrap() } else { all[r.below(all.len())].clone() };
        let refs = match p.group() {
            TagGroup::TagCollection => (0..r.below(5)).map(|_| if r.below(5) == 0 { TagReference::Null(groups[r.below(4)]) } else { TagReference::Set(any(r)) }).collect(),
            TagGroup::Sound => { let mut q = any(r); q.set_group(TagGroup::Sound); vec![if r.below(3) == 0 { TagReference::Null(TagGroup::Sound) } else { TagReference::Set(q) }] },
            _ => vec![]
        };
        g.insert(p.clone(), refs);
    }
    g
}
fn direct(r: &[TagReference]) -> HashSet<TagPath> { r.iter().filter_map(|r| match r { TagReference::Set(p) => Some(p.clone()), _ => None }).collect() }
/// existing tags reachable from one, and whether something on the way does not exist
fn reach(g: &Graph, from: &TagPath) -> (HashSet<TagPath>, bool) {
    let mut seen = HashSet::new();
    let mut broken = false;
    let mut todo = vec![from.clone()];
    while let Some(p) = todo.pop() { match g.get(&p) { Some(r) => if seen.insert(p) { todo.extend(direct(r)) }, None => broken = true } }
    (seen, broken)
}
const NAMES: [&str; 8] = ["a", "b", "c", "x\\a", "x\\b", "x\\y\\a", "é\\b", "a b"];

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn file(root: &Path, p: &TagPath) -> PathBuf { root.join(format!("{}.{}", p.path().replace('\\', "/"), p.group().as_str())) }
fn disk(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut stack = vec![root.to_owned()];
    while let Some(d) = stack.pop() { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { stack.push(p) } else { out.insert(p.clone(), std::fs::read(&p).unwrap()); } } }
    out
}

contracts! {
    native hints(iters 1) "get_all_referenceable_tag_groups_for_group and group_has_default_in_definitions: for every group, exactly what its definition says" {
        for g in &layout().groups {
            let got: HashSet<TagGroup> = get_all_referenceable_tag_groups_for_group(short(g)).iter().copied().collect();
            assert!(got == referenceable(g), "{}: groups it can refer to", g.name);
            let mut all = BTreeSet::new();
            inside(g.root, &mut all);
            let d = all.iter().any(|s| layout().structs[*s].fields.iter().any(|f| f.default.is_some()));
            assert_eq!(group_has_default_in_definitions(short(g)), d, "{}: has defaults", g.name);
        }
    }
    native one_tag(iters 2500) "get_tag_dependencies_for_block, for_each_dependency: exactly the references set in a tag of any group, each reference visited once in order" {
        let l = layout();
        let seed = nd::u64();
        let mut m = Maker::new(seed, 4000, Side::Tag);
        let g = &l.groups[m.rng.below(l.groups.len())];
        let (t, v) = made(g, &mut m);
        let mut want = vec![];
        refs(g.root, &v, false, &mut want);
        cover!(want.len() > 3, "several references");
        let set: HashSet<(u32, Vec<u8>)> = want.iter().filter(|r| !r.1.is_empty()).map(|r| (r.0, r.1.clone())).collect();
        let got: HashSet<(u32, Vec<u8>)> = get_tag_dependencies_for_block(t.as_dynamic()).iter().map(|p| (code_of(p.group()), p.path().as_bytes().to_vec())).collect();
        assert!(got == set, "{}: dependencies {got:?}, references {set:?}", g.name);
        let mut seen = vec![];
        for_each_dependency(t.as_dynamic(), |r| seen.push(r.clone()));
        let mut h = vec![];
        held(g.root, t.as_dynamic(), &mut h);
        assert!(seen == h && h.len() == want.len(), "{}: references visited", g.name);
    }
    native regroup(iters 2500) "refactor_groups_for_block: exactly the references of one group that may refer to the other, null or present in the tree, change group; read-only fields only when asked" {
        let l = layout();
        let mut m = Maker::new(nd::u64(), 4000, Side::Tag);
        let g = &l.groups[m.rng.below(l.groups.len())];
        let pairs = [("Model", "GBXModel"), ("Scenery", "Object"), ("Shader", "ShaderModel"), ("Weapon", "Item"), ("Sound", "SoundLooping"), ("Bitmap", "Bitmap"), ("Unit", "Biped")];
        let (a, b) = pairs[m.rng.below(pairs.len())];
        let code = |n: &str| l.codes.iter().find(|c| c.1 == n).unwrap().2;
        let (a, b) = (code(a), code(b));
        for p in &mut m.paths { if p.1.len() % 3 != 0 { p.0 = a } }
        let (mut t, v) = made(g, &mut m);
        let mut want = vec![];
        refs(g.root, &v, false, &mut want);
        let mut h = vec![];
        held(g.root, t.as_dynamic(), &mut h);
        // make most null references of the first group, too
        let mut tree = Memory::default();
        let to = TagGroup::from_fourcc(b).unwrap();
        for p in &m.paths { if m.rng.0 % 2 == p.1.len() as u64 % 2 { tree.items.insert(TagPath::new(std::str::from_utf8(&p.1).unwrap(), to).unwrap(), None); } }
        let locked = m.rng.below(2) == 0;
        let mut any = false;
        let after: Vec<TagReference> = want.iter().zip(&h).map(|(w, h)| {
            let ok = w.0 == a && groups_of(&w.3).contains(&to) && (locked || !w.2) && (w.1.is_empty() || tree.contains(&TagPath::new(std::str::from_utf8(&w.1).unwrap(), to).unwrap()));
            if !ok { return h.clone() }
            any = true;
            match h { TagReference::Null(_) => TagReference::Null(to), TagReference::Set(p) => TagReference::Set(TagPath::new(p.path(), to).unwrap()) }
        }).collect();
        let r = refactor_groups_for_block(t.as_mut_dynamic(), TagGroup::from_fourcc(a).unwrap(), to, &tree, locked);
        let mut got = vec![];
        held(g.root, t.as_dynamic(), &mut got);
        assert!(got == after, "{}: references after refactoring: {got:?}, expected {after:?}", g.name);
        assert_eq!(r, any, "whether anything changed");
        cover!(any, "changed");
    }
    native closure(iters 6000) "recursively_get_dependencies_for_tag and get_reverse_dependencies_for_tag: exactly the tags reachable, and exactly the tags that refer; missing tags are errors that name them unless allowed" {
        let mut r = Rng(nd::u64());
        let g = graph(&mut r, &NAMES);
        let mut tree = Memory::default();
        for (p, refs) in &g { tree.items.insert(p.clone(), Some(node(p.group(), refs))); }
        let keys: Vec<TagPath> = g.keys().cloned().collect();
        let root = if r.below(8) == 0 { TagPath::new("a", TagGroup::TagCollection).unwrap() } else { keys[r.below(keys.len())].clone() };
        let (want, broken) = reach(&g, &root);
        cover!(broken, "a missing tag");
        cover!(want.len() > 3 && !broken, "several tags");
        let check = |m: HashMap<TagPath, HashSet<TagPath>>| { let k: HashSet<TagPath> = m.keys().cloned().collect(); assert!(k == want, "{root}: reached {k:?}, expected {want:?}"); for (p, d) in m { assert!(d == direct(&g[&p]), "{p}: direct dependencies") } };
        check(recursively_get_dependencies_for_tag(&root, &tree, true).expect("broken dependencies are allowed"));
        match recursively_get_dependencies_for_tag(&root, &tree, false) {
            Ok(m) => { assert!(!broken, "a missing tag went unnoticed"); check(m) },
            Err(Error::BrokenDependency(by, what)) => assert!(want.contains(&by) && direct(&g[&by]).contains(&what) && !g.contains_key(&what), "{by} -> {what}"),
            Err(Error::TagNotFound(p)) => assert!(p == root && !g.contains_key(&root)),
            Err(e) => panic!("{e}")
        }
        // reverse
        let to = TagPath::new(NAMES[r.below(8)], [TagGroup::TagCollection, TagGroup::Sound, TagGroup::PointPhysics][r.below(3)]).unwrap();
        let want: HashSet<TagPath> = g.iter().filter(|(_, d)| direct(d).contains(&to)).map(|x| x.0.clone()).collect();
        assert!(get_reverse_dependencies_for_tag(&to, &tree).expect("every tag opens") == want, "{to}: tags that refer to it");
        // a tag that cannot be opened is an error or allowed, never a panic
        let bad = keys[r.below(keys.len())].clone();
        tree.items.insert(bad.clone(), None);
        let res = get_reverse_dependencies_for_tag(&to, &tree);
        if bad.group() == TagGroup::TagCollection { assert!(matches!(res, Err(Error::FailedToReadTag(p, _)) if p == bad)) }
        let _ = recursively_get_dependencies_for_tag(&root, &tree, false);
        let _ = recursively_get_dependencies_for_tag(&root, &tree, true);
    }
    native whole_map(iters 300) "recursively_get_dependencies_for_map: the scenario, its dependencies, and the required tags of the engine and scenario type with theirs" {
        let mut r = Rng(nd::u64());
        let e = &ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())];
        let kind = r.below(3);
        let mut g = graph(&mut r, &NAMES);
        let keys: Vec<TagPath> = g.keys().cloned().collect();
        let missing: BTreeSet<TagPath> = g.values().flat_map(|d| direct(d)).filter(|p| !g.contains_key(p)).collect();
        for p in missing { g.insert(p.clone(), if p.group() == TagGroup::Sound { vec![TagReference::Null(TagGroup::Sound)] } else { vec![] }); }
        let mut tree = Memory::default();
        for (p, refs) in &g { tree.items.insert(p.clone(), Some(node(p.group(), refs))); }
        let scenario = TagPath::new("levels\\s\\s", TagGroup::Scenario).unwrap();
        let child = TagPath::new("sky", TagGroup::Sky).unwrap();
        let mut s = Scenario::default();
        s._type = [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface][kind];
        let mut k = ScenarioSky::default(); k.sky = TagReference::Set(child.clone()); s.skies.items.push(k);
        tree.items.insert(scenario.clone(), Some(Box::new(s)));
        tree.items.insert(child.clone(), Some(blank(TagGroup::Sky)));
        let mut want: HashSet<TagPath> = [scenario.clone(), child].into();
        let q = &e.required_tags;
        let other = [q.singleplayer, q.multiplayer, q.user_interface][kind];
        let mut hook = Some(keys[r.below(keys.len())].clone());
        for t in q.all.iter().chain(other) {
            let p = TagPath::from_path(t).expect("a required tag");
            want.insert(p.clone());
            if p.group() == TagGroup::TagCollection { if let Some(h) = hook.take() { want.extend(reach(&g, &h).0); tree.items.insert(p.clone(), Some(node(p.group(), &[TagReference::Set(h)]))); continue } }
            if !tree.contains(&p) { tree.items.insert(p.clone(), Some(blank(p.group()))); }
        }
        cover!(want.len() > 5, "required tags");
        let cached = CachingTagTree::new(tree, CachingTagTreeWriteStrategy::Manual);
        assert!(recursively_get_dependencies_for_map(&scenario, &cached, e).expect("all tags exist") == want, "{} {kind}", e.name);
        let mut tree = cached.into_inner();
        let mut w: Vec<TagPath> = want.into_iter().collect(); w.sort();
        let gone = w[r.below(w.len())].clone();
        tree.items.remove(&gone);
        assert!(recursively_get_dependencies_for_map(&scenario, &tree, e).is_err(), "{gone} is missing");
    }
    native moves(iters 5000) "refactor_paths_for_tag_tree: exactly the selected tags move, every reference to them follows, nothing else changes; when it cannot be done no tag moves" {
        let mut r = Rng(nd::u64());
        let s = Scratch(crate::memory::scratch());
        let dirs: Vec<PathBuf> = (0..1 + r.below(2)).map(|i| s.0.join(format!("t{i}"))).collect();
        for d in &dirs { std::fs::create_dir_all(d).unwrap() }
        // half of the time names that easily collide when parts of them are replaced
        let close: Vec<String> = (0..7).map(|_| loop { let t: String = (0..1 + r.below(5)).map(|_| ['a', 'a', 'b', 'x', '\\'][r.below(5)]).collect(); if !t.starts_with('\\') && !t.contains("\\\\") && !t.ends_with('\\') { break t } }).collect();
        let close: Vec<&str> = if r.below(2) == 0 { NAMES.to_vec() } else { close.iter().map(|x| &x[..]).collect() };
        let g = graph(&mut r, &close);
        let mut home = BTreeMap::new();
        for (p, refs) in &g { let d = r.below(dirs.len()); home.insert(p.clone(), d); let f = file(&dirs[d], p); std::fs::create_dir_all(f.parent().unwrap()).unwrap(); std::fs::write(f, node(p.group(), refs).to_tag_file().unwrap()).unwrap() }
        // a tag that cannot be read
        let bad = if r.below(6) == 0 { let p = TagPath::new("damaged", TagGroup::TagCollection).unwrap(); std::fs::write(file(&dirs[0], &p), b"damaged").unwrap(); Some(p) } else { None };
        let froms = ["a", "b", "x\\", "x/", "x\\y", "c", "é", "nothing", "x\\a", "q", "aa", "ab"];
        let tos = ["z", "b", "x\\", "w/", "a", "k\\m\\", "con", "é", "a.point_physics\\", "", "bb", "x\\y"];
        let start = r.below(2) == 0;
        let no_move = r.below(4) == 0;
        let keys: Vec<&TagPath> = g.keys().collect();
        let (one, two) = (keys[r.below(keys.len())].path(), keys[r.below(keys.len())].path());
        let (i, j) = (r.below(one.chars().count()), r.below(one.chars().count()));
        let part: String = one.chars().skip(i.min(j)).take(1 + i.max(j) - i.min(j)).collect();
        let (from, to) = match r.below(8) { 0 | 1 => (&part[..], ["", "", "a", "b", "x"][r.below(5)]), 2 => (one, two), 3 if no_move => (one, two), _ => (froms[r.below(froms.len())], tos[r.below(tos.len())]) };
        let f = ["*", "*", "x\\*", "*.sound", "?.*"][r.below(5)];
        let threads = NonZeroUsize::new(1 + r.below(4)).unwrap();
        let before = disk(&s.0);
        let tree = VirtualTagsDirectory::new(&dirs, None).unwrap();
        let (from0, to0) = (from.replace('/', "\\"), to.replace('/', "\\"));
        let filter = TagFilter::new(f, None);
        // what is to happen
        let mut plan: BTreeMap<TagPath, TagPath> = BTreeMap::new();
        let mut possible = true;
        for p in g.keys().chain(&bad) {
            if !filter.passes(p) || !(if start { p.path().starts_with(&from0) } else { p.path().contains(&from0) }) { continue }
            let q = if start { format!("{to0}{}", &p.path()[from0.len()..]) } else { p.path().replace(&from0, &to0) };
            match TagPath::new(&q, p.group()) { Ok(q) => {
                let there = g.contains_key(&q) || bad.as_ref() == Some(&q);
                if no_move != there || !no_move && plan.values().any(|x| *x == q) { possible = false }
                plan.insert(p.clone(), q);
            }, Err(_) => possible = false }
        }
        if plan.is_empty() { possible = false }
        let got = refactor_paths_for_tag_tree(from, to, &tree, threads, if start { ReplaceType::Start } else { ReplaceType::All }, no_move, &filter);
        let after = disk(&s.0);
        if from0 == to0 { assert!(matches!(&got, Ok((v, _)) if v.is_empty()) && after == before, "nothing to do"); return }
        let what = format!("{from:?} -> {to:?}, start {start}, no move {no_move}, filter {f:?}");
        match got {
            Err((e, _)) => {
                // a folder of the new path can be taken by a file
                let blocked = !no_move && plan.values().any(|q| { let t = q.path(); (1..t.len()).any(|i| t.as_bytes()[i] == b'\\' && before.keys().any(|k| dirs.iter().any(|d| *k == d.join(t[..i].replace('\\', "/")))) ) });
                assert!(!possible || blocked, "{what}: refused: {e}");
                assert!(after == before, "{what}: refused, but something moved or changed: {:?}", after.keys().filter(|k| !before.contains_key(*k)).collect::<Vec<_>>());
                cover!(possible, "undone");
                cover!(!possible, "refused");
            },
            Ok((list, results)) => {
                assert!(possible, "{what}: done, although it cannot be");
                assert!(list.iter().cloned().collect::<BTreeMap<_, _>>() == plan && list.len() == plan.len(), "{what}: {list:?}, expected {plan:?}");
                let mut want = BTreeMap::new();
                for (p, refs) in &g {
                    let refs: Vec<TagReference> = refs.iter().map(|r| match r { TagReference::Set(p) => TagReference::Set(plan.get(p).unwrap_or(p).clone()), r => r.clone() }).collect();
                    let at = if no_move { p } else { plan.get(p).unwrap_or(p) };
                    want.insert(file(&dirs[home[p]], at), node(p.group(), &refs).to_tag_file().unwrap());
                }
                if let Some(b) = &bad { let at = if no_move { b } else { plan.get(b).unwrap_or(b) }; want.insert(file(&dirs[0], at), b"damaged".to_vec()); assert!(results.get(at).is_some_and(|r| !r.errors.is_empty()), "{what}: the damaged tag is reported"); cover!(true, "a damaged tag"); }
                assert!(after == want, "{what}: files differ: {:?}", after.iter().filter(|(k, v)| want.get(*k) != Some(v)).map(|x| x.0).chain(want.keys().filter(|k| !after.contains_key(*k))).collect::<Vec<_>>());
                cover!(plan.len() > 1 && !no_move, "several tags moved");
                cover!(no_move && g.values().flatten().any(|x| x.path().is_some_and(|p| plan.contains_key(p))), "references only");
            }
        }
    }
}
