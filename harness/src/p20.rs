//! P20: filters select exactly the tags their pattern describes, and tag trees list, open and write exactly the tags
//! that are in them.
use crate::{cover, nd, spec::*, Contract};
use ringhopper::tag::tree::*;
use ringhopper_primitives::error::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::{Fog, Physics, PointPhysics};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// Specification: `*` stands for any text, `?` for any one character, anything else for itself.
fn glob(f: &[char], w: &[char]) -> bool {
    let mut row = vec![false; w.len() + 1];
    row[0] = true;
    for c in f {
        let mut next = vec![false; w.len() + 1];
        next[0] = row[0] && *c == '*';
        for j in 1..=w.len() { next[j] = if *c == '*' { row[j] || next[j - 1] } else { row[j - 1] && (*c == '?' || *c == w[j - 1]) } }
        row = next;
    }
    row[w.len()]
}
fn matches(f: &str, w: &str) -> bool { glob(&f.chars().collect::<Vec<_>>(), &w.chars().collect::<Vec<_>>()) }
fn fixed(f: &str) -> String { f.chars().map(|c| if c == '/' { '\\' } else { c }).collect() }
fn stem<'a>(f: &'a str, g: TagGroup) -> &'a str { f.strip_suffix(&format!(".{}", g.as_str())).unwrap_or(f) }

fn piece() -> &'static str { ["a", "b", "a", "b", "\\", "é", "字", "🐧", " ", ".", "bitmap", ".bitmap", "weapon"][nd::below(13)] }
fn filter_text() -> String { (0..nd::below(8)).map(|_| match nd::below(9) { 0 | 1 | 2 => "*", 3 | 4 => "?", 5 => "/", _ => piece() }).collect() }
fn path_text() -> String { loop { let t: String = (0..nd::below(7)).map(|_| piece()).collect(); if let Ok(p) = TagPath::new(&t, TagGroup::Bitmap) { return p.path().to_owned() } } }
const GROUPS: [TagGroup; 3] = [TagGroup::Fog, TagGroup::Physics, TagGroup::PointPhysics];

// ---- tags and trees

fn tag(g: TagGroup, v: u32) -> Box<dyn PrimaryTagStructDyn> {
    match g {
        TagGroup::Fog => { let mut t = Fog::default(); t.distance_to_water_plane = v as f64; Box::new(t) },
        TagGroup::Physics => { let mut t = Physics::default(); t.radius = v as f64; Box::new(t) },
        _ => { let mut t = PointPhysics::default(); t.density = v as f64; Box::new(t) }
    }
}
fn value(t: &dyn PrimaryTagStructDyn) -> (TagGroup, u32) {
    let a = t.as_any();
    (t.group(), if let Some(t) = a.downcast_ref::<Fog>() { t.distance_to_water_plane as u32 } else if let Some(t) = a.downcast_ref::<Physics>() { t.radius as u32 } else { a.downcast_ref::<PointPhysics>().expect("a tag of this test").density as u32 })
}
fn change(t: &mut dyn PrimaryTagStructDyn, v: u32) {
    let a = t.as_any_mut();
    if let Some(t) = a.downcast_mut::<Fog>() { t.distance_to_water_plane = v as f64 } else if let Some(t) = a.downcast_mut::<Physics>() { t.radius = v as f64 } else { a.downcast_mut::<PointPhysics>().unwrap().density = v as f64 }
}
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
const NAMES: [&str; 9] = ["a", "b", "levels/a/b", "levels/a/c", "levels/b", "x y/a.b", "é/字", "levels/🐧/b", "a.dir/b"];
fn name(r: &mut Rng) -> TagPath { TagPath::new(NAMES[r.below(NAMES.len())], GROUPS[r.below(3)]).unwrap() }
fn file(root: &Path, p: &TagPath) -> PathBuf { root.join(format!("{}.{}", p.path().replace('\\', "/"), p.group().as_str())) }
fn disk(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut stack = vec![root.to_owned()];
    while let Some(d) = stack.pop() { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { stack.push(p) } else { out.insert(p.clone(), std::fs::read(&p).unwrap()); } } }
    out
}
fn put_file(p: &Path, d: &[u8]) { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, d).unwrap() }

type Model = BTreeMap<TagPath, u32>;
struct World { _scratch: Scratch, dirs: Vec<PathBuf>, model: Vec<Model>, noise: usize }
fn world(r: &mut Rng, folders: bool) -> World {
    let s = Scratch(crate::memory::scratch());
    let k = 1 + r.below(3);
    let dirs: Vec<PathBuf> = (0..k).map(|i| s.0.join(format!("tags{i}"))).collect();
    let mut model = vec![];
    let mut noise = 0;
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
        let mut m = Model::new();
        for _ in 0..r.below(12) { let p = name(r); let v = r.below(3) as u32; put_file(&file(d, &p), &tag(p.group(), v).to_tag_file().unwrap()); m.insert(p, v); }
        // files that are no tags
        if r.below(2) == 0 { for x in ["readme.txt", "fog", "levels/con.fog", "levels/c:d.physics", "levels/a/x*.fog", "levels/none.", "a.fog.bak"] { if r.below(3) == 0 { noise += 1; put_file(&d.join(x), b"junk") } } }
        if r.below(4) == 0 { std::fs::create_dir_all(d.join("empty/inside")).unwrap() }
        // folders named like tags
        if folders && r.below(2) == 0 { let p = name(r); if !m.contains_key(&p) { std::fs::create_dir_all(file(d, &p)).unwrap() } }
        model.push(m);
    }
    World { _scratch: s, dirs, model, noise }
}
impl World {
    fn tree(&self, cow: Option<PathBuf>) -> VirtualTagsDirectory { VirtualTagsDirectory::new(&self.dirs, cow).unwrap() }
    fn find(&self, p: &TagPath) -> Option<(usize, u32)> { self.model.iter().enumerate().find_map(|(i, m)| m.get(p).map(|v| (i, *v))) }
    fn all(&self) -> BTreeSet<TagPath> { self.model.iter().flat_map(|m| m.keys().cloned()).collect() }
}
fn same_listing(got: Vec<TagPath>, want: &BTreeSet<TagPath>, what: &str) {
    let mut g = got; g.sort();
    let w: Vec<TagPath> = { let mut w: Vec<_> = want.iter().cloned().collect(); w.sort(); w };
    assert!(g == w, "{what}: listed {:?}, there are {:?}", g.iter().map(|p| p.to_string()).collect::<Vec<_>>(), w.iter().map(|p| p.to_string()).collect::<Vec<_>>());
}

/// A tree in memory.
#[derive(Default)]
struct Memory { items: Model, writes: usize, opens: Mutex<usize> }
impl TagTree for Memory {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { *self.opens.lock().unwrap() += 1; match self.items.get(p) { Some(v) => Ok(tag(p.group(), *v)), None => Err(Error::TagNotFound(p.clone())) } }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
        if !path.is_empty() { return None }
        Some(self.items.keys().map(|p| TagTreeItem::new(TagTreeItemType::Tag, Cow::Owned(p.path().to_owned()), Some(p.group()), self)).collect())
    }
    fn write_tag(&mut self, p: &TagPath, t: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { self.writes += 1; let (g, v) = value(t); if g != p.group() { return Err(Error::InvalidTagPath) } Ok(self.items.insert(p.clone(), v) != Some(v)) }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, p: &TagPath) -> bool { self.items.contains_key(p) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { iterate_through_all_tags(self, f).collect() }
}

contracts! {
    native filter_small(iters 60000) "TagFilter::passes: short patterns over a, b, * and ? against short texts, with and without a group" {
        let f: String = (0..nd::below(6)).map(|_| ['a', 'b', '*', '?', 'é'][nd::below(5)]).collect();
        let filter = TagFilter::new(&f, Some(TagGroup::Bitmap));
        let whole = TagFilter::new(&format!("{f}.bitmap"), None);
        for n in 0..4usize { for k in 0..3usize.pow(n as u32) {
            let t: String = (0..n).map(|i| ['a', 'b', 'é'][k / 3usize.pow(i as u32) % 3]).collect();
            let want = matches(&f, &t);
            let p = TagPath::new(&t, TagGroup::Bitmap).unwrap();
            assert_eq!(filter.passes(&p), want, "{f:?} on {t:?}");
            assert_eq!(whole.passes(&p), want, "{f:?}.bitmap on {t:?}.bitmap");
            assert!(!filter.passes(&TagPath::new(&t, TagGroup::Model).unwrap()), "another group");
        } }
    }
    native filter(iters 200000) "TagFilter: passes, reference_matches and group of arbitrary patterns, paths, groups and references; native separators and one expected extension are normalised" {
        let f = filter_text();
        let p = path_text();
        let gs = [TagGroup::Bitmap, TagGroup::Weapon, TagGroup::Model];
        let g = gs[nd::below(3)];
        let path = TagPath::new(&p, g).unwrap();
        let want = if nd::bool() {
            let fg = gs[nd::below(3)];
            let filter = TagFilter::new(&f, Some(fg));
            let s = fixed(stem(&f, fg));
            assert!(filter.group() == Some(fg));
            for n in gs { assert_eq!(filter.reference_matches(&TagReference::Null(n)), n == fg && matches(&s, ""), "{f:?} on a null reference"); }
            let w = g == fg && matches(&s, &p);
            assert_eq!(filter.passes(&path), w, "{f:?} on {p:?}");
            assert_eq!(filter.reference_matches(&TagReference::Set(path.clone())), w);
            assert_eq!(filter.clone().passes(&path), w);
            w
        } else {
            let filter = TagFilter::new(&f, None);
            assert!(filter.group().is_none());
            let w = matches(&fixed(&f), &format!("{p}.{}", g.as_str()));
            assert_eq!(filter.passes(&path), w, "{f:?} on {path}");
            for n in gs { assert_eq!(filter.reference_matches(&TagReference::Null(n)), matches(&fixed(&f), ""), "{f:?} on a null reference"); }
            w
        };
        cover!(want, "a match");
        cover!(!want, "no match");
        assert_eq!(TagFilter::is_filter(&f), f.contains('*') || f.contains('?'));
        for g in gs { assert_eq!(TagFilter::cleanup_extension(&f, g), stem(&f, g), "{f:?}"); }
    }
    native directories(iters 900) "VirtualTagsDirectory: every tag in any directory is listed once, found, and read from the first directory that has it; filters and folders are honoured" {
        let mut r = Rng(nd::u64());
        let w = world(&mut r, true);
        let t = w.tree(None);
        let all = w.all();
        cover!(w.noise > 0, "files that are no tags");
        cover!(w.model.len() > 1 && w.model[0].keys().any(|p| w.model[1].contains_key(p)), "a tag in two directories");
        same_listing(t.get_all_tags_with_filter(None), &all, "all tags");
        same_listing(iterate_through_all_tags(&t, None).collect(), &all, "iterator");
        for _ in 0..3 {
            let g = GROUPS[r.below(3)];
            let f = ["*", "levels/*", "?", "*b", "*/?", "é*", "*.fog", "levels/?/?", "b.*"][r.below(9)];
            let group = if r.below(2) == 0 { Some(g) } else { None };
            let f0 = TagFilter::new(f, group);
            let want = all.iter().filter(|p| match group { Some(g) => p.group() == g && matches(&fixed(stem(f, g)), p.path()), None => matches(&fixed(f), &format!("{}.{}", p.path(), p.group().as_str())) }).cloned().collect();
            same_listing(t.get_all_tags_with_filter(Some(&f0)), &want, f);
        }
        // folders
        let mut folders: BTreeSet<String> = BTreeSet::from([String::new()]);
        for d in &w.dirs { let mut s = vec![d.clone()]; while let Some(x) = s.pop() { for e in std::fs::read_dir(x).unwrap() { let p = e.unwrap().path(); if p.is_dir() { folders.insert(p.strip_prefix(d).unwrap().to_str().unwrap().to_owned()); s.push(p) } } } }
        for f in &folders {
            let items = t.files_in_path(f).expect("the folder exists");
            let mut got: Vec<(bool, String)> = items.iter().map(|i| { assert!(i.is_tag() == i.tag_group().is_some() && i.is_tag() != i.is_directory()); (i.is_tag(), match i.tag_path() { Some(p) => p.to_internal_path(), None => i.path_str().to_owned() }) }).collect();
            got.sort();
            let mut want: Vec<(bool, String)> = folders.iter().filter(|x| !x.is_empty() && Path::new(x).parent().unwrap().to_str().unwrap() == f).map(|x| (false, x.clone())).collect();
            want.extend(all.iter().filter(|p| Path::new(&p.path().replace('\\', "/")).parent().unwrap().to_str().unwrap() == f).map(|p| (true, p.to_internal_path())));
            want.sort();
            assert_eq!(got, want, "folder {f:?}");
        }
        assert!(t.files_in_path("levels/nothing/here").is_none(), "a folder that does not exist");
        for n in NAMES { for g in GROUPS {
            let p = TagPath::new(n, g).unwrap();
            let at = w.find(&p);
            assert_eq!(t.contains(&p), at.is_some(), "{p}");
            assert_eq!(t.path_for_tag(&p).map(|x| (x.0, x.1)), at.map(|(i, _)| (i, file(&w.dirs[i], &p))), "{p}");
            match (t.open_tag_copy(&p), at) {
                (Ok(t), Some((_, v))) => assert_eq!(value(t.as_ref()), (g, v), "{p} comes from the first directory that has it"),
                (Err(Error::TagNotFound(q)), None) => assert!(q == p),
                (Err(e), _) => panic!("{p}: {e}"),
                (Ok(_), None) => panic!("{p} is not there")
            }
            match (t.open_tag_shared(&p), at) { (Ok(t), Some((_, v))) => assert_eq!(value(t.lock().unwrap().as_ref()), (g, v)), (Err(_), None) => (), _ => panic!("{p}: shared") }
        } }
        assert!(matches!(VirtualTagsDirectory::new(&[w.dirs[0].clone(), w.dirs[0].join("no such folder")], None), Err(Error::InvalidTagsDirectory)));
    }
    native writing(iters 700) "VirtualTagsDirectory::write_tag: a changed tag replaces the one that would be read, a new tag goes to the first directory (or the copy-on-write directory takes both), an unchanged tag is not written; nothing else changes" {
        let mut r = Rng(nd::u64());
        let mut w = world(&mut r, false);
        let cow = match r.below(3) { 0 => Some(w._scratch.0.join("cow")), _ => None };
        let mut cowed = Model::new();
        let mut t = w.tree(cow.clone());
        cover!(cow.is_some(), "copy on write");
        for _ in 0..8 {
            let p = name(&mut r);
            let v = r.below(4) as u32;
            let bytes = tag(p.group(), v).to_tag_file().unwrap();
            let before = disk(&w._scratch.0);
            let dir = r.below(w.dirs.len());
            let direct = r.below(3) == 0;
            let got = if direct { t.write_tag_to_directory(&p, tag(p.group(), v).as_ref(), dir) } else { t.write_tag(&p, tag(p.group(), v).as_ref()) }.expect("written");
            let at = w.find(&p);
            let to = match (&cow, at) {
                (_, Some((_, x))) if x == v => None,
                (Some(c), _) => if cowed.get(&p) == Some(&v) { None } else { cowed.insert(p.clone(), v); Some(file(c, &p)) },
                (None, _) => { let i = at.map(|x| x.0).unwrap_or(if direct { dir } else { 0 }); w.model[i].insert(p.clone(), v); Some(file(&w.dirs[i], &p)) }
            };
            assert_eq!(got, to.is_some(), "{p}: written");
            let mut want = before;
            if let Some(x) = to { want.insert(x, bytes); }
            let after = disk(&w._scratch.0);
            assert!(after == want, "{p}: files after writing: {:?}", after.iter().filter(|(k, v)| want.get(*k) != Some(v)).map(|x| x.0).chain(want.keys().filter(|k| !after.contains_key(*k))).collect::<Vec<_>>());
            if cow.is_none() { assert_eq!(value(t.open_tag_copy(&p).expect("opened").as_ref()), (p.group(), v), "what was written is read back"); }
        }
        assert!(!t.is_read_only());
    }
    native cache(iters 6000) "CachingTagTree: tags are opened once and shared; writes reach the inner tree at once or when committed; evicting forgets" {
        let mut r = Rng(nd::u64());
        let mut inner = Memory::default();
        for _ in 0..r.below(8) { let p = name(&mut r); inner.items.insert(p, r.below(5) as u32); }
        let manual = r.below(2) == 0;
        let mut model = inner.items.clone();
        let mut cached = Model::new();
        let mut opens = 0;
        let mut t = CachingTagTree::new(inner, if manual { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant });
        assert_eq!(t.is_read_only(), manual);
        for _ in 0..30 {
            let p = name(&mut r);
            let v = r.below(5) as u32;
            let now = cached.get(&p).or(model.get(&p)).copied();
            match r.below(9) {
                0 | 1 => {
                    if !cached.contains_key(&p) { opens += 1 }
                    let got = if r.below(2) == 0 { t.open_tag_copy(&p).map(|mut x| { let v = value(x.as_ref()); change(x.as_mut(), 77); v }) } else { t.open_tag_shared(&p).map(|x| value(x.lock().unwrap().as_ref())) };
                    assert_eq!(got.as_ref().ok().map(|x| x.1), now, "opened {p}");
                    match got { Ok(_) => { cached.insert(p.clone(), now.unwrap()); }, Err(e) => assert!(matches!(e, Error::TagNotFound(_))) }
                },
                2 | 3 => if let Ok(x) = { if !cached.contains_key(&p) { opens += 1 } t.open_tag_shared(&p) } { change(x.lock().unwrap().as_mut(), v); cached.insert(p, v); cover!(true, "changed in place"); },
                4 | 5 => { t.write_tag(&p, tag(p.group(), v).as_ref()).expect("written"); cached.insert(p.clone(), v); if !manual { model.insert(p, v); } },
                6 => match t.commit(&p) { Ok(b) => { let v = *cached.get(&p).expect("only what is cached can be committed"); assert_eq!(b, model.insert(p, v) != Some(v)) }, Err(e) => assert!(matches!(e, Error::TagNotFound(_)) && !cached.contains_key(&p)) },
                7 => if r.below(3) == 0 { assert!(t.commit_all().is_empty()); for (p, v) in &cached { model.insert(p.clone(), *v); } },
                _ => { assert_eq!(t.get(&p).map(|x| value(x.lock().unwrap().as_ref()).1), cached.get(&p).copied()); assert_eq!(t.evict(&p).map(|x| value(x.as_ref()).1), cached.remove(&p)) }
            }
            assert!(t.inner().items == model, "the inner tree holds exactly what was written through");
            assert_eq!(*t.inner().opens.lock().unwrap(), opens, "each tag is opened once until evicted");
        }
        same_listing(t.get_all_tags_with_filter(None), &model.keys().cloned().collect(), "cache");
        assert!(t.into_inner().items == model);
    }
    native wrappers(iters 300) "Boxed, counted and locked trees answer exactly as the tree inside, from several threads" {
        let mut r = Rng(nd::u64());
        let mut m = Memory::default();
        for _ in 0..r.below(8) { let p = name(&mut r); m.items.insert(p, r.below(5) as u32); }
        let items = m.items.clone();
        let keys: BTreeSet<TagPath> = items.keys().cloned().collect();
        let check = |t: &dyn TagTree| for n in NAMES { for g in GROUPS { let p = TagPath::new(n, g).unwrap();
            assert_eq!(t.contains(&p), items.contains_key(&p));
            assert_eq!(t.open_tag_copy(&p).ok().map(|x| value(x.as_ref())), items.get(&p).map(|v| (g, *v)));
            assert_eq!(t.open_tag_shared(&p).ok().map(|x| value(x.lock().unwrap().as_ref())), items.get(&p).map(|v| (g, *v))); } };
        let a = Arc::new(m);
        check(&a); same_listing(a.get_all_tags_with_filter(None), &keys, "Arc"); assert!(TagTree::is_read_only(&a));
        let b: Box<dyn TagTree + Send + Sync> = Box::new(Arc::into_inner(a).unwrap());
        check(&b); same_listing(b.get_all_tags_with_filter(None), &keys, "Box"); assert!(!b.is_read_only());
        let c: Arc<dyn TagTree + Send + Sync> = Arc::from(b);
        check(&c); same_listing(c.get_all_tags_with_filter(None), &keys, "Arc of any tree");
        let t = AtomicTagTree::new(Memory { items: items.clone(), ..Default::default() });
        check(&t); same_listing(t.get_all_tags_with_filter(None), &keys, "AtomicTagTree");
        let ps: Vec<TagPath> = NAMES.iter().map(|n| TagPath::new(n, TagGroup::Fog).unwrap()).collect();
        std::thread::scope(|s| for (i, p) in ps.iter().enumerate() { let mut t = t.clone(); s.spawn(move || { for k in 0..20 { t.write_tag(p, tag(TagGroup::Fog, k + i as u32).as_ref()).unwrap(); assert_eq!(value(t.open_tag_copy(p).unwrap().as_ref()).1, k + i as u32); } }); });
        let inner = t.into_inner();
        assert_eq!(inner.writes, ps.len() * 20);
        for (i, p) in ps.iter().enumerate() { assert_eq!(inner.items.get(p), Some(&(19 + i as u32))) }
    }
}
