from extract import Item
P = 'src/ringhopper/src/tag/dependency.rs'
SPEC = r'''
pub struct TagGroup { pub code: u32 }
pub struct TagPath { pub path: Ghost<Seq<char>>, pub kind: TagGroup }
pub enum Error { TagNotFound(TagPath), BrokenDependency(TagPath, TagPath), Other }
type RinghopperResult<T> = Result<T, Error>;
impl TagPath {
    #[verifier::external_body] pub fn clone(&self) -> (r: TagPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: TagPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn group(&self) -> (r: TagGroup) ensures r == self.kind { unimplemented!() }
}
/// a set of paths (HashSet<TagPath>)
#[verifier::external_body] pub struct Paths;
impl Paths {
    pub uninterp spec fn view(&self) -> Set<TagPath>;
    #[verifier::external_body] pub fn new() -> (r: Paths) ensures r@ == Set::<TagPath>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: TagPath) ensures final(self)@ == old(self)@.insert(p) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, p: &TagPath) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    /// what iterating over the set gives
    #[verifier::external_body] pub fn list(&self) -> (r: Vec<TagPath>) ensures forall|p: TagPath| self@.contains(p) <==> (exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k] == p) { unimplemented!() }
}
/// a set of paths for each of several paths (HashMap<TagPath, HashSet<TagPath>>)
#[verifier::external_body] pub struct Table;
impl Table {
    pub uninterp spec fn view(&self) -> Map<TagPath, Set<TagPath>>;
    #[verifier::external_body] pub fn new() -> (r: Table) ensures r@ == Map::<TagPath, Set<TagPath>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: TagPath, s: Paths) ensures final(self)@ == old(self)@.insert(p, s@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, p: &TagPath) -> (r: bool) ensures r == self@.dom().contains(*p) { unimplemented!() }
}
#[verifier::external_body] pub struct Tag;
impl Tag { pub uninterp spec fn refs(&self) -> Set<TagPath>; }
/// groups a group can refer to, as its definition says (executed for every group)
pub uninterp spec fn may(a: TagGroup, b: TagGroup) -> bool;
pub open spec fn leaf(a: TagGroup) -> bool { forall|b: TagGroup| !may(a, b) }
pub trait TagTree {
    spec fn has(&self, p: TagPath) -> bool;
    /// the references set in a tag, if it can be opened
    spec fn opened(&self, p: TagPath) -> Option<Set<TagPath>>;
    fn contains(&self, p: &TagPath) -> (r: bool) ensures r == self.has(*p);
    fn open_tag_shared(&self, p: &TagPath) -> (r: RinghopperResult<Tag>) ensures match r { Ok(t) => self.opened(*p) == Some(t.refs()), Err(_) => self.opened(*p) is None };
}
#[verifier::external_body] fn no_references(g: TagGroup) -> (r: bool) ensures r == leaf(g) { unimplemented!() }
#[verifier::external_body] fn may_refer(a: TagGroup, b: TagGroup) -> (r: bool) ensures r == may(a, b) { unimplemented!() }
/// get_tag_dependencies_for_block (executed for every group)
#[verifier::external_body] fn references(t: &Tag) -> (r: Paths) ensures r@ == t.refs() { unimplemented!() }
#[verifier::external_body] fn waiting(v: &Vec<(TagPath, Option<TagPath>)>, p: &TagPath) -> (r: bool) ensures r == (exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).0 == *p) { unimplemented!() }
/// what going through a tree gives: every tag (executed in check P20)
#[verifier::external_body] fn every_tag<T: TagTree>(t: &T) -> (r: Vec<TagPath>) ensures forall|p: TagPath| t.has(p) <==> (exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k] == p) { unimplemented!() }

/// the tag is there (and opens, if it can refer to anything)
pub open spec fn good<T: TagTree>(t: &T, p: TagPath) -> bool { if leaf(p.kind) { t.has(p) } else { t.opened(p) is Some } }
pub open spec fn deps<T: TagTree>(t: &T, p: TagPath) -> Set<TagPath> { if leaf(p.kind) { Set::empty() } else { t.opened(p)->0 } }
/// a way from a to b over references
pub open spec fn walk<T: TagTree>(t: &T, a: TagPath, b: TagPath, w: Seq<TagPath>) -> bool { w.len() > 0 && w[0] == a && w.last() == b && forall|i: int| 0 <= i < w.len() - 1 ==> good(t, #[trigger] w[i]) && deps(t, w[i]).contains(w[i + 1]) }
pub open spec fn reached<T: TagTree>(t: &T, a: TagPath, b: TagPath) -> bool { exists|w: Seq<TagPath>| walk(t, a, b, w) }
pub open spec fn queued(v: Seq<(TagPath, Option<TagPath>)>, p: TagPath) -> bool { exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == p }
pub open spec fn sound<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>) -> bool { forall|p: TagPath| #[trigger] m.dom().contains(p) ==> good(t, p) && m[p] == deps(t, p) && reached(t, root, p) }
pub open spec fn done<T: TagTree>(t: &T, m: Map<TagPath, Set<TagPath>>, lenient: bool, p: TagPath) -> bool { m.dom().contains(p) || (lenient && !good(t, p)) }
pub open spec fn closed<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, lenient: bool) -> bool { done(t, m, lenient, root) && forall|p: TagPath, q: TagPath| #[trigger] m.dom().contains(p) && #[trigger] m[p].contains(q) ==> done(t, m, lenient, q) }
/// open obligations of the search: everything referred to is done, queued, or the tag being handled
pub open spec fn pending_or_done<T: TagTree>(t: &T, m: Map<TagPath, Set<TagPath>>, v: Seq<(TagPath, Option<TagPath>)>, lenient: bool, now: Option<TagPath>, p: TagPath) -> bool { done(t, m, lenient, p) || queued(v, p) || now == Some(p) }
pub open spec fn front<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, v: Seq<(TagPath, Option<TagPath>)>, lenient: bool, now: Option<TagPath>) -> bool {
    pending_or_done(t, m, v, lenient, now, root) && (forall|p: TagPath, q: TagPath| #[trigger] m.dom().contains(p) && #[trigger] m[p].contains(q) ==> pending_or_done(t, m, v, lenient, now, q))
}
pub open spec fn all_reached<T: TagTree>(t: &T, root: TagPath, v: Seq<(TagPath, Option<TagPath>)>) -> bool { forall|k: int| 0 <= k < v.len() ==> reached(t, root, (#[trigger] v[k]).0) }
'''
LEMMAS = r'''
proof fn step<T: TagTree>(t: &T, root: TagPath, p: TagPath, q: TagPath) requires reached(t, root, p), good(t, p), deps(t, p).contains(q) ensures reached(t, root, q) {
    let w = choose|w: Seq<TagPath>| walk(t, root, p, w);
    let x = w.push(q);
    assert forall|i: int| 0 <= i < x.len() - 1 implies good(t, #[trigger] x[i]) && deps(t, x[i]).contains(x[i + 1]) by { if i < w.len() - 1 { assert(good(t, w[i])); } }
    assert(walk(t, root, q, x));
}
/// popping moves an entry from the queue to the tag being handled
proof fn popped<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, v: Seq<(TagPath, Option<TagPath>)>, lenient: bool)
    requires v.len() > 0, front(t, root, m, v, lenient, None) ensures front(t, root, m, v.drop_last(), lenient, Some(v.last().0)) {
    assert forall|q: TagPath| queued(v, q) implies queued(v.drop_last(), q) || v.last().0 == q by { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == q; if k < v.len() - 1 { assert(v.drop_last()[k].0 == q); } }
}
proof fn pushed<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, v: Seq<(TagPath, Option<TagPath>)>, x: (TagPath, Option<TagPath>), lenient: bool, now: Option<TagPath>)
    requires front(t, root, m, v, lenient, now) ensures front(t, root, m, v.push(x), lenient, now), queued(v.push(x), x.0), forall|q: TagPath| queued(v, q) ==> #[trigger] queued(v.push(x), q) {
    assert forall|q: TagPath| queued(v, q) implies #[trigger] queued(v.push(x), q) by { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == q; assert(v.push(x)[k].0 == q); }
    assert(v.push(x)[v.len() as int].0 == x.0);
}
/// every reachable tag is in a closed result, when nothing is broken
proof fn complete<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, p: TagPath) requires sound(t, root, m), closed(t, root, m, false), reached(t, root, p) ensures m.dom().contains(p) {
    let w = choose|w: Seq<TagPath>| walk(t, root, p, w);
    along(t, root, m, p, w, w.len() - 1);
}
proof fn along<T: TagTree>(t: &T, root: TagPath, m: Map<TagPath, Set<TagPath>>, p: TagPath, w: Seq<TagPath>, i: int) requires sound(t, root, m), closed(t, root, m, false), walk(t, root, p, w), 0 <= i < w.len() ensures m.dom().contains(w[i]) decreases i {
    if i > 0 { along(t, root, m, p, w, i - 1); assert(m[w[i - 1]] == deps(t, w[i - 1])); assert(m[w[i - 1]].contains(w[i])); assert(done(t, m, false, w[i])); } else { assert(done(t, m, false, root)); }
}
'''
UNITS = [dict(
    name='closure', about='recursively_get_dependencies_for_tag: for every tree, the result holds only tags reached from the given one, each with exactly its references, and is closed under references (lemma complete: it is everything reachable); without allow_broken nothing on the way is missing. Termination is not proved',
    trusted=True, uses='', spec=SPEC, lemmas=LEMMAS,
    items=[Item(P, 'fn', 'recursively_get_dependencies_for_tag', vis='', ret='r', attrs='#[verifier::exec_allows_no_decreases_clause] ',
        rewrite=[(r'HashMap<TagPath, HashSet<TagPath>>', 'Table', 'HashMap as an abstract table'), (r'HashMap::new\(\)', 'Table::new()', 'HashMap as an abstract table'), (r'HashSet::new\(\)', 'Paths::new()', 'HashSet as an abstract set'),
                 (r'Vec::from\(\[\((.*?), None\)\]\)', r'vec![(\1, None)]', 'a vector of one item'),
                 (r'while let Some\((\w+)\) = pending\.pop\(\) \{', r'loop { let ghost v0 = pending@; let \1 = match pending.pop() { Some(\1) => \1, None => break }; proof { popped(tag_tree, root, result@, v0, allow_broken); assert(reached(tag_tree, root, v0.last().0)); }', '`while let` written as `loop`'),
                 (r'get_all_referenceable_tag_groups_for_group\(p\.0\.group\(\)\)\.is_empty\(\)', 'no_references(p.0.group())', 'assumed contract of the table of groups'),
                 (r'get_tag_dependencies_for_block\(tag\.lock\(\)\.unwrap\(\)\.as_ref\(\)\.as_dynamic\(\)\)', 'references(&tag)', 'assumed contract of get_tag_dependencies_for_block'),
                 (r'for (\w+) in &dependencies \{', r'let list = dependencies.list(); let mut n: usize = 0; while n < list.len() { let \1 = &list[n]; n = n + 1;', 'the `for` over a set written as a loop over its items'),
                 (r'pending\.iter\(\)\.find\(\|p\| &p\.0 == i\)\.is_some\(\)', 'waiting(&pending, i)', 'assumed contract of find')],
        start='let ghost root = *tag;',
        spec='''ensures match r { Ok(m) => sound(tag_tree, *tag, m@) && closed(tag_tree, *tag, m@, allow_broken),
            Err(_) => !allow_broken && exists|p: TagPath| #[trigger] reached(tag_tree, *tag, p) && !good(tag_tree, p) }''',
        loops=[dict(spec='''invariant root == *tag, sound(tag_tree, root, result@), front(tag_tree, root, result@, pending@, allow_broken, None), all_reached(tag_tree, root, pending@), ensures pending@.len() == 0'''),
               dict(spec='''invariant sound(tag_tree, root, result@), front(tag_tree, root, result@, pending@, allow_broken, Some(p.0)), all_reached(tag_tree, root, pending@), n <= list@.len(), reached(tag_tree, root, p.0), good(tag_tree, p.0), deps(tag_tree, p.0) == dependencies@,
                    forall|q: TagPath| dependencies@.contains(q) <==> (exists|k: int| 0 <= k < list@.len() && #[trigger] list@[k] == q), forall|k: int| 0 <= k < n ==> pending_or_done(tag_tree, result@, pending@, allow_broken, None::<TagPath>, #[trigger] list@[k])
                    decreases list@.len() - n''', start='let ghost v1 = pending@;')],
        at=[(r'let mut pending:[^;]*;', 'after', 'proof { assert(walk(tag_tree, root, root, seq![root])); assert(pending@[0].0 == root); assert(queued(pending@, root)); }'),
            (r'pending\.push\(\(i\.to_owned\(\), Some\(p\.0\.clone\(\)\)\)\);', 'before', 'proof { assert(dependencies@.contains(*i)); step(tag_tree, root, p.0, *i); pushed(tag_tree, root, result@, v1, (*i, Some(p.0)), allow_broken, Some(p.0)); }'),
            (r'result\.insert\(p\.0, dependencies\);', 'before', 'let ghost pp = p.0; let ghost m0 = result@; let ghost d0 = dependencies@; proof { assert forall|q: TagPath| d0.contains(q) implies pending_or_done(tag_tree, m0, pending@, allow_broken, None::<TagPath>, q) by { let k = choose|k: int| 0 <= k < list@.len() && #[trigger] list@[k] == q; assert(pending_or_done(tag_tree, m0, pending@, allow_broken, None::<TagPath>, list@[k])); } }'),
            ]),
    ]), dict(
    name='reverse', about='get_reverse_dependencies_for_tag: for every tree, exactly the tags that refer to the given one (of groups that can), or an error when such a tag does not open',
    trusted=True, uses='', spec=SPEC, lemmas='',
    items=[Item(P, 'fn', 'get_reverse_dependencies_for_tag', vis='', ret='r',
        rewrite=[(r'HashSet<TagPath>', 'Paths', 'HashSet as an abstract set'), (r'HashSet::new\(\)', 'Paths::new()', 'HashSet as an abstract set'),
                 (r'for (\w+) in iterate_through_all_tags\(tag_tree, None\) \{', r'let list = every_tag(tag_tree); let mut n: usize = 0; while n < list.len() { let \1 = list[n].clone(); n = n + 1;', 'the `for` written as a loop over every tag'),
                 (r'get_all_referenceable_tag_groups_for_group\(i\.group\(\)\)\.contains\(&tag\.group\(\)\)', 'may_refer(i.group(), tag.group())', 'assumed contract of the table of groups'),
                 (r'let t = t\.lock\(\)\.unwrap\(\);', '', 'locking'),
                 (r'get_tag_dependencies_for_block\(t\.as_ref\(\)\.as_dynamic\(\)\)', 'references(&t)', 'assumed contract of get_tag_dependencies_for_block')],
        spec='''ensures match r { Ok(s) => forall|p: TagPath| s@.contains(p) <==> tag_tree.has(p) && may(p.kind, tag.kind) && tag_tree.opened(p) is Some && tag_tree.opened(p)->0.contains(*tag),
            Err(_) => exists|p: TagPath| tag_tree.has(p) && #[trigger] may(p.kind, tag.kind) && tag_tree.opened(p) is None }''',
        loops=[dict(spec='''invariant n <= list@.len(), forall|p: TagPath| tag_tree.has(p) <==> (exists|k: int| 0 <= k < list@.len() && #[trigger] list@[k] == p),
            forall|p: TagPath| result@.contains(p) <==> (exists|k: int| 0 <= k < n && #[trigger] list@[k] == p) && may(p.kind, tag.kind) && tag_tree.opened(p) is Some && tag_tree.opened(p)->0.contains(*tag),
            forall|k: int| 0 <= k < n && may((#[trigger] list@[k]).kind, tag.kind) ==> tag_tree.opened(list@[k]) is Some
            decreases list@.len() - n''', start='let ghost n0 = n;')],
        )]
    )]
