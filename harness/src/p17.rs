//! P17: scripts decompile to source that reads back as exactly the expressions compiled, or are refused.
use crate::{cover, nd, spec::{layout, Rng}, Contract};
use ringhopper::tag::scenario::decompile_scripts;
use ringhopper_primitives::byteorder::BigEndian;
use ringhopper_primitives::dynamic::DynamicEnumImpl;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_structs::*;

type T = ScenarioScriptValueType;
#[derive(Clone, Debug)]
enum E { Call(Vec<E>), Text(Vec<u8>), Variable(Vec<u8>, bool), Real(f32), Short(i16), Long(i32), Bool(bool), Void }
/// what the reader of the source sees
#[derive(Clone, Debug, PartialEq)]
enum Tok { Open, Close, Atom(String) }
use Tok::{Close, Open};
fn atom(s: &str) -> Tok { Tok::Atom(s.to_owned()) }

/// Reads source: tokens with where each begins. Text in quotes has no escapes; `;` begins a comment, `;*` one that ends at `*;`.
fn read(s: &str) -> Vec<(usize, Tok)> {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let space = |c: char| c.is_whitespace() || c.is_control();
    let (mut k, mut out) = (0, vec![]);
    while k < c.len() {
        let (at, x) = c[k];
        if space(x) { k += 1 }
        else if x == ';' {
            if c.get(k + 1).is_some_and(|x| x.1 == '*') { k += 2; while !(c[k].1 == '*' && c[k + 1].1 == ';') { k += 1 } k += 2 }
            else { while k < c.len() && c[k].1 != '\n' { k += 1 } }
        }
        else if x == '(' { out.push((at, Open)); k += 1 }
        else if x == ')' { out.push((at, Close)); k += 1 }
        else if x == '"' { let mut t = String::new(); k += 1; while c[k].1 != '"' { t.push(c[k].1); k += 1 } k += 1; out.push((at, Tok::Atom(t))) }
        else { let mut t = String::new(); while k < c.len() && !space(c[k].1) && !matches!(c[k].1, '(' | ')' | ';') { t.push(c[k].1); k += 1 } out.push((at, Tok::Atom(t))) }
    }
    out
}
fn shown(b: &[u8]) -> String { match std::str::from_utf8(b) { Ok(s) => s.to_owned(), Err(_) => String::from_utf8_lossy(b).replace('\u{FFFD}', "?") } }
fn tokens(e: &E, strip: bool, out: &mut Vec<Tok>) {
    match e {
        E::Call(v) => { let plain = strip && matches!(&v[0], E::Text(t) | E::Variable(t, _) if t == b"begin");
            if !plain { out.push(Open) }
            for x in if plain { &v[1..] } else { &v[..] } { tokens(x, false, out) }
            if !plain { out.push(Close) } },
        E::Text(t) | E::Variable(t, _) => out.push(Tok::Atom(shown(t))),
        E::Real(x) => out.push(atom(&format!("\u{1}r{}", x.to_bits()))), E::Short(x) => out.push(atom(&format!("\u{1}i{x}"))), E::Long(x) => out.push(atom(&format!("\u{1}i{x}"))), E::Bool(x) => out.push(atom(if *x { "\u{1}b1" } else { "\u{1}b0" })),
        E::Void => (),
    }
}
/// Whether what was read is what was meant; numbers are compared as numbers.
fn agree(want: &[Tok], got: &[Tok]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| match (w, g) {
        (Tok::Atom(w), Tok::Atom(g)) if w.starts_with('\u{1}') => { let w = &w[1..]; match w.as_bytes()[0] {
            b'r' => { let x = f32::from_bits(w[1..].parse().unwrap()); g.parse::<f32>().is_ok_and(|y| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()) },
            b'i' => g.parse::<i64>().is_ok_and(|y| y.to_string() == w[1..]), _ => g == if w == "b1" { "true" } else { "false" } } },
        (w, g) => w == g })
}

const NAMES: &[&str] = &["begin", "if", "print", "sleep", "set", "object_create", "ai_place", "=", "+", "or"];
fn word(r: &mut Rng, odd: bool) -> Vec<u8> {
    if r.below(3) != 0 { return NAMES[r.below(NAMES.len())].as_bytes().to_vec() }
    const PLAIN: &[&str] = &["a", "b", "_", "/", "\\", "1", "-", "x", "*", ".", "'"];
    const ODD: &[&str] = &[" ", "(", ")", ";", ";*", "*;", "\t", "\n", "\r", "é", "#", "{", "\u{7f}", "\u{a0}", "?", "\u{FFFD}"];
    let n = r.below(9);
    let mut t: Vec<u8> = vec![];
    for _ in 0..n { let s = if odd && r.below(4) == 0 { ODD[r.below(ODD.len())] } else { PLAIN[r.below(PLAIN.len())] }; t.extend(s.as_bytes()) }
    if odd && r.below(30) == 0 { t.push([0xFF, 0xC3, 0x80][r.below(3)]) }
    t
}
fn leaf(r: &mut Rng) -> E {
    match r.below(9) {
        0 => E::Real([0.0, -0.0, 1.0, -1.5, 0.1, 1e30, 1e-40, f32::INFINITY, 16777216.0, f32::MAX, f32::MIN_POSITIVE][r.below(11)] * if r.below(2) == 0 { 1.0 } else { r.below(1000) as f32 / 7.0 }),
        1 => E::Short(r.next() as i16), 2 => E::Long(r.next() as i32), 3 => E::Bool(r.below(2) == 0), 4 => E::Variable(word(r, false), r.below(2) == 0), 5 if r.below(3) == 0 => E::Void,
        _ => E::Text(word(r, true)) }
}
fn call(r: &mut Rng, depth: usize, budget: &mut usize) -> E {
    let mut v = vec![E::Text(word(r, false))];
    let n = if r.below(6) == 0 { 30 } else { 6 }; let n = r.below(n);
    for _ in 0..n { if *budget == 0 { break } *budget -= 1; v.push(if depth > 0 && r.below(3) == 0 { call(r, depth - 1, budget) } else { leaf(r) }) }
    E::Call(v)
}
/// Node table under construction.
struct Build { nodes: Vec<ScenarioScriptNode>, text: Vec<u8>, free: Vec<u16>, r: Rng, types: Vec<T> }
impl Build {
    fn new(r: &mut Rng, room: usize) -> Build {
        let mut free: Vec<u16> = (0..room as u16).collect();
        for i in (1..free.len()).rev() { free.swap(i, r.below(i + 1)) }
        let types = layout().enums.iter().find(|e| e.name == "ScenarioScriptValueType").unwrap().options.iter().filter_map(|o| T::from_str(&o.2)).filter(|t| !matches!(t, T::Boolean | T::Real | T::Short | T::Long | T::Void)).collect();
        Build { nodes: vec![ScenarioScriptNode::default(); room], text: vec![], free, r: Rng(r.next()), types }
    }
    fn string(&mut self, t: &[u8]) -> u32 {
        let mut z = t.to_vec(); z.push(0);
        if self.r.below(2) == 0 { if let Some(i) = self.text.windows(z.len()).position(|w| w == z) { return i as u32 } }
        let at = self.text.len(); self.text.extend(z); at as u32
    }
    fn id(&mut self, i: u16) -> ID { ID::new(Some(i), self.r.next() as u16 | 1) }
    /// a list of expressions, each naming the next; gives the first
    fn block(&mut self, v: &[E]) -> ID {
        let at: Vec<u16> = v.iter().map(|_| self.free.pop().unwrap()).collect();
        let ids: Vec<ID> = at.iter().map(|i| self.id(*i)).collect();
        for (k, e) in v.iter().enumerate() {
            let next = ids.get(k + 1).copied().unwrap_or(ID::null());
            let n = self.node(e);
            self.nodes[at[k] as usize] = ScenarioScriptNode { next_node: next, salt: self.r.next() as u16, ..n };
        }
        ids.first().copied().unwrap_or(ID::null())
    }
    fn node(&mut self, e: &E) -> ScenarioScriptNode {
        let mut n = ScenarioScriptNode::default();
        n.flags.is_primitive = true; n.flags.is_garbage_collectable = self.r.below(2) == 0;
        n._type = self.types[self.r.below(self.types.len())];
        n.string_offset = self.r.next() as u32; n.data = (self.r.next() as i32).into();
        let high = self.r.next() as u32;
        match e {
            E::Call(v) => { n.flags.is_primitive = false; n.flags.is_script_call = self.r.below(2) == 0; n.data = self.block(v).into() },
            E::Text(t) => n.string_offset = self.string(t),
            E::Variable(t, global) => { n.string_offset = self.string(t); n.flags.is_global = *global; n.flags.is_local_variable = !*global; n._type = [T::Real, T::Short, T::Boolean, T::Void, T::Ai][self.r.below(5)] },
            E::Real(x) => { n._type = T::Real; n.data = (*x).into() },
            E::Short(x) => { n._type = T::Short; n.data.data = high << 16 | *x as u16 as u32 },
            E::Long(x) => { n._type = T::Long; n.data = (*x).into() },
            E::Bool(x) => { n._type = T::Boolean; n.data.data = high << 8 | *x as u32 },
            E::Void => n._type = T::Void,
        }
        n
    }
    fn into(self, s: &mut Scenario, spare: usize) {
        let max = self.nodes.len() + spare;
        let mut d = vec![0u8; 56 + max * 20];
        let mut t = ScenarioScriptNodeTable::default();
        t.name = String32::from_str("script node").unwrap(); t.maximum_count = max as u16; t.element_size = 20; t.size = self.nodes.len() as u16;
        t.write::<BigEndian>(&mut d, 0, 56).unwrap();
        for (k, n) in self.nodes.iter().enumerate() { n.write::<BigEndian>(&mut d, 56 + k * 20, 76 + k * 20).unwrap() }
        s.script_syntax_data.bytes = d; s.script_string_data.bytes = self.text;
    }
}
fn count(e: &E) -> usize { match e { E::Call(v) => 1 + v.iter().map(count).sum::<usize>(), _ => 1 } }
fn any_type(r: &mut Rng) -> (T, String) { let o = &layout().enums.iter().find(|e| e.name == "ScenarioScriptValueType").unwrap().options; loop { let o = &o[r.below(o.len())]; if let Some(t) = T::from_str(&o.2) { return (t, o.2.clone()) } } }
fn title(r: &mut Rng, k: usize, odd: bool) -> String { let w = if odd && r.below(8) == 0 { String::from_utf8_lossy(&word(r, true)).into_owned() } else { format!("name{}", r.below(1000)) }; let mut s = format!("{w}{k}"); while s.len() > 31 { s.remove(0); } s }

struct Made { scenario: Scenario, want: Vec<Tok>, forms: usize }
/// Globals and scripts, and what their source has to say. `deep`: nesting; `long`: extra bytes of text in each script.
fn made(r: &mut Rng, globals: usize, scripts: usize, deep: usize, size: usize, long: &mut dyn FnMut(&mut Rng) -> usize) -> Made {
    let mut s = Scenario::default();
    let (mut want, mut trees) = (vec![], vec![]);
    for k in 0..globals {
        let mut budget = r.below(size) + 1;
        let e = if r.below(2) == 0 { leaf(r) } else { call(r, deep, &mut budget) };
        let (t, tn) = any_type(r); let name = title(r, k, true);
        want.extend([Open, atom("global"), Tok::Atom(tn), Tok::Atom(name.clone())]);
        tokens(&e, false, &mut want); want.push(Close);
        let mut g = ScenarioGlobal::default(); g.name = String32::from_str(&name).unwrap(); g._type = t; s.globals.items.push(g);
        trees.push(e);
    }
    for k in 0..scripts {
        let mut budget = r.below(size) + 1;
        let mut e = call(r, deep, &mut budget);
        let n = long(r);
        if n > 0 { let E::Call(v) = &mut e else { panic!() }; let mut left = n; while left > 0 { let m = left.min(1 + r.below(9000)); v.push(E::Text(vec![b'a' + r.below(26) as u8; m])); left -= m } }
        let (t, tn) = any_type(r); let name = title(r, k, true);
        let kinds = &layout().enums.iter().find(|e| e.name == "ScenarioScriptType").unwrap().options;
        let kind = kinds[r.below(kinds.len())].2.clone();
        want.extend([Open, atom("script"), atom(&kind)]);
        if kind == "static" || kind == "stub" { want.push(Tok::Atom(tn)) }
        let mut q = ScenarioScript::default();
        if r.below(3) == 0 {
            want.extend([Open, Tok::Atom(name.clone())]);
            for j in 0..1 + r.below(5) { let (t, tn) = any_type(r); let n = title(r, j, true); want.extend([Open, Tok::Atom(tn), Tok::Atom(n.clone()), Close]); let mut p = ScenarioScriptParameter::default(); p.name = String32::from_str(&n).unwrap(); p.return_type = t; q.parameters.items.push(p) }
            want.push(Close)
        } else { want.push(Tok::Atom(name.clone())) }
        tokens(&e, true, &mut want); want.push(Close);
        q.name = String32::from_str(&name).unwrap(); q.script_type = ScenarioScriptType::from_str(&kind).unwrap(); q.return_type = t; s.scripts.items.push(q);
        trees.push(e);
    }
    let mut b = Build::new(r, trees.iter().map(count).sum());
    let ids: Vec<ID> = trees.iter().map(|e| b.block(std::slice::from_ref(e))).collect();
    for (k, id) in ids.iter().enumerate() { if k < globals { s.globals.items[k].initialization_expression_index = *id } else { s.scripts.items[k - globals].root_expression_index = *id } }
    let spare = r.below(3);
    b.into(&mut s, spare);
    Made { scenario: s, want, forms: globals + scripts }
}
fn sources(s: &Scenario) -> Vec<(String, String)> { s.source_files.items.iter().map(|f| (f.name.as_str().to_owned(), String::from_utf8(f.source.bytes.clone()).expect("source is text"))).collect() }
const PAGE: usize = 512 * 1024;
/// Decompiles and compares.
fn check(m: &Made, name: &str) -> usize {
    let mut s = m.scenario.clone();
    decompile_scripts(&mut s, name).expect("these scripts are well-formed");
    let files = sources(&s);
    if m.forms == 0 { assert_eq!(files, sources(&m.scenario), "nothing to decompile, but the source changed"); return 0 }
    let mut got = vec![];
    for (k, (n, text)) in files.iter().enumerate() {
        let t = read(text);
        let (mut depth, mut starts) = (0i64, vec![]);
        for (at, t) in &t { match t { Open => { if depth == 0 { starts.push(*at) } depth += 1 }, Close => depth -= 1, _ => assert!(depth > 0, "text outside of a form") } assert!(depth >= 0) }
        assert_eq!(depth, 0, "a page ends in the middle of a form");
        if k + 1 < files.len() { assert!(text.len() >= PAGE, "a page ends before it is full") }
        let head = starts.first().copied().unwrap_or(0);
        if let Some(l) = starts.last() { assert!(*l < PAGE + head + 8, "a form begins on a full page") }
        assert!(n.len() <= 31);
        if files.len() == 1 { assert_eq!(n, name) } else {
            let tail = format!("-{}", k + 1); let full = files.len().to_string().len() + 1;
            let base = n.strip_suffix(&tail).unwrap_or_else(|| panic!("page {} is named {n}", k + 1));
            assert!(name.starts_with(base) && !base.is_empty() && (base == name || name.len() + full > 31), "page {} of {name} is named {n}", k + 1);
        }
        got.extend(t.into_iter().map(|x| x.1));
    }
    assert!(agree(&m.want, &got), "source does not say what was compiled\nmeant {:?}\nread {:?}", &m.want[..m.want.len().min(60)], &got[..got.len().min(60)]);
    // nothing else changed
    let mut back = s.clone(); back.source_files = m.scenario.source_files.clone();
    assert!(format!("{back:?}") == format!("{:?}", m.scenario), "something other than the source changed");
    files.len()
}
fn scenario_name(r: &mut Rng) -> String { let n = 1 + r.below(31); let mut s = String::new(); loop { let c = if r.below(8) == 0 { 'é' } else { (b'a' + r.below(26) as u8) as char }; if s.len() + c.len_utf8() > n { return if s.is_empty() { "x".to_owned() } else { s } } s.push(c) } }
fn reach(s: &Scenario) -> Vec<usize> {
    let mut todo: Vec<ID> = s.globals.items.iter().map(|g| g.initialization_expression_index).chain(s.scripts.items.iter().map(|g| g.root_expression_index)).collect();
    let mut out = vec![];
    while let Some(i) = todo.pop() { let Some(i) = i.index() else { continue }; out.push(i as usize); let n = node(s, i as usize); todo.push(n.next_node); if !n.flags.is_primitive { todo.push(n.data.into()) } }
    out
}
fn node(s: &Scenario, i: usize) -> ScenarioScriptNode { ScenarioScriptNode::read::<BigEndian>(&s.script_syntax_data.bytes, 56 + i * 20, 76 + i * 20).unwrap() }
fn store(s: &mut Scenario, i: usize, n: ScenarioScriptNode) { n.write::<BigEndian>(&mut s.script_syntax_data.bytes, 56 + i * 20, 76 + i * 20).unwrap() }
/// Must come to an end, in reasonable memory, either way.
fn either(s: &mut Scenario, name: &str) -> bool {
    let before = sources(s);
    let nodes = s.script_syntax_data.bytes.len() / 20 + s.script_string_data.bytes.len() / 20;
    crate::memory::reset();
    let ok = decompile_scripts(s, name).is_ok();
    assert!(crate::memory::peak() < 16 << 20 | nodes * 8192, "{} MiB used for {nodes} nodes", crate::memory::peak() >> 20);
    if !ok { assert_eq!(before, sources(s), "refused, but the source changed") }
    ok
}
fn id(r: &mut Rng, i: usize) -> ID { ID::new(Some(i as u16), r.next() as u16 | 1) }
fn single(s: &mut Scenario, root: ID) { let mut q = ScenarioScript::default(); q.name = String32::from_str("one").unwrap(); q.root_expression_index = root; s.scripts.items.push(q) }

contracts! {
    native round_trip(iters 200000) "decompile_scripts: the source reads back as exactly the globals, scripts and expressions compiled" {
        let mut r = Rng(nd::u64());
        let (g, s, d, n) = (r.below(4), r.below(5), r.below(8), [3, 12, 60, 300][r.below(4)]);
        let mut m = made(&mut r, g, s, d, n, &mut |_| 0);
        if r.below(3) == 0 { let mut f = ScenarioSourceFile::default(); f.name = String32::from_str("old").unwrap(); f.source.bytes = b"(old)".to_vec(); m.scenario.source_files.items.push(f) }
        let name = scenario_name(&mut r);
        check(&m, &name);
        cover!(m.want.len() > 100, "long");
    }
    native pages(iters 60) "decompile_scripts: long source is split between forms once a page is full, and the pages are named after the scenario" {
        let mut r = Rng(nd::u64());
        let s = 1 + r.below(60);
        let each = [0, 40000, 250000, 700000 / (1 + s / 4)][r.below(4)];
        let m = made(&mut r, 2, s, 3, 20, &mut |r| r.below(each + 1));
        let name = scenario_name(&mut r);
        let pages = check(&m, &name);
        cover!(pages > 1, "several pages"); cover!(pages > 9, "ten pages"); cover!(pages > 1 && name.len() > 28, "long name");
    }
    native nested(iters 300) "decompile_scripts: nested calls keep their order up to any depth scripts can have; deeper ones come to an end" {
        let mut r = Rng(nd::u64());
        let depth = match r.below(4) { 0 => r.below(4000), 1 => [60000, 65534, 20000][r.below(3)], _ => 1 + r.below(64) };
        let mut s = Scenario::default(); let mut want = vec![Open, atom("script"), atom("startup"), atom("one")];
        let depth = depth.min(32767);
        let mut b = Build::new(&mut r, depth * 2);
        let text = b.string(b"f");
        for k in 0..depth {
            let mut c = ScenarioScriptNode::default(); c.data = id(&mut r, 2 * k + 1).into(); c.next_node = ID::null();
            let mut f = ScenarioScriptNode::default(); f.flags.is_primitive = true; f._type = T::FunctionName; f.string_offset = text; f.next_node = if k + 1 < depth { id(&mut r, 2 * k + 2) } else { ID::null() };
            b.nodes[2 * k] = c; b.nodes[2 * k + 1] = f; want.extend([Open, atom("f")]);
        }
        for _ in 0..=depth { want.push(Close) }
        if depth == 0 { return }
        b.into(&mut s, 0); let root = id(&mut r, 0); single(&mut s, root); s.scripts.items[0].script_type = ScenarioScriptType::Startup;
        let m = Made { scenario: s.clone(), want, forms: 1 };
        if depth <= 64 { check(&m, "deep"); cover!(depth > 40, "deep"); } else if either(&mut s, "deep") { check(&m, "deep"); } else { cover!(true, "too deep"); }
    }
    native shared(iters 300) "decompile_scripts: calls naming the same expression many times come to an end" {
        let mut r = Rng(nd::u64());
        let (depth, width) = (1 + r.below(60), 1 + r.below(4));
        let mut b = Build::new(&mut r, depth * width);
        let text = b.string(b"f");
        for k in 0..depth { for j in 0..width {
            let mut c = ScenarioScriptNode::default(); c.string_offset = text;
            if k + 1 < depth { c.data = id(&mut r, (k + 1) * width).into() } else { c.flags.is_primitive = true; c._type = T::FunctionName }
            c.next_node = if j + 1 < width { id(&mut r, k * width + j + 1) } else { ID::null() };
            b.nodes[k * width + j] = c;
        } }
        let mut s = Scenario::default(); let spare = r.below(3); b.into(&mut s, spare); let root = id(&mut r, 0); single(&mut s, root);
        let ok = either(&mut s, "x");
        cover!(ok, "few"); cover!(!ok, "many");
    }
    native malformed(iters 100000) "decompile_scripts: a damaged table, a reference to no node, a cycle, text without an end or a name used twice is refused" {
        let mut r = Rng(nd::u64());
        let (g, n) = (1 + r.below(3), 1 + r.below(3));
        let m = made(&mut r, g, n, 4, 20, &mut |_| 0);
        let mut s = m.scenario.clone();
        let count = s.script_syntax_data.bytes.len() / 20 - 2;
        let on = reach(&s); let i = on[r.below(on.len())]; let mut n = node(&s, i);
        let used = ScenarioScriptNodeTable::read::<BigEndian>(&s.script_syntax_data.bytes, 0, 56).unwrap().size as usize;
        let calls: Vec<usize> = on.iter().copied().filter(|i| !node(&s, *i).flags.is_primitive).collect();
        let mut name = "name".to_owned();
        let out = |r: &mut Rng| used + [0, 1, r.below(40000)][r.below(3)].min(65534 - used);
        let what = r.below(13);
        match what {
            0 => { let o = out(&mut r); n.next_node = id(&mut r, o); store(&mut s, i, n) },
            1 => { if calls.is_empty() { return } let c = calls[r.below(calls.len())]; let mut n = node(&s, c); n.data = if r.below(2) == 0 { ID::null().into() } else { let o = out(&mut r); id(&mut r, o).into() }; store(&mut s, c, n) },
            // the last of a list names an earlier one, or a call something around it
            2 => { n.next_node = id(&mut r, i); store(&mut s, i, n) },
            3 => { if calls.is_empty() { return } let c = calls[r.below(calls.len())]; let mut n = node(&s, c); n.data = id(&mut r, c).into(); store(&mut s, c, n) },
            4 => { if !n.flags.is_primitive || matches!(n._type, T::Boolean | T::Real | T::Short | T::Long | T::Void) && !n.flags.is_global && !n.flags.is_local_variable { return } n.string_offset = s.script_string_data.bytes.len() as u32 + [0, 1, 0x70000000][r.below(3)]; store(&mut s, i, n) },
            5 => { if !n.flags.is_primitive || matches!(n._type, T::Boolean | T::Real | T::Short | T::Long | T::Void) && !n.flags.is_global && !n.flags.is_local_variable { return } n.string_offset = s.script_string_data.bytes.len() as u32; s.script_string_data.bytes.extend(b"no end"); store(&mut s, i, n) },
            6 => s.script_syntax_data.bytes[35] ^= 1 << r.below(8),
            7 => { let n = s.script_syntax_data.bytes.len(); if r.below(2) == 0 { s.script_syntax_data.bytes.push(0) } else { let k = r.below(n); s.script_syntax_data.bytes.truncate(k) } },
            8 => { let b = &mut s.script_syntax_data.bytes; b[46..48].copy_from_slice(&((count + 1 + r.below(1000)) as u16).to_be_bytes()) },
            9 => { let x = s.scripts.items[0].clone(); s.scripts.items.push(x) },
            10 => { let x = s.globals.items[0].clone(); s.globals.items.push(x) },
            11 => name = "n".repeat(32 + r.below(10)),
            _ => { let x = match r.below(2) { 0 => ID::null(), _ => { let o = out(&mut r); id(&mut r, o) } }; if r.below(2) == 0 { s.scripts.items[0].root_expression_index = x } else { s.globals.items[0].initialization_expression_index = x } },
        }
        assert!(!either(&mut s, &name), "accepted (damage {what})");
    }
    native damaged(iters 200000) "decompile_scripts: scripts damaged in any way are decompiled or refused, without a panic or a disproportionate allocation" {
        let mut r = Rng(nd::u64());
        let (g, n) = (r.below(3), 1 + r.below(3));
        let m = made(&mut r, g, n, 5, 30, &mut |_| 0);
        let mut s = m.scenario.clone();
        let used = ScenarioScriptNodeTable::read::<BigEndian>(&s.script_syntax_data.bytes, 0, 56).unwrap().size as usize;
        for _ in 0..1 + r.below(8) {
            match r.below(6) {
                0 => { let l = s.script_syntax_data.bytes.len(); let k = r.below(l); s.script_syntax_data.bytes[k] ^= 1 << r.below(8) },
                1 => { let l = s.script_string_data.bytes.len(); if l > 0 { let k = r.below(l); s.script_string_data.bytes[k] = [b'(', b')', b'"', 0, b';', b'a', 0xFF][r.below(7)] } },
                2 => { let k = r.below(s.scripts.items.len()); s.scripts.items[k].name = String32::from_str([")", "(", "\"", "", "script", "begin"][r.below(6)]).unwrap() },
                k => { if used == 0 || 56 + used * 20 > s.script_syntax_data.bytes.len() { continue } let i = r.below(used); let Ok(mut n) = ScenarioScriptNode::read::<BigEndian>(&s.script_syntax_data.bytes, 56 + i * 20, 76 + i * 20) else { continue }; let to = r.below(used); if k == 3 { n.next_node = id(&mut r, to) } else if k == 4 { n.flags.is_primitive = false; n.data = id(&mut r, to).into() } else { n.string_offset = r.below(s.script_string_data.bytes.len() + 2) as u32 } store(&mut s, i, n) }
            }
        }
        let ok = either(&mut s, "name");
        cover!(ok, "accepted"); cover!(!ok, "refused");
    }
}
