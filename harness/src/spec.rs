//! The tag format as specified by `spec/layout.txt`: every structure, enumeration and bitfield with offsets, sizes and
//! flags, and what it means for bytes to hold a value of it in a tag file and in a cache file.
//!
//! Nothing here calls the code under contract except to compare a finished value leaf by leaf.
use std::collections::HashMap;
use std::sync::OnceLock;
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::PrimaryTagStructDyn;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Prim { F64, Angle, I8, U8, I16, U16, I32, U32, Index, Id, Group, Address, Vec2, Vec3, Vec2Int, Rect, Plane2, Plane3, Euler2, Euler3, Quat, Mat3, Rgb, Argb, ArgbInt, CVec3, CVec2, CFloat, Script }
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Kind { Prim(Prim), Str32, Struct(usize), Enum(usize), Bits(usize), List(usize), Ref, Data, FileData, BspData, Utf16, Pad }
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Count { One, Bounds, N(usize) }
pub struct Field { pub off: usize, pub size: usize, pub rust: String, pub matcher: String, pub kind: Kind, pub count: Count, pub cache_only: bool, pub non_cached: bool, pub exclude: bool, pub le: bool, pub shifted: bool, pub readonly: bool, pub groups: Vec<String>, pub default: Option<Vec<String>> }
pub struct Struct { pub name: String, pub size: usize, pub fields: Vec<Field> }
pub struct Enum { pub name: String, pub options: Vec<(u16, String, String, bool)> }
pub struct Bits { pub name: String, pub width: usize, pub bits: Vec<(u32, String, bool, bool, bool)> }
pub struct Group { pub name: String, pub camel: String, pub root: usize, pub version: u16, pub code: u32 }
pub struct Layout { pub structs: Vec<Struct>, pub enums: Vec<Enum>, pub bits: Vec<Bits>, pub groups: Vec<Group>, pub codes: Vec<(String, String, u32)> }

impl Prim {
    /// width of a unit, number of units, floating point
    pub fn shape(self) -> (usize, usize, bool) {
        use Prim::*;
        match self {
            F64 | Angle => (4, 1, true), I8 | U8 => (1, 1, false), I16 | U16 | Index | CFloat => (2, 1, false),
            I32 | U32 | Id | Group | Address | ArgbInt | CVec3 | CVec2 | Script => (4, 1, false),
            Vec2 | Euler2 => (4, 2, true), Vec3 | Euler3 | Plane2 | Rgb => (4, 3, true), Quat | Plane3 | Argb => (4, 4, true), Mat3 => (4, 9, true),
            Vec2Int => (2, 2, false), Rect => (2, 4, false)
        }
    }
}

fn prim(s: &str) -> Option<Prim> {
    use Prim::*;
    Some(match s {
        "f64" => F64, "Angle" => Angle, "i8" => I8, "u8" => U8, "i16" => I16, "u16" => U16, "i32" => I32, "u32" => U32, "Index" => Index, "ID" => Id, "TagGroup" => Group, "Address" => Address,
        "Vector2D" => Vec2, "Vector3D" => Vec3, "Vector2DInt" => Vec2Int, "Rectangle" => Rect, "Plane2D" => Plane2, "Plane3D" => Plane3, "Euler2D" => Euler2, "Euler3D" => Euler3, "Quaternion" => Quat, "Matrix3x3" => Mat3,
        "ColorRGBFloat" => Rgb, "ColorARGBFloat" => Argb, "ColorARGBInt" => ArgbInt, "CompressedVector3D" => CVec3, "CompressedVector2D" => CVec2, "CompressedFloat" => CFloat, "ScenarioScriptNodeValue" => Script, _ => return None
    })
}

pub fn layout() -> &'static Layout {
    static L: OnceLock<Layout> = OnceLock::new();
    L.get_or_init(|| {
        let text = include_str!("../../spec/layout.txt");
        let lines: Vec<Vec<&str>> = text.lines().filter(|l| !l.is_empty()).map(|l| l.split(' ').collect()).collect();
        let mut names: HashMap<&str, Kind> = HashMap::new();
        let (mut s, mut e, mut b) = (0, 0, 0);
        for l in &lines { match l[0] { "struct" => { names.insert(l[1], Kind::Struct(s)); s += 1 }, "enum" => { names.insert(l[1], Kind::Enum(e)); e += 1 }, "bits" => { names.insert(l[1], Kind::Bits(b)); b += 1 }, _ => () } }
        let st = |n: &str| match names[n] { Kind::Struct(i) => i, _ => panic!("{n}") };
        let mut out = Layout { structs: vec![], enums: vec![], bits: vec![], groups: vec![], codes: vec![] };
        for l in &lines {
            match l[0] {
                "struct" => out.structs.push(Struct { name: l[1].into(), size: l[2].parse().unwrap(), fields: vec![] }),
                "pad" => out.structs.last_mut().unwrap().fields.push(Field { off: l[1].parse().unwrap(), size: l[2].parse().unwrap(), rust: String::new(), matcher: String::new(), kind: Kind::Pad, count: Count::One, cache_only: false, non_cached: false, exclude: true, le: false, shifted: false, readonly: false, groups: vec![], default: None }),
                "field" => {
                    let ty = l[5];
                    let kind = match ty { "String32" => Kind::Str32, "TagReference" => Kind::Ref, "Data" => Kind::Data, "FileData" => Kind::FileData, "BSPVertexData" => Kind::BspData, "UTF16String" => Kind::Utf16,
                        _ => if let Some(p) = prim(ty) { Kind::Prim(p) } else if let Some(r) = ty.strip_prefix("Reflexive<") { Kind::List(st(&r[..r.len() - 1])) } else { names[ty] } };
                    let count = match l[6] { "one" => Count::One, "bounds" => Count::Bounds, n => Count::N(n.parse().unwrap()) };
                    let has = |f: &str| l[7].split(',').any(|x| x == f);
                    out.structs.last_mut().unwrap().fields.push(Field { off: l[1].parse().unwrap(), size: l[2].parse().unwrap(), rust: l[3].into(), matcher: l[4].into(), kind, count, cache_only: has("cache_only"), non_cached: has("non_cached"), exclude: has("exclude"), le: has("le"), shifted: has("shifted"), readonly: has("readonly"),
                        groups: if l[8] == "-" { vec![] } else { l[8].split(',').map(String::from).collect() }, default: if l[9] == "-" { None } else { Some(l[9].split(',').map(String::from).collect()) } })
                },
                "enum" => out.enums.push(Enum { name: l[1].into(), options: vec![] }),
                "option" => out.enums.last_mut().unwrap().options.push((l[1].parse().unwrap(), l[2].into(), l[3].into(), l[4] == "exclude")),
                "bits" => out.bits.push(Bits { name: l[1].into(), width: l[2].parse::<usize>().unwrap() / 8, bits: vec![] }),
                "bit" => { let has = |f: &str| l[4].split(',').any(|x| x == f); out.bits.last_mut().unwrap().bits.push((l[1].parse().unwrap(), l[3].into(), has("exclude"), has("cache_only"), has("non_cached"))) },
                "group" => out.groups.push(Group { name: l[1].into(), camel: l[2].into(), root: st(l[3]), version: l[4].parse().unwrap(), code: 0 }),
                "fourcc" => out.codes.push((l[1].into(), l[2].into(), u32::from_str_radix(l[3], 16).unwrap())),
                x => panic!("{x}")
            }
        }
        for g in &mut out.groups { g.code = out.codes.iter().find(|c| c.1 == g.camel).unwrap().2 }
        out
    })
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
}

/// A value of the format, as stored: `Units` are the stored units of a fixed-size value.
#[derive(Clone, PartialEq, Debug)]
pub enum Val { Pad, Units(Vec<u32>), Str([u8; 32]), Ref(u32, Vec<u8>), Bytes(Vec<u8>), Struct(Vec<Val>), List(Vec<Val>) }

#[derive(Copy, Clone, PartialEq)]
pub enum Side { Tag, Map }

pub struct Maker { pub rng: Rng, pub budget: usize, pub paths: Vec<(u32, Vec<u8>)>, pub side: Side, pub wild: bool }

fn units(rng: &mut Rng, p: Prim, wild: bool) -> Vec<u32> {
    let (w, n, f) = p.shape();
    (0..n).map(|_| {
        let r = rng.next() as u32;
        if f {
            let x = match rng.below(8) { 0 => 0, 1 => 0x80000000, 2 => 0x7F800000, 3 => r & 0x807FFFFF, 4 => ((r % 2000) as f32 - 1000.0).to_bits(), _ => r };
            // a NaN is not a value the format defines
            if x & 0x7F800000 == 0x7F800000 && x & 0x7FFFFF != 0 { x & 0xFF800000 } else { x }
        }
        else if p == Prim::Group { let c = &layout().codes; match rng.below(12) { 0 => u32::MAX, _ => c[rng.below(c.len())].2 } }
        else {
            let m = if w == 4 { u32::MAX } else { (1u32 << (8 * w)) - 1 };
            (match rng.below(6) { 0 => 0, 1 => m, 2 => 1 << rng.below(8 * w), _ => r }) & if wild { m } else { m }
        }
    }).collect()
}

impl Maker {
    pub fn new(seed: u64, budget: usize, side: Side) -> Maker {
        let mut rng = Rng(seed);
        let codes = &layout().codes;
        let chars = b"abcdefghijklmnopqrstuvwxyz0123456789_ \\\\";
        let paths = (0..6).map(|i| {
            let n = 1 + rng.below(if i == 0 { 90 } else { 14 });
            let mut p: Vec<u8> = (0..n).map(|_| chars[rng.below(chars.len())]).collect();
            p[0] = b'q'; p[n - 1] = b'q';
            for k in 1..n { if p[k - 1] == b'\\' { p[k] = b'x' } }
            (codes[rng.below(codes.len() - 1)].2, p)
        }).collect();
        Maker { rng, budget, paths, side, wild: true }
    }
    pub fn struct_val(&mut self, s: usize) -> Val {
        let l = layout();
        Val::Struct(l.structs[s].fields.iter().map(|f| self.field_val(f)).collect())
    }
    fn field_val(&mut self, f: &Field) -> Val {
        let l = layout();
        let n = match f.count { Count::One => 1, Count::Bounds => 2, Count::N(n) => n };
        match f.kind {
            Kind::Pad => Val::Pad,
            Kind::Prim(p) => Val::Units((0..n).flat_map(|_| units(&mut self.rng, p, self.wild)).collect()),
            Kind::Enum(e) => {
                let o = &l.enums[e].options;
                let v = match self.rng.below(8) { 0 => self.rng.next() as u32 & 0xFFFF, 1 => o.len() as u32, 2 => o[o.len() - 1].0 as u32, _ => o[self.rng.below(o.len())].0 as u32 };
                // a shifted value is stored one less in a cache file, and must be known
                if f.shifted { let known: Vec<u32> = o.iter().filter(|x| !x.3).map(|x| x.0 as u32).collect(); Val::Units(vec![known[self.rng.below(known.len())]]) } else { Val::Units(vec![v]) }
            },
            Kind::Bits(b) => { let w = l.bits[b].width; let m = if w == 4 { u32::MAX } else { (1 << (8 * w)) - 1 }; Val::Units(vec![m & match self.rng.below(6) { 0 => 0, 1 => u32::MAX, 2 => 1 << self.rng.below(8 * w), _ => self.rng.next() as u32 }]) },
            Kind::Str32 => Val::Str(self.str32()),
            Kind::Struct(s) => { assert!(n == 1); self.struct_val(s) },
            Kind::List(s) => {
                let cost = l.structs[s].size + 16;
                let mut k = match self.rng.below(8) { 0 | 1 => 0, 2 | 3 | 4 => 1, 5 | 6 => 2, _ => 5 };
                k = k.min(self.budget / cost);
                self.budget -= k * cost;
                Val::List((0..k).map(|_| self.struct_val(s)).collect())
            },
            Kind::Ref => {
                if self.budget < 20 || self.rng.below(3) == 0 { let c = &l.codes; Val::Ref(if self.rng.below(9) == 0 { u32::MAX } else { c[self.rng.below(c.len())].2 }, vec![]) }
                else { self.budget -= 20; let p = self.paths[self.rng.below(self.paths.len())].clone(); Val::Ref(p.0, p.1) }
            },
            Kind::Data | Kind::FileData | Kind::BspData | Kind::Utf16 => {
                let k = match self.rng.below(6) { 0 | 1 => 0, 2 => self.rng.below(9), 3 => self.rng.below(200), 4 => 2 * self.rng.below(20), _ => 1 + self.rng.below(3) };
                let k = k.min(self.budget);
                self.budget -= k;
                Val::Bytes((0..k).map(|_| self.rng.u8()).collect())
            }
        }
    }
    fn str32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        let n = match self.rng.below(6) { 0 => 0, 1 => 31, 2 => 32, _ => self.rng.below(20) };
        for x in &mut b[..n] { *x = 33 + self.rng.below(90) as u8 }
        if self.rng.below(4) == 0 { for x in &mut b { if self.rng.below(6) == 0 { *x = self.rng.u8() } } }
        if self.rng.below(8) == 0 { let c = "\u{e9}\u{1F427}"; let k = self.rng.below(27); b[k..k + 6].copy_from_slice(c.as_bytes()) }
        b
    }
}

/// specification of a stored 32-byte string: text up to the NUL (at most 31 bytes), the rest zero, invalid text replaced
pub fn clean_str(b: &[u8; 32]) -> [u8; 32] {
    let n = b.iter().position(|x| *x == 0).unwrap_or(31).min(31);
    let mut out = Vec::new();
    let mut rest = &b[..n];
    loop {
        match std::str::from_utf8(rest) {
            Ok(s) => { out.extend_from_slice(s.as_bytes()); break },
            Err(e) => {
                out.extend_from_slice(&rest[..e.valid_up_to()]);
                out.push(b'_');
                match e.error_len() { Some(k) => rest = &rest[e.valid_up_to() + k..], None => break }
            }
        }
    }
    // an explicit replacement character is also replaced, when anything else was
    let s = if std::str::from_utf8(&b[..n]).is_err() { String::from_utf8(out).unwrap().replace('\u{FFFD}', "_").into_bytes() } else { out };
    let mut r = [0u8; 32];
    r[..s.len()].copy_from_slice(&s);
    r
}

/// the default value of a field
pub fn default_field(f: &Field) -> Val {
    let l = layout();
    let n = match f.count { Count::One => 1, Count::Bounds => 2, Count::N(n) => n };
    match f.kind {
        Kind::Pad => Val::Pad,
        Kind::Prim(p) => Val::Units((0..n).flat_map(|_| { let (_, k, _) = p.shape(); vec![match p { Prim::Index => 0xFFFF, Prim::Id => u32::MAX, _ => 0 }; k] }).collect()),
        Kind::Enum(e) => Val::Units(vec![l.enums[e].options.iter().find(|o| !o.3).unwrap().0 as u32]),
        Kind::Bits(_) => Val::Units(vec![0]),
        Kind::Str32 => Val::Str([0; 32]),
        Kind::Struct(s) => default_struct(s),
        Kind::List(_) => Val::List(vec![]),
        Kind::Ref => Val::Ref(l.codes.iter().find(|c| c.1 == f.groups[0]).unwrap().2, vec![]),
        Kind::Utf16 => Val::Bytes(vec![0, 0]),
        _ => Val::Bytes(vec![])
    }
}
pub fn default_struct(s: usize) -> Val { Val::Struct(layout().structs[s].fields.iter().map(default_field).collect()) }

/// What reading the value on one side gives: fields that side does not store have their default, unknown enumerators
/// the default option, bits without a name are dropped, text is cleaned.
pub fn read_struct(s: usize, v: &Val, side: Side) -> Val {
    let Val::Struct(v) = v else { panic!() };
    Val::Struct(layout().structs[s].fields.iter().zip(v).map(|(f, v)| read_field(f, v, side)).collect())
}
pub fn stored(f: &Field, side: Side) -> bool { f.kind != Kind::Pad && !f.exclude && match side { Side::Tag => !f.cache_only, Side::Map => !f.non_cached } }
fn read_field(f: &Field, v: &Val, side: Side) -> Val {
    let l = layout();
    if !stored(f, side) { return default_field(f) }
    match (f.kind, v) {
        (Kind::Prim(Prim::Group), Val::Units(u)) => Val::Units(u.iter().map(|g| if *g == u32::MAX { 0 } else { *g }).collect()),
        (Kind::Enum(e), Val::Units(u)) => if l.enums[e].options.iter().any(|o| o.0 as u32 == u[0] && !o.3) { v.clone() } else { default_field(f) },
        (Kind::Bits(b), Val::Units(u)) => Val::Units(vec![u[0] & l.bits[b].bits.iter().filter(|x| !x.2 && match side { Side::Tag => !x.3, Side::Map => !x.4 }).map(|x| x.0).fold(0, |a, b| a | b)]),
        (Kind::Str32, Val::Str(s)) => Val::Str(clean_str(s)),
        (Kind::Struct(s), _) => read_struct(s, v, side),
        (Kind::List(s), Val::List(i)) => Val::List(i.iter().map(|v| read_struct(s, v, side)).collect()),
        (Kind::Ref, Val::Ref(g, p)) => Val::Ref(if *g == u32::MAX { 0 } else { *g }, p.clone()),
        _ => v.clone()
    }
}
/// What is left of a value read from a cache file once it has been through a tag file.
pub fn saved_struct(s: usize, v: &Val) -> Val { read_struct(s, v, Side::Tag) }

pub fn put(out: &mut [u8], at: usize, w: usize, v: u32, le: bool) {
    let b = if le { v.to_le_bytes() } else { let mut b = v.to_be_bytes(); b.rotate_left(4 - w); b };
    out[at..at + w].copy_from_slice(&b[..w]);
}

/// Tag file form of a value. `junk`: bytes that carry no meaning in the format are arbitrary, and fields tag files do
/// not store hold arbitrary values; otherwise those bytes are zero and those fields hold their default.
pub fn tag_struct(s: usize, v: &Val, junk: &mut Option<&mut Rng>) -> (Vec<u8>, Vec<u8>) {
    let d = &layout().structs[s];
    let Val::Struct(v) = v else { panic!() };
    let mut head = vec![0u8; d.size];
    if let Some(r) = junk { for b in &mut head { *b = r.u8() } }
    let mut tail = Vec::new();
    for (f, v) in d.fields.iter().zip(v) { tag_field(f, v, junk, &mut head, &mut tail) }
    (head, tail)
}
fn tag_field(f: &Field, v: &Val, junk: &mut Option<&mut Rng>, head: &mut [u8], tail: &mut Vec<u8>) {
    let l = layout();
    // fixed-size values a tag file does not store leave their bytes alone
    if !stored(f, Side::Tag) && !matches!(f.kind, Kind::Struct(_) | Kind::List(_) | Kind::Ref | Kind::Data) { return }
    match (f.kind, v) {
        (Kind::Prim(p), Val::Units(u)) => { let w = p.shape().0; for (i, x) in u.iter().enumerate() { put(head, f.off + i * w, w, *x, f.le) } },
        (Kind::Enum(_), Val::Units(u)) => put(head, f.off, 2, u[0], f.le),
        (Kind::Bits(b), Val::Units(u)) => put(head, f.off, l.bits[b].width, u[0], f.le),
        (Kind::Str32, Val::Str(s)) => head[f.off..f.off + 32].copy_from_slice(s),
        (Kind::Struct(s), _) => { let (h, t) = tag_struct(s, v, junk); head[f.off..f.off + f.size].copy_from_slice(&h); tail.extend(t) },
        (Kind::List(s), Val::List(i)) => {
            put(head, f.off, 4, i.len() as u32, false);
            if junk.is_none() { head[f.off + 4..f.off + 12].fill(0) }
            let parts: Vec<_> = i.iter().map(|v| tag_struct(s, v, junk)).collect();
            for p in &parts { tail.extend(&p.0) }
            for p in &parts { tail.extend(&p.1) }
        },
        (Kind::Ref, Val::Ref(g, p)) => {
            put(head, f.off, 4, *g, false);
            put(head, f.off + 8, 4, p.len() as u32, false);
            if junk.is_none() { put(head, f.off + 4, 4, 0, false); put(head, f.off + 12, 4, u32::MAX, false) }
            if !p.is_empty() { tail.extend(p); tail.push(0) }
        },
        (_, Val::Bytes(b)) => {
            if junk.is_none() { head[f.off..f.off + 20].fill(0) }
            put(head, f.off, 4, b.len() as u32, false);
            tail.extend(b)
        },
        _ => panic!()
    }
}

/// The 64-byte tag file header.
pub fn tag_header(g: &Group, crc: u32) -> Vec<u8> {
    let mut h = vec![0u8; 0x40];
    put(&mut h, 0x24, 4, g.code, false);
    put(&mut h, 0x28, 4, crc, false);
    put(&mut h, 0x2C, 4, 0x40, false);
    put(&mut h, 0x38, 2, g.version as u32, false);
    put(&mut h, 0x3A, 2, 0xFF, false);
    put(&mut h, 0x3C, 4, 0x626C616D, false);
    h
}
/// CRC-32 (reflected, polynomial EDB88320) without the final inversion
pub fn crc(d: &[u8]) -> u32 {
    let mut c = u32::MAX;
    for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } } }
    c
}

/// units of a fixed-size value held in memory
fn units_of(d: &dyn DynamicTagData, p: Prim) -> Option<Vec<u32>> {
    let a = d.as_any();
    let f = |x: f64| (x as f32).to_bits();
    let v2 = |v: &Vector2D| vec![f(v.x), f(v.y)];
    let v3 = |v: &Vector3D| vec![f(v.x), f(v.y), f(v.z)];
    Some(match p {
        Prim::F64 => vec![f(*a.downcast_ref::<f64>()?)], Prim::Angle => vec![a.downcast_ref::<Angle>()?.angle.to_bits()],
        Prim::I8 => vec![*a.downcast_ref::<i8>()? as u8 as u32], Prim::U8 => vec![*a.downcast_ref::<u8>()? as u32], Prim::I16 => vec![*a.downcast_ref::<i16>()? as u16 as u32], Prim::U16 => vec![*a.downcast_ref::<u16>()? as u32],
        Prim::I32 => vec![*a.downcast_ref::<i32>()? as u32], Prim::U32 => vec![*a.downcast_ref::<u32>()?],
        Prim::Index => vec![a.downcast_ref::<Index>()?.map(|x| x as u32).unwrap_or(0xFFFF)], Prim::Id => vec![a.downcast_ref::<ID>()?.as_u32()],
        Prim::Group => { let g = a.downcast_ref::<TagGroup>()?; vec![code_of(*g)] }, Prim::Address => vec![a.downcast_ref::<Address>()?.address],
        Prim::Vec2 => v2(a.downcast_ref()?), Prim::Vec3 => v3(a.downcast_ref()?),
        Prim::Vec2Int => { let v = a.downcast_ref::<Vector2DInt>()?; vec![v.x as u16 as u32, v.y as u16 as u32] },
        Prim::Rect => { let v = a.downcast_ref::<Rectangle>()?; [v.top, v.left, v.bottom, v.right].iter().map(|x| *x as u16 as u32).collect() },
        Prim::Plane2 => { let v = a.downcast_ref::<Plane2D>()?; let mut r = v2(&v.vector); r.push(f(v.d)); r }, Prim::Plane3 => { let v = a.downcast_ref::<Plane3D>()?; let mut r = v3(&v.vector); r.push(f(v.d)); r },
        Prim::Euler2 => { let v = a.downcast_ref::<Euler2D>()?; vec![v.yaw.angle.to_bits(), v.pitch.angle.to_bits()] },
        Prim::Euler3 => { let v = a.downcast_ref::<Euler3D>()?; vec![v.yaw.angle.to_bits(), v.pitch.angle.to_bits(), v.roll.angle.to_bits()] },
        Prim::Quat => { let v = a.downcast_ref::<Quaternion>()?; vec![f(v.x), f(v.y), f(v.z), f(v.w)] },
        Prim::Mat3 => a.downcast_ref::<Matrix3x3>()?.vectors.iter().flat_map(|v| v3(v)).collect(),
        Prim::Rgb => { let v = a.downcast_ref::<ColorRGBFloat>()?; vec![f(v.red), f(v.green), f(v.blue)] }, Prim::Argb => { let v = a.downcast_ref::<ColorARGBFloat>()?; vec![f(v.alpha), f(v.red), f(v.green), f(v.blue)] },
        Prim::ArgbInt => vec![a.downcast_ref::<ColorARGBInt>()?.color], Prim::CVec3 => vec![a.downcast_ref::<CompressedVector3D>()?.data], Prim::CVec2 => vec![a.downcast_ref::<CompressedVector2D>()?.data],
        Prim::CFloat => vec![a.downcast_ref::<CompressedFloat>()?.data as u32], Prim::Script => vec![a.downcast_ref::<ScenarioScriptNodeValue>()?.data]
    })
}
/// code of a group, by the name the format gives it
pub fn code_of(g: TagGroup) -> u32 { let n = format!("{g:?}"); layout().codes.iter().find(|c| c.1 == n).expect("a group of the format").2 }

/// Compare a value in memory with the specified one, leaf by leaf, through the dynamic interface; also compares the
/// names, order and metadata of the fields. Returns the first difference.
pub fn same_struct(s: usize, want: &Val, d: &dyn DynamicTagData, path: &str) -> Result<(), String> {
    let def = &layout().structs[s];
    let Val::Struct(v) = want else { panic!() };
    if d.data_type() != DynamicTagDataType::Block { return Err(format!("{path}: not a block")) }
    let names: Vec<&str> = def.fields.iter().filter(|f| f.kind != Kind::Pad && !f.exclude).map(|f| f.matcher.as_str()).collect();
    if d.fields() != &names[..] { return Err(format!("{path}: fields of {}", def.name)) }
    for (f, v) in def.fields.iter().zip(v) {
        if f.kind == Kind::Pad || f.exclude { continue }
        let path = format!("{path}.{}", f.matcher);
        let x = d.get_field(&f.matcher).ok_or_else(|| format!("{path}: missing"))?;
        let m = d.get_metadata_for_field(&f.matcher).ok_or_else(|| format!("{path}: no metadata"))?;
        if m.read_only != f.readonly || m.cache_only != f.cache_only || m.non_cached != f.non_cached { return Err(format!("{path}: metadata")) }
        match m.allowed_references { Some(r) => if !same_groups(r, &f.groups) { return Err(format!("{path}: allowed references")) }, None => if f.kind == Kind::Ref { return Err(format!("{path}: allowed references")) } }
        same_field(f, v, x, &path)?
    }
    Ok(())
}
/// the same set of groups, and the same preferred one (a field that takes every group prefers none)
fn same_groups(got: &[TagGroup], want: &[String]) -> bool {
    let mut g: Vec<String> = got.iter().map(|g| format!("{g:?}")).collect();
    let mut w = want.to_vec();
    let first = w.len() > 80 || g.first() == w.first();
    g.sort(); g.dedup(); w.sort(); w.dedup();
    first && g == w
}
fn same_field(f: &Field, want: &Val, d: &dyn DynamicTagData, path: &str) -> Result<(), String> {
    let l = layout();
    let bad = |w: String| Err(format!("{path}: {w}, expected {}", { let s = format!("{want:?}"); if s.len() > 300 { s[..300].to_owned() } else { s } }));
    match (f.kind, want) {
        (Kind::Prim(p), Val::Units(u)) => {
            let k = p.shape().1;
            let got: Option<Vec<u32>> = if f.count == Count::One { units_of(d, p) } else {
                match d.as_array() { Some(a) => { let mut o = vec![]; for i in 0..a.len() { match a.get_at_index(i).and_then(|x| units_of(x, p)) { Some(x) => o.extend(x), None => return bad("array element".into()) } } if a.get_at_index(u.len() / k).is_some() { return bad("array length".into()) } Some(o) }, None => None }
            };
            match got { Some(g) if g == *u => Ok(()), g => bad(format!("{g:x?}")) }
        },
        (Kind::Enum(e), Val::Units(u)) => {
            let o = l.enums[e].options.iter().find(|o| o.0 as u32 == u[0] && !o.3).expect("a canonical enumerator");
            match d.as_enum() { Some(x) if x.get_enum_string_value() == o.2 => Ok(()), Some(x) => bad(x.get_enum_string_value().into()), None => bad("not an enumeration".into()) }
        },
        (Kind::Bits(b), Val::Units(u)) => {
            for x in &l.bits[b].bits { if x.2 { continue } match d.get_field(&x.1).and_then(|y| y.as_any().downcast_ref::<bool>().copied()) { Some(y) => if y != (u[0] & x.0 != 0) { return bad(format!("bit {} is {y}", x.1)) }, None => return bad(format!("no bit {}", x.1)) } }
            let n: Vec<&str> = l.bits[b].bits.iter().filter(|x| !x.2).map(|x| x.1.as_str()).collect();
            if d.fields() != &n[..] { return bad("names of bits".into()) }
            Ok(())
        },
        (Kind::Str32, Val::Str(s)) => match d.as_any().downcast_ref::<String32>() { Some(x) => { let n = s.iter().position(|b| *b == 0).unwrap(); if x.as_str().as_bytes() == &s[..n] { Ok(()) } else { bad(format!("{x:?}")) } }, None => bad("not a string".into()) },
        (Kind::Struct(s), _) => same_struct(s, want, d, path),
        (Kind::List(s), Val::List(i)) => {
            let Some(a) = d.as_array() else { return bad("not an array".into()) };
            if a.len() != i.len() { return bad(format!("{} elements", a.len())) }
            for (k, v) in i.iter().enumerate() { same_struct(s, v, a.get_at_index(k).unwrap(), &format!("{path}[{k}]"))? }
            Ok(())
        },
        (Kind::Ref, Val::Ref(g, p)) => match d.as_any().downcast_ref::<TagReference>() {
            Some(TagReference::Null(x)) => if p.is_empty() && code_of(*x) == *g { Ok(()) } else { bad(format!("null {x}")) },
            Some(TagReference::Set(x)) => if x.path().as_bytes() == &p[..] && !p.is_empty() && code_of(x.group()) == *g { Ok(()) } else { bad(format!("{x:?}")) },
            None => bad("not a reference".into())
        },
        (k, Val::Bytes(b)) => {
            let a = d.as_any();
            let got: Option<&[u8]> = match k { Kind::Data => a.downcast_ref::<Data>().map(|x| &x.bytes[..]), Kind::FileData => a.downcast_ref::<FileData>().map(|x| &x.bytes[..]), Kind::BspData => a.downcast_ref::<BSPVertexData>().map(|x| &x.bytes[..]), _ => a.downcast_ref::<UTF16String>().map(|x| x.get_utf16_bytes()) };
            match got { Some(x) if x == &b[..] => Ok(()), x => bad(format!("{:02x?}", x)) }
        },
        _ => panic!()
    }
}
