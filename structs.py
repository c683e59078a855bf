"""Contracts for the code that the struct generator writes, one per structure, from the pinned layout.

The text verified is what rustc is given: the crate ringhopper-structs is expanded from the current source on every run
(rustc's own expansion of the procedural macros), and for each structure the bodies of its TagData (or SimpleTagData)
implementation are copied out. Each is verified on its own, against the contract of tag data for its field types: those
are opaque here, and discharge the same contract in their own right (generated structures in this check, the primitive
types in P04 and P10).
"""
import os, re, hashlib, threading
import extract
from extract import Lost

V = os.path.dirname(os.path.abspath(__file__))
LAYOUT = V + '/spec/layout.txt'

SIZES = {'f64': 4, 'f32': 4, 'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'Angle': 4, 'Index': 2, 'ID': 4, 'Address': 4, 'TagGroup': 4, 'String32': 32,
         'TagReference': 16, 'Data': 20, 'FileData': 20, 'BSPVertexData': 20, 'UTF16String': 20, 'Vector2D': 8, 'Vector3D': 12, 'Vector2DInt': 4, 'Euler2D': 8, 'Euler3D': 12, 'Plane2D': 12, 'Plane3D': 16,
         'Quaternion': 16, 'Rectangle': 8, 'Matrix3x3': 36, 'ColorRGBFloat': 12, 'ColorARGBFloat': 16, 'ColorARGBInt': 4, 'ColorARGBIntBytes': 4, 'CompressedVector2D': 4, 'CompressedVector3D': 4, 'CompressedFloat': 2, 'ScenarioScriptNodeValue': 4}


class Layout:
    def __init__(self):
        self.structs, self.enums, self.bits = {}, {}, {}
        cur = None
        for l in open(LAYOUT):
            w = l.split()
            if not w:
                continue
            if w[0] == 'struct':
                cur = dict(name=w[1], size=int(w[2]), fields=[])
                self.structs[w[1]] = cur
            elif w[0] == 'field':
                flags = [] if w[7] == '-' else w[7].split(',')
                t = w[5] if w[6] == 'one' else f'Bounds<{w[5]}>' if w[6] == 'bounds' else f'[{w[5]}; {w[6]}]'
                cur['fields'].append(dict(groups=[] if w[8] == '-' else w[8].split(','), off=int(w[1]), n=int(w[2]), rust=w[3], base=w[5], ty=t, flags=flags))
            elif w[0] == 'enum':
                cur = dict(name=w[1], options=[])
                self.enums[w[1]] = cur
            elif w[0] == 'option':
                cur['options'].append(w[1:])
            elif w[0] == 'bits':
                cur = dict(name=w[1], width=int(w[2]), bits=[])
                self.bits[w[1]] = cur
            elif w[0] == 'bit':
                cur['bits'].append((int(w[1]), w[2], w[3], [] if w[4] == '-' else w[4].split(',')))

    def size(self, t):
        m = re.match(r'Bounds<(.*)>$', t)
        if m:
            return 2 * self.size(m.group(1))
        m = re.match(r'\[(.*); (\d+)\]$', t)
        if m:
            return self.size(m.group(1)) * int(m.group(2))
        if t.startswith('Reflexive<'):
            return 12
        if t in SIZES:
            return SIZES[t]
        if t in self.structs:
            return self.structs[t]['size']
        if t in self.enums:
            return 2
        if t in self.bits:
            return self.bits[t]['width'] // 8
        raise Lost(f'unknown type {t}')

    def composite(self, f):
        b = f['base']
        return b in self.structs or b.startswith('Reflexive<') or b in ('Data', 'FileData', 'BSPVertexData', 'UTF16String', 'TagReference')

    def unsaved(self, f):
        return 'cache_only' in f['flags'] or 'exclude' in f['flags']

    def uncached(self, f):
        return 'non_cached' in f['flags'] or 'exclude' in f['flags']


class Expanded:
    """The expanded source of ringhopper-structs."""
    def __init__(self, text):
        self.src = text
        self.b = extract.blank(text)
        self.impls = {}
        for m in re.finditer(r'^impl (?:::core::default::)?(TagData|SimpleTagData|Default|TryFrom<u16>|From<\w+>)\s+for\s+(\w+)\s+\{', self.b, re.M):
            o = m.end() - 1
            self.impls[(m.group(1), m.group(2))] = (o + 1, extract.close(self.b, o))
        self.defs = {m.group(2): (m.group(1), m.end()) for m in re.finditer(r'^pub (struct|enum) (\w+) (?=\{)', self.b, re.M)}

    def fields(self, name):
        k, o = self.defs[name]
        t = self.src[o + 1:extract.close(self.b, o)]
        t = re.sub(r'#\[(?:"(?:[^"\\]|\\.)*"|[^\]"])*\]', '', extract.nocomment(t))
        out, d, p = [], 0, 0
        for i, c in enumerate(t + ','):
            if c in '<[(':
                d += 1
            elif c in '>])':
                d -= 1
            elif c == ',' and d == 0:
                x = t[p:i].strip()
                p = i + 1
                if x:
                    m = re.match(r'(?:pub\s+)?(\w+|r#\w+)\s*:\s*(.*)$', x, re.S)
                    out.append((m.group(1), extract.squash(m.group(2))))
        return out

    def method(self, trait, name, fn):
        if (trait, name) not in self.impls:
            raise Lost(f'no {trait} for {name}')
        a, z = self.impls[(trait, name)]
        m = re.compile(rf'\bfn {fn}\b').search(self.b, a, z)
        if not m:
            raise Lost(f'no {fn} in {trait} for {name}')
        o = extract.body_open(self.b, m.start())
        return self.src[m.start():o].strip(), extract.nocomment(self.src[o + 1:extract.close(self.b, o)])

    def kind(self, name):
        return 'TagData' if ('TagData', name) in self.impls else 'SimpleTagData' if ('SimpleTagData', name) in self.impls else None


PRELUDE = '''
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct Error { pub e: u8 }
type RinghopperResult<T> = Result<T, Error>;
pub trait ByteOrder { spec fn big() -> bool; }
pub struct BigEndian;
pub struct LittleEndian;
impl ByteOrder for BigEndian { open spec fn big() -> bool { true } }
impl ByteOrder for LittleEndian { open spec fn big() -> bool { false } }
/// d with x written at position at
#[verifier::opaque] pub open spec fn put(d: Seq<u8>, at: int, x: Seq<u8>) -> Seq<u8> { d.take(at) + x + d.skip(at + x.len()) }
/// one after the other
#[verifier::opaque] pub open spec fn cat(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a + b }
/// part of d
#[verifier::opaque] pub open spec fn cut(d: Seq<u8>, at: int, n: int) -> Seq<u8> { d.subrange(at, at + n) }
/// what a map holds
#[verifier::external_body] pub struct MapView { x: u8 }
pub trait Map: Sized { spec fn view(&self) -> MapView; }
#[verifier::external_body] pub struct DomainType { x: u8 }
pub trait OverflowCheck: Sized { spec fn n(&self) -> nat; fn add_overflow_checked(self, other: Self) -> (r: RinghopperResult<Self>) ensures match r { Ok(x) => x.n() == self.n() + other.n(), Err(_) => self.n() + other.n() > usize::MAX }; }
impl OverflowCheck for usize { open spec fn n(&self) -> nat { *self as nat }
    fn add_overflow_checked(self, other: Self) -> (r: RinghopperResult<Self>) { match self.checked_add(other) { Some(x) => Ok(x), None => Err(Error { e: 0 }) } } }

/// Values of one size. sput: the bytes it leaves where o was. smeans: the bytes b, read in the given order, may be read as x; sbad: they are refused.
pub trait SimpleTagData: Sized {
    spec fn ssz() -> nat;
    spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8>;
    spec fn sok(&self) -> bool;
    spec fn sbad(b: Seq<u8>, big: bool) -> bool;
    spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool;
    proof fn slaw(&self, o: Seq<u8>, big: bool) requires o.len() == Self::ssz() ensures self.sput(o, big).len() == Self::ssz();
    fn simple_size() -> (r: usize) ensures r == Self::ssz();
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>)
        requires at + Self::ssz() <= struct_end <= data@.len()
        ensures match r { Ok(x) => !Self::sbad(cut(data@, at as int, Self::ssz() as int), B::big()) && Self::smeans(cut(data@, at as int, Self::ssz() as int), B::big(), x), Err(_) => Self::sbad(cut(data@, at as int, Self::ssz() as int), B::big()) };
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>)
        requires at + Self::ssz() <= struct_end <= old(data)@.len()
        ensures final(data)@.len() == old(data)@.len(), r is Ok <==> self.sok(), r is Ok ==> final(data)@ == put(old(data)@, at as int, self.sput(cut(old(data)@, at as int, Self::ssz() as int), B::big()));
}
/// Tag data of any size.
pub trait TagData: Sized {
    /// size in the structure
    spec fn sz() -> nat;
//file:    /// it can be stored in a tag file
//file:    spec fn ok(&self) -> bool;
//file:    /// the bytes it leaves in the structure where o was
//file:    spec fn head(&self, o: Seq<u8>) -> Seq<u8>;
//file:    /// the bytes it appends
//file:    spec fn tail(&self) -> Seq<u8>;
//file:    spec fn tlen(&self) -> nat;
//file:    /// where reading it from a tag file leaves the cursor; None: it is refused
//file:    spec fn next(d: Seq<u8>, at: int, end: int, c: int) -> Option<int>;
//file:    /// it may be read as x there
//file:    spec fn means(d: Seq<u8>, at: int, end: int, c: int, x: Self) -> bool;
//map:    /// a map holds it at an address
//map:    spec fn in_map(m: MapView, a: int, t: DomainType) -> bool;
//map:    /// what a map holds there may be read as x
//map:    spec fn map_means(m: MapView, a: int, t: DomainType, x: Self) -> bool;
//file:    proof fn law(&self, o: Seq<u8>) requires o.len() == Self::sz() ensures self.head(o).len() == Self::sz();
//file:    proof fn tlaw(&self) ensures self.tail().len() == self.tlen();
    fn size() -> (r: usize) ensures r == Self::sz();
//file:    fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>)
//file:        requires at + Self::sz() <= struct_end <= data@.len()
//file:        ensures match r { Ok(x) => Self::next(data@, at as int, struct_end as int, *old(extra_data_cursor) as int) == Some(*final(extra_data_cursor) as int) && Self::means(data@, at as int, struct_end as int, *old(extra_data_cursor) as int, x),
//file:            Err(_) => Self::next(data@, at as int, struct_end as int, *old(extra_data_cursor) as int) is None };
//file:    fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>)
//file:        requires at + Self::sz() <= struct_end <= old(data)@.len()
//file:        ensures
//file:            r is Ok ==> self.ok() && final(data)@ == put(old(data)@, at as int, self.head(cut(old(data)@, at as int, Self::sz() as int))) + self.tail(),
//file:            r is Err ==> !self.ok() || old(data)@.len() + self.tlen() > usize::MAX;
//map:    fn read_from_map<M: Map>(map: &M, address: usize, domain_type: &DomainType) -> (r: RinghopperResult<Self>)
//map:        ensures match r { Ok(x) => Self::in_map(map.view(), address as int, *domain_type) && Self::map_means(map.view(), address as int, *domain_type, x), Err(_) => !Self::in_map(map.view(), address as int, *domain_type) };
}
/// what a field holds that is not read
pub trait Default: Sized { spec fn dflt(x: Self) -> bool; fn default() -> (r: Self) ensures Self::dflt(r); }

// field types: opaque. Their contract is discharged where they are defined.
pub uninterp spec fn ok_<T>(x: T) -> bool;
pub uninterp spec fn sok_<T>(x: T) -> bool;
pub uninterp spec fn head_<T>(x: T, o: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn tail_<T>(x: T) -> Seq<u8>;
pub uninterp spec fn tlen_<T>(x: T) -> nat;
pub uninterp spec fn bad_<T>(b: Seq<u8>) -> bool;
pub uninterp spec fn val_<T>(b: Seq<u8>, x: T) -> bool;
pub uninterp spec fn next_<T>(d: Seq<u8>, at: int, end: int, c: int) -> Option<int>;
pub uninterp spec fn means_<T>(d: Seq<u8>, at: int, end: int, c: int, x: T) -> bool;
pub uninterp spec fn in_map_<T>(m: MapView, a: int, t: DomainType) -> bool;
pub uninterp spec fn map_means_<T>(m: MapView, a: int, t: DomainType, x: T) -> bool;
pub uninterp spec fn sput_<T>(x: T, o: Seq<u8>, big: bool) -> Seq<u8>;
pub uninterp spec fn sbad_<T>(b: Seq<u8>, big: bool) -> bool;
pub uninterp spec fn smeans_<T>(b: Seq<u8>, big: bool, x: T) -> bool;
pub uninterp spec fn dflt_<T>(x: T) -> bool;

/// A structure of sz bytes at position at of d0 being written: h so far, of off bytes, with t appended.
#[verifier::opaque] pub open spec fn wr(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>) -> bool { 0 <= at && at + sz <= d0.len() && h.len() == off && 0 <= off <= sz && d == put(d0, at, h) + t }
proof fn wstart(d: Seq<u8>, at: int, sz: int) requires 0 <= at, 0 <= sz, at + sz <= d.len() ensures wr(d, at, sz, Seq::empty(), 0, Seq::empty(), d), cut(d, at, sz).len() == sz { reveal(put); reveal(cut); reveal(wr); assert(d =~= put(d, at, Seq::empty()) + Seq::<u8>::empty()); }
proof fn wlook(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>, n: int) requires wr(d0, at, sz, h, off, t, d), 0 <= n, off + n <= sz
    ensures cut(d, at + off, n) == cut(cut(d0, at, sz), off, n), cut(d, at + off, n).len() == n, d.len() == d0.len() + t.len() {
    reveal(put); reveal(cut); reveal(wr); assert(cut(d, at + off, n) =~= cut(cut(d0, at, sz), off, n)); }
proof fn wfield(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>, x: Seq<u8>, t2: Seq<u8>, d2: Seq<u8>)
    requires wr(d0, at, sz, h, off, t, d), off + x.len() <= sz, d2 == put(d, at + off, x) + t2
    ensures wr(d0, at, sz, cat(h, x), off + x.len(), cat(t, t2), d2), cat(t, t2).len() == t.len() + t2.len() {
    reveal(put); reveal(cat); reveal(wr); assert(put(d0, at, h + x) + (t + t2) =~= put(put(d0, at, h) + t, at + off, x) + t2); }
proof fn wleaf(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>, x: Seq<u8>, d2: Seq<u8>)
    requires wr(d0, at, sz, h, off, t, d), off + x.len() <= sz, d2 == put(d, at + off, x)
    ensures wr(d0, at, sz, cat(h, x), off + x.len(), t, d2) {
    reveal(put); reveal(cat); reveal(wr); assert(put(d0, at, h + x) + t =~= put(put(d0, at, h) + t, at + off, x)); }
proof fn wpad(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>, n: int) requires wr(d0, at, sz, h, off, t, d), 0 <= n, off + n <= sz
    ensures wr(d0, at, sz, cat(h, cut(cut(d0, at, sz), off, n)), off + n, t, d) {
    reveal(put); reveal(cut); reveal(cat); reveal(wr); assert(put(d0, at, h + cut(cut(d0, at, sz), off, n)) + t =~= put(d0, at, h) + t); }
proof fn wend(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, t: Seq<u8>, d: Seq<u8>) requires wr(d0, at, sz, h, off, t, d) ensures d == put(d0, at, h) + t { reveal(wr); }
proof fn wends(d0: Seq<u8>, at: int, sz: int, h: Seq<u8>, off: int, d: Seq<u8>) requires wr(d0, at, sz, h, off, Seq::empty(), d) ensures d == put(d0, at, h), d.len() == d0.len() { reveal(wr); reveal(put); assert(d =~= put(d0, at, h)); }
proof fn plus_nothing(d: Seq<u8>) ensures d + Seq::<u8>::empty() == d { assert(d + Seq::<u8>::empty() =~= d); }
proof fn ccut(d: Seq<u8>, at: int, n: int, off: int, k: int) requires 0 <= at, 0 <= off, 0 <= k, off + k <= n, at + n <= d.len() ensures cut(cut(d, at, n), off, k) == cut(d, at + off, k) { reveal(cut); assert(cut(cut(d, at, n), off, k) =~= cut(d, at + off, k)); }
proof fn lcat(h: Seq<u8>, x: Seq<u8>) ensures cat(h, x).len() == h.len() + x.len() { reveal(cat); }
proof fn lcut(h: Seq<u8>, off: int, n: int) requires 0 <= off, 0 <= n, off + n <= h.len() ensures cut(h, off, n).len() == n { reveal(cut); }
'''


LEAF = re.compile(r'(Reflexive<|Data$|FileData$|BSPVertexData$|UTF16String$|TagReference$)')


def leaf(L, t):
    return not LEAF.match(t) and base_types(t) not in L.structs and not LEAF.match(base_types(t))


def only(part, text):
    """the lines of one part of the contract: file (reading and writing tag files) or map (reading from maps)"""
    other = {'file': 'map', 'map': 'file'}[part]
    return ''.join(l.removeprefix(f'//{part}:') for l in text.splitlines(True) if not l.startswith(f'//{other}:'))


def stub(L, X, t, part):
    n = L.size(t)
    if leaf(L, t) or X.kind(t) == 'SimpleTagData':
        tail = 'open spec fn tail(&self) -> Seq<u8> { Seq::empty() } open spec fn tlen(&self) -> nat { 0 }'
        nxt = f'if bad_::<Self>(cut(d, at, {n})) {{ None }} else {{ Some(c) }}'
        means = f'val_(cut(d, at, {n}), x)'
    else:
        tail = 'open spec fn tail(&self) -> Seq<u8> { tail_(*self) } open spec fn tlen(&self) -> nat { tlen_(*self) }'
        nxt, means = 'next_::<Self>(d, at, end, c)', 'means_(d, at, end, c, x)'
    mm = 'x == u16_at(m, a, t)' if t == 'u16' else 'map_means_(m, a, t, x)'
    return only(part, f'''impl TagData for {t} {{
    open spec fn sz() -> nat {{ {n} }}
//file:    open spec fn ok(&self) -> bool {{ ok_(*self) }} open spec fn head(&self, o: Seq<u8>) -> Seq<u8> {{ head_(*self, o) }} {tail}
//file:    open spec fn next(d: Seq<u8>, at: int, end: int, c: int) -> Option<int> {{ {nxt} }} open spec fn means(d: Seq<u8>, at: int, end: int, c: int, x: Self) -> bool {{ {means} }}
//map:    open spec fn in_map(m: MapView, a: int, t: DomainType) -> bool {{ in_map_::<Self>(m, a, t) }} open spec fn map_means(m: MapView, a: int, t: DomainType, x: Self) -> bool {{ {mm} }}
//file:    #[verifier::external_body] proof fn law(&self, o: Seq<u8>) {{}}
//file:    #[verifier::external_body] proof fn tlaw(&self) {{}}
    #[verifier::external_body] fn size() -> (r: usize) {{ unimplemented!() }}
//file:    #[verifier::external_body] fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
//file:    #[verifier::external_body] fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ unimplemented!() }}
//map:    #[verifier::external_body] fn read_from_map<M: Map>(map: &M, address: usize, domain_type: &DomainType) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
}}
''')


def simple_stub(L, t):
    n = L.size(t)
    return f'''impl SimpleTagData for {t} {{
    open spec fn ssz() -> nat {{ {n} }} open spec fn sok(&self) -> bool {{ sok_(*self) }} open spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8> {{ sput_(*self, o, big) }} open spec fn sbad(b: Seq<u8>, big: bool) -> bool {{ sbad_::<Self>(b, big) }} open spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool {{ smeans_(b, big, x) }}
    #[verifier::external_body] proof fn slaw(&self, o: Seq<u8>, big: bool) {{}}
    #[verifier::external_body] fn simple_size() -> (r: usize) {{ unimplemented!() }}
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ unimplemented!() }}
}}
'''


def dflt_stub(t):
    return f'impl Default for {t} {{ open spec fn dflt(x: Self) -> bool {{ x == dval_::<Self>() }} #[verifier::external_body] fn default() -> (r: Self) {{ unimplemented!() }} }}\n'


def pos(a, off):
    return f'{a} as int' if off == 0 else f'{a} + {off}'


class Gen:
    """Text for one structure: (definition, specification and code)."""
    def __init__(self, L, X, name, part):
        self.part = part
        self.L, self.X, self.s, self.name = L, X, L.structs[name], name
        self.stubs, self.simple, self.dflts, self.groups, self.tries = set(), set(), set(), set(), set()
        self.kind = X.kind(name)
        if self.kind is None:
            raise Lost(f'{name} is not tag data')
        self.primary = any(f == 'metadata' for f, _ in X.fields(name))
        self.rewrites = []

    def use(self, t):
        self.stubs.add(t)
        return t

    def struct(self):
        fs = self.X.fields(self.name)
        return f'pub struct {self.name} {{ ' + ' '.join(f'pub {f}: {t},' for f, t in fs) + ' }\n'

    # ---- specification, from the layout alone
    def null(self, f):
        return f'TagReference::Null(TagGroup::{f["groups"][0]})'

    def spec_dflt(self):
        out = []
        if self.primary:
            out.append('<PrimaryTagStructMetadata as Default>::dflt(x.metadata)')
        for f in self.s['fields']:
            if 'exclude' in f['flags']:
                continue
            if f['base'] == 'TagReference':
                out.append(f'x.{f["rust"]} is Null' if len(f['groups']) > 80 else f'x.{f["rust"]} == {self.null(f)}')
                self.groups.add(f['groups'][0])
            else:
                out.append(f'<{f["ty"]} as Default>::dflt(x.{f["rust"]})')
        return ' && '.join(out) or 'true'

    def field_dflt(self, f):
        if f['base'] == 'TagReference':
            self.groups.add(f['groups'][0])
            return f'x.{f["rust"]} is Null' if len(f['groups']) > 80 else f'x.{f["rust"]} == {self.null(f)}'
        return f'<{f["ty"]} as Default>::dflt(x.{f["rust"]})'

    def flat(self, t):
        """fixed size, nothing appended"""
        return leaf(self.L, t) or self.X.kind(t) == 'SimpleTagData'

    def fields_and_gaps(self):
        p = 0
        for f in self.s['fields'] + [None]:
            e = f['off'] if f else self.s['size']
            if e > p:
                yield p, e - p, None
            if f:
                yield f['off'], f['n'], f
                p = f['off'] + f['n']

    def specs(self):
        L, n = self.L, self.s['size']
        head, tail, tlen, ok, nxt, means, mok, mmeans, law, tlaw = [], [], [], [], [], [], [], [], [], []
        k = 0

        skipped = [0, 0]  # bytes not written, up to here

        def gap(off, sz):
            if skipped[1] == 0:
                skipped[0] = off
            skipped[1] += sz

        def endgap():
            off, sz = skipped
            if sz:
                head.append(f'let h = cat(h, cut(o, {off}, {sz}));')
                law.append(f'lcut(o, {off}, {sz}); lcat(h, cut(o, {off}, {sz}));')
                skipped[1] = 0
        for off, sz, f in self.fields_and_gaps():
            if f is None:
                gap(off, sz)
                continue
            if not L.unsaved(f) or L.composite(f):
                endgap()
            t, r = f['ty'], f['rust']
            un, comp, le = L.unsaved(f), L.composite(f), 'le' in f['flags']
            if un and not comp:
                gap(off, sz)
                if 'exclude' not in f['flags']:
                    means.append(self.field_dflt(f))
            elif le:
                self.simple.add(t)
                x = f'self.{r}.sput(cut(o, {off}, {sz}), false)'
                head.append(f'let h = cat(h, {x});')
                law.append(f'lcut(o, {off}, {sz}); self.{r}.slaw(cut(o, {off}, {sz}), false); lcat(h, {x});')
                ok.append(f'self.{r}.sok()')
                b = f'cut(d, {pos("at", off)}, {sz})'
                nxt.append((None, f'!<{t} as SimpleTagData>::sbad({b}, false)'))
                means.append(f'<{t} as SimpleTagData>::smeans({b}, false, x.{r})')
            else:
                e = f'self.{r}'
                if un:
                    e = self.null(f) if f['base'] == 'TagReference' else f'dval_::<{t}>()'
                    if f['base'] == 'TagReference':
                        self.groups.add(f['groups'][0])
                x = f'{e}.head(cut(o, {off}, {sz}))'
                head.append(f'let h = cat(h, {x});')
                law.append(f'lcut(o, {off}, {sz}); {e}.law(cut(o, {off}, {sz})); lcat(h, {x});')
                ok.append(f'{e}.ok()')
                c = 'c' if k == 0 else f'(c{k}->0)'
                if self.flat(t):
                    nxt.append((None, f'!bad_::<{t}>(cut(d, {pos("at", off)}, {sz}))'))
                    m = f'val_(cut(d, {pos("at", off)}, {sz}), x.{r})'
                else:
                    k += 1
                    tail.append(f'{e}.tail()')
                    tlen.append(f'{e}.tlen()')
                    tlaw.append(f'{e}.tlaw(); lcat(t, {e}.tail()); let t = cat(t, {e}.tail());')
                    nxt.append((f'let c{k} = <{t} as TagData>::next(d, {pos("at", off)}, end, {c});', f'c{k} is Some'))
                    m = f'<{t} as TagData>::means(d, {pos("at", off)}, end, {c}, x.{r})'
                if not un:
                    means.append(m)
                elif 'exclude' not in f['flags']:
                    means.append(self.field_dflt(f))
            if L.uncached(f):
                if 'exclude' not in f['flags']:
                    mmeans.append(self.field_dflt(f))
            elif 'shifted' in f['flags']:
                mok.append(f'in_map_::<u16>(m, {pos("a", off)}, t) && as_::<{t}>(wrap(u16_at(m, {pos("a", off)}, t))) is Some')
                mmeans.append(f'as_::<{t}>(wrap(u16_at(m, {pos("a", off)}, t))) == Some(x.{r})')
                self.tries.add(t)
                self.use('u16')
            else:
                mok.append(f'<{t} as TagData>::in_map(m, {pos("a", off)}, t)')
                mmeans.append(f'<{t} as TagData>::map_means(m, {pos("a", off)}, t, x.{r})')
        endgap()
        if self.primary:
            for l in (means, mmeans):
                l.append('<PrimaryTagStructMetadata as Default>::dflt(x.metadata)')
        lets = ' '.join(x for x, _ in nxt if x)
        conds = ' && '.join(y for _, y in nxt) or 'true'
        last = f'c{k}' if k else 'Some(c)'
        return only(self.part, f'''    open spec fn sz() -> nat {{ {n} }}
//file:    open spec fn ok(&self) -> bool {{ {" && ".join(ok) or "true"} }}
//file:    open spec fn head(&self, o: Seq<u8>) -> Seq<u8> {{ let h = Seq::<u8>::empty(); {" ".join(head)} h }}
//file:    open spec fn tail(&self) -> Seq<u8> {{ let t = Seq::<u8>::empty(); {" ".join(f"let t = cat(t, {x});" for x in tail)} t }}
//file:    open spec fn tlen(&self) -> nat {{ {" + ".join(tlen) or "0"} }}
//file:    open spec fn next(d: Seq<u8>, at: int, end: int, c: int) -> Option<int> {{ {lets} if {conds} {{ {last} }} else {{ None }} }}
//file:    open spec fn means(d: Seq<u8>, at: int, end: int, c: int, x: Self) -> bool {{ {lets} {" && ".join(means) or "true"} }}
//map:    open spec fn in_map(m: MapView, a: int, t: DomainType) -> bool {{ a + {n} <= usize::MAX && {" && ".join(mok) or "true"} }}
//map:    open spec fn map_means(m: MapView, a: int, t: DomainType, x: Self) -> bool {{ {" && ".join(mmeans) or "true"} }}
//file:    proof fn law(&self, o: Seq<u8>) {{ let h = Seq::<u8>::empty(); {" ".join(a + " " + b for a, b in zip(law, head))} }}
//file:    proof fn tlaw(&self) {{ let t = Seq::<u8>::empty(); {" ".join(tlaw)} }}
''')

    # ---- code, from the source
    WRITE = re.compile(r'((?:[\w.]|<[^;]*?>::default\(\)|TagReference::Null\(TagGroup::\w+\))+?)\s*\.\s*(write_to_tag_file\(\s*data\s*,\s*_pos\s*,\s*struct_end\s*\)|write::<(?:LittleEndian|B)>\(\s*data\s*,\s*_pos\s*,\s*struct_end\s*\))\?;')

    def rtype(self, e):
        m = re.match(r'self\.(\w+)$', e)
        if m:
            return dict(self.X.fields(self.name))[m.group(1)]
        m = re.match(r'<(.*)>::default\(\)$', e)
        if m:
            return extract.squash(m.group(1))
        return 'TagReference'

    STEP = re.compile(r'let\s+_pos\s*=\s*_pos\s*\.\s*add_overflow_checked\(\s*(\d+)\s*\)\?\s*;')

    def write(self, body):
        """The statements as they are, with a ghost step for every field written and every gap left."""
        sz, out, p, k, j, off, written = self.s['size'], [], 0, 0, 0, 0, 0
        ev = sorted([(m.start(), 'w', m) for m in self.WRITE.finditer(body)] + [(m.start(), 's', m) for m in self.STEP.finditer(body)], key=lambda x: x[0])
        for _, kind, m in ev:
            out.append(body[p:m.start()])
            p = m.end()
            at = f'd0, at as int, {sz}, h{k}, {written}, t{j}, data@'
            if kind == 's':
                off += int(m.group(1))
                out.append(m.group(0) + (f' proof {{ assert(_pos == at + {off}); }}' if off else ''))
                continue
            e = extract.squash(m.group(1))
            t = self.rtype(e)
            le = 'write::<' in m.group(2)
            big = 'false' if 'LittleEndian' in m.group(2) else 'B::big()'
            n = self.L.size(t)
            if not e.startswith('self.'):
                out.append(f'let w{k} = {e}; ')
                e = f'w{k}'
                self.rewrites.append(f'{self.name}: a value is named before write_to_tag_file')
            if written > off:
                raise Lost(f'{self.name}: fields overlap')
            if off > written:
                out.append(f'proof {{ wpad({at}, {off - written}); }} let ghost h{k + 1} = cat(h{k}, cut(o, {written}, {off - written}));\n        ')
                k, written = k + 1, off
                at = f'd0, at as int, {sz}, h{k}, {written}, t{j}, data@'
            x = f'{e}.sput(cut(o, {off}, {n}), {big})' if le else f'{e}.head(cut(o, {off}, {n}))'
            law = f'{e}.slaw(cut(o, {off}, {n}), {big});' if le else f'{e}.law(cut(o, {off}, {n}));'
            flat = le or self.flat(t)
            out.append(f'''let ghost d{k} = data@; proof {{ wlook({at}, {n}); {law} {"" if flat else e + ".tlaw();"} }}
        {e}.{m.group(2)}?; let ghost h{k + 1} = cat(h{k}, {x}); ''')
            at = f'd0, at as int, {sz}, h{k}, {off}, t{j}, d{k}, {x}'
            if flat:
                out.append(f'proof {{ {"" if le else f"plus_nothing(put(d{k}, at + {off}, {x}));"} wleaf({at}, data@); }}')
            else:
                out.append(f'let ghost t{j + 1} = cat(t{j}, {e}.tail()); proof {{ wfield({at}, {e}.tail(), data@); }}')
                j += 1
            k, written = k + 1, off + n
        if sz > written:
            out.append(f'proof {{ wpad(d0, at as int, {sz}, h{k}, {written}, t{j}, data@, {sz - written}); }} let ghost h{k + 1} = cat(h{k}, cut(o, {written}, {sz - written}));\n        ')
            k, written = k + 1, sz
        wend = 'wends' if self.kind == 'SimpleTagData' else 'wend'
        tl = '' if self.kind == 'SimpleTagData' else f't{j}, '
        out.append(re.sub(r'Ok\(\(\)\)\s*$', f'proof {{ {wend}(d0, at as int, {sz}, h{k}, {written}, {tl}data@); }} Ok(())', body[p:]))
        rest = self.WRITE.sub('', body)
        if re.search(r'write|add_overflow', self.STEP.sub('', rest)):
            raise Lost(f'{self.name}: unexpected statement in write_to_tag_file')
        return f'let ghost d0 = data@; let ghost o = cut(d0, at as int, {sz}); let ghost h0 = Seq::<u8>::empty(); let ghost t0 = Seq::<u8>::empty(); proof {{ wstart(d0, at as int, {sz}); }}\n' + ''.join(out)

    def assigns(self, body):
        """output.f = e; ... Ok(output)  to  let f_ = e; ... Ok(Self { f: f_, ..output }): the fields are not read in between."""
        names = []

        def one(m):
            if m.group(1) not in names:
                names.append(m.group(1))
            return f'let out_{m.group(1).removeprefix("r#")} = '
        t = re.sub(r'\boutput\s*\.\s*((?:r#)?\w+)\s*=(?!=)\s*', one, body)
        t, n = re.subn(r'\bOk\(output\)\s*$', lambda m: 'Ok(Self { ' + ', '.join(f'{f}: out_{f.removeprefix("r#")}' for f in names) + (', ' if names else '') + '..output })', t)
        if n != 1 or len(re.findall(r'\boutput\b', t)) != 2 or not names:
            return body
        fields = {f for f, _ in self.X.fields(self.name)}
        if fields == set(names):
            t = t.replace(', ..output })', ' })')
        self.rewrites.append(f'{self.name}: values read are put in the structure at the end instead of one by one')
        return t

    def steps(self, body, start):
        """states the position after every step"""
        off = 0

        def one(m):
            nonlocal off
            off += int(m.group(1))
            return m.group(0) + (f' proof {{ assert(_pos == {start} + {off}); }}' if off else '')
        return self.STEP.sub(one, body)

    def code(self):
        m = lambda f: self.X.method('TagData', self.name, f)
        size, bsize = m('size')
        rd = wr = mp = ''
        if self.part == 'file':
            _, rd = m('read_from_tag_file')
            _, wr = m('write_to_tag_file')
        else:
            _, mp = m('read_from_map')
        rd, mp = self.steps(self.assigns(rd), 'at'), self.steps(self.assigns(mp), 'address')
        mp, n = re.subn(r'\.try_into\(\)', '.try_into_()', mp)
        if n:
            self.rewrites.append(f'{self.name}: TryFrom<u16> is called by its contract')
        _, df = self.X.method('Default', self.name, 'default')
        self.groups |= set(re.findall(r'TagGroup::(\w+)', rd + wr + mp + df))
        if self.part == 'file':
            wr = self.write(wr)
            return f'''    fn size() -> (r: usize) {{ {bsize} }}
    fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>) {{ {rd} }}
    fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ {wr} }}
''', df
        return f'''    fn size() -> (r: usize) {{ {bsize} }}
    fn read_from_map<M: Map>(map: &M, address: usize, domain_type: &DomainType) -> (r: RinghopperResult<Self>) {{ {mp} }}
''', df

    def text(self):
        for f in self.s['fields']:
            f.setdefault('groups', [])
            self.use(f['ty'])
        for _, t in self.X.fields(self.name):
            if t != 'PrimaryTagStructMetadata':
                self.use(t)
        sp = self.specs()
        co, df = self.code()
        dd = self.spec_dflt()
        return (self.struct() + f'impl TagData for {self.name} {{\n{sp}{co}}}\n'
                f'impl Default for {self.name} {{ open spec fn dflt(x: Self) -> bool {{ {dd} }}\n    fn default() -> (r: Self) {{ {df} }} }}\n')


class GenSimple(Gen):
    """The same for a structure that appends nothing, written in either byte order."""
    def specs(self):
        L, n = self.L, self.s['size']
        head, ok, bad, means, law = [], [], [], [], []
        for off, sz, f in self.fields_and_gaps():
            if f is None:
                head.append(f'let h = cat(h, cut(o, {off}, {sz}));')
                law.append(f'lcut(o, {off}, {sz}); lcat(h, cut(o, {off}, {sz}));')
                continue
            t, r, big = f['ty'], f['rust'], 'false' if 'le' in f['flags'] else 'big'
            if L.unsaved(f) or L.uncached(f) or 'shifted' in f['flags']:
                raise Lost(f'{self.name}.{r}: fields stored in one kind of file are not expected in a structure of this kind')
            self.simple.add(t)
            x = f'self.{r}.sput(cut(o, {off}, {sz}), {big})'
            head.append(f'let h = cat(h, {x});')
            law.append(f'lcut(o, {off}, {sz}); self.{r}.slaw(cut(o, {off}, {sz}), {big}); lcat(h, {x});')
            ok.append(f'self.{r}.sok()')
            bad.append(f'<{t} as SimpleTagData>::sbad(cut(b, {off}, {sz}), {big})')
            means.append(f'<{t} as SimpleTagData>::smeans(cut(b, {off}, {sz}), {big}, x.{r})')
        return f'''    open spec fn ssz() -> nat {{ {n} }}
    open spec fn sok(&self) -> bool {{ {" && ".join(ok) or "true"} }}
    open spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8> {{ let h = Seq::<u8>::empty(); {" ".join(head)} h }}
    open spec fn sbad(b: Seq<u8>, big: bool) -> bool {{ {" || ".join(bad) or "false"} }}
    open spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool {{ {" && ".join(means) or "true"} }}
    proof fn slaw(&self, o: Seq<u8>, big: bool) {{ let h = Seq::<u8>::empty(); {" ".join(a + " " + b for a, b in zip(law, head))} }}
'''

    def text(self):
        m = lambda f: self.X.method('SimpleTagData', self.name, f)
        sp = self.specs()
        _, bsize = m('simple_size')
        _, rd = m('read')
        _, wr = m('write')
        _, df = self.X.method('Default', self.name, 'default')
        self.groups |= set(re.findall(r'TagGroup::(\w+)', df))
        n = self.s['size']
        start = ''.join(f'ccut(data@, at as int, {n}, {f["off"]}, {f["n"]}); ' for f in self.s['fields'])
        rd = self.steps(self.assigns(rd), 'at')
        return (self.struct() + f'''impl SimpleTagData for {self.name} {{
{sp}    fn simple_size() -> (r: usize) {{ {bsize} }}
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) {{ proof {{ {start} }} {rd} }}
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ {self.write(wr)} }}
}}
'''
                f'impl Default for {self.name} {{ open spec fn dflt(x: Self) -> bool {{ {self.spec_dflt()} }}\n    fn default() -> (r: Self) {{ {df} }} }}\n')


def base_types(t):
    m = re.match(r'(?:Bounds|Reflexive)<(.*)>$', t) or re.match(r'\[(.*); \d+\]$', t)
    return base_types(m.group(1)) if m else t


BUILTIN = ('f64', 'f32', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32')


def file_text(L, X, names, part, rewrites=None):
    """A Verus file for some structures: [(owner or None, text)]."""
    gens, own = [], []
    rewrites = [] if rewrites is None else rewrites
    for n in names:
        g = (GenSimple if X.kind(n) == 'SimpleTagData' else Gen)(L, X, n, part)
        own.append((n, g.text()))
        gens.append(g)
    simple = set().union(*(g.simple for g in gens))
    types = set().union(*(g.stubs for g in gens))
    groups = sorted(set().union(*(g.groups for g in gens)))
    bases = {base_types(t) for t in types | simple}
    out = [only(part, PRELUDE), '''pub uninterp spec fn dval_<T>() -> T;
pub uninterp spec fn as_<T>(n: u16) -> Option<T>;
pub uninterp spec fn u16_at(m: MapView, a: int, t: DomainType) -> u16;
pub open spec fn wrap(n: u16) -> u16 { if n == 0xFFFF { 0 } else { (n + 1) as u16 } }
pub trait TryInto<T>: Sized { spec fn tryv(self) -> Option<T>; fn try_into_(self) -> (r: RinghopperResult<T>) ensures match r { Ok(x) => self.tryv() == Some(x), Err(_) => self.tryv() is None }; }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Reflexive<T> { x: Vec<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Bounds<T> { x: Vec<T> }
#[verifier::external_body] pub struct PrimaryTagStructMetadata { x: u8 }
#[verifier::external_body] pub struct TagPath { x: u8 }
pub enum TagReference { Null(TagGroup), Set(TagPath) }
''', 'pub enum TagGroup { ' + ', '.join(groups + ['Other_']) + ' }\n']
    for b in sorted(bases - set(names) - set(BUILTIN) - {'TagReference', 'TagGroup'}):
        out.append(f'#[verifier::external_body] pub struct {b} {{ x: u8 }}\n')
    for t in sorted((types | bases | simple) - set(names)):
        if t in types:
            out.append(stub(L, X, t, part))
        out.append(dflt_stub(t))
    out.append(dflt_stub('PrimaryTagStructMetadata'))
    for t in sorted(simple):
        out.append(simple_stub(L, t))
    for t in sorted(set().union(*(g.tries for g in gens))):
        out.append(f'impl TryInto<{t}> for u16 {{ open spec fn tryv(self) -> Option<{t}> {{ as_(self) }} #[verifier::external_body] fn try_into_(self) -> (r: RinghopperResult<{t}>) {{ unimplemented!() }} }}\n')
    rewrites.extend(x for g in gens for x in g.rewrites)
    return [(None, ''.join(out))] + own + [(None, 'fn main() {}\n}\n')]


# ---- options and flags

NUMBERS = """
/// the number that bytes spell in a byte order, and the other way around (number codecs: P04)
pub uninterp spec fn num_<T>(b: Seq<u8>, big: bool) -> T;
pub uninterp spec fn nput_<T>(x: T, o: Seq<u8>, big: bool) -> Seq<u8>;
pub uninterp spec fn nmap_<T>(m: MapView, a: int, t: DomainType) -> T;
pub trait From_<T>: Sized { spec fn made(t: T, x: Self) -> bool; fn from_(t: T) -> (r: Self) ensures Self::made(t, r); }
pub trait Into_<T>: Sized { spec fn made_into(self, x: T) -> bool; fn into_(self) -> (r: T) ensures self.made_into(r); }
impl<T, U: From_<T>> Into_<U> for T { open spec fn made_into(self, x: U) -> bool { U::made(self, x) } fn into_(self) -> (r: U) { U::from_(self) } }
pub trait TryFrom_<T>: Sized { spec fn code(t: T) -> Option<Self>; fn try_from_(t: T) -> (r: RinghopperResult<Self>) ensures match r { Ok(x) => Self::code(t) == Some(x), Err(_) => Self::code(t) is None }; }
impl Default for bool { open spec fn dflt(x: Self) -> bool { !x } fn default() -> (r: Self) { false } }
#[verifier::opaque] pub open spec fn w_u8(b: bool, m: u8) -> u8 { if b { m } else { 0 } }
#[verifier::opaque] pub open spec fn w_u16(b: bool, m: u16) -> u16 { if b { m } else { 0 } }
#[verifier::opaque] pub open spec fn w_u32(b: bool, m: u32) -> u32 { if b { m } else { 0 } }
""" + ''.join(f"""
fn step_{u}(output: {u}, b: bool, m: {u}) -> (r: {u}) ensures r == output | w_{u}(b, m) {{ proof {{ reveal(w_{u}); if b {{ assert(1 * m == m); }} else {{ assert(0 * m == 0); }} }}
    let mut output = output; output |= b as {u} * m; output }}
""" for u in ('u8', 'u16', 'u32')) + """
#[allow(non_upper_case_globals)] impl Error { pub const InvalidEnum: Error = Error { e: 1 }; }
"""


def number(t, n, part):
    return only(part, f"""impl SimpleTagData for {t} {{
    open spec fn ssz() -> nat {{ {n} }} open spec fn sok(&self) -> bool {{ true }} open spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8> {{ nput_(*self, o, big) }} open spec fn sbad(b: Seq<u8>, big: bool) -> bool {{ false }} open spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool {{ x == num_::<Self>(b, big) }}
    #[verifier::external_body] proof fn slaw(&self, o: Seq<u8>, big: bool) {{}}
    #[verifier::external_body] fn simple_size() -> (r: usize) {{ unimplemented!() }}
    #[verifier::external_body] fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
    #[verifier::external_body] fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ unimplemented!() }}
}}
impl TagData for {t} {{
    open spec fn sz() -> nat {{ {n} }}
//file:    open spec fn ok(&self) -> bool {{ true }} open spec fn head(&self, o: Seq<u8>) -> Seq<u8> {{ nput_(*self, o, true) }} open spec fn tail(&self) -> Seq<u8> {{ Seq::empty() }} open spec fn tlen(&self) -> nat {{ 0 }}
//file:    open spec fn next(d: Seq<u8>, at: int, end: int, c: int) -> Option<int> {{ Some(c) }} open spec fn means(d: Seq<u8>, at: int, end: int, c: int, x: Self) -> bool {{ x == num_::<Self>(cut(d, at, {n}), true) }}
//map:    open spec fn in_map(m: MapView, a: int, t: DomainType) -> bool {{ in_map_::<Self>(m, a, t) }} open spec fn map_means(m: MapView, a: int, t: DomainType, x: Self) -> bool {{ x == nmap_::<Self>(m, a, t) }}
//file:    #[verifier::external_body] proof fn law(&self, o: Seq<u8>) {{}}
//file:    #[verifier::external_body] proof fn tlaw(&self) {{}}
    #[verifier::external_body] fn size() -> (r: usize) {{ unimplemented!() }}
//file:    #[verifier::external_body] fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
//file:    #[verifier::external_body] fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ unimplemented!() }}
//map:    #[verifier::external_body] fn read_from_map<M: Map>(map: &M, address: usize, domain_type: &DomainType) -> (r: RinghopperResult<Self>) {{ unimplemented!() }}
}}
""")


def enum_text(L, X, name):
    """An enumeration: the code of every option, both ways; any other code reads as the default."""
    opts = L.enums[name]['options']
    k, o = X.defs[name]
    d = extract.nocomment(X.src[o:extract.close(X.b, o) + 1])
    d = re.sub(r'#\[[^\]]*\]', '', d)
    live = [x for x in opts if 'exclude' not in x[3]]
    m = lambda f, t='SimpleTagData': X.method(t, name, f)[1]
    rd, n = re.subn(r'u16::read::<B>\(\s*data\s*,\s*at\s*,\s*struct_end\s*\)\?\s*\.try_into\(\)\s*\.unwrap_or_else\(\|_\|\s*Default::default\(\)\)', 'match Self::try_from_(u16::read::<B>(data, at, struct_end)?) { Ok(x) => x, Err(_) => Default::default() }', m('read'))
    if n != 1:
        raise Lost(f'{name}: unexpected read')
    codes = ' '.join(f'{name}::{x[1]} => {x[0]}u16,' for x in live)
    dec = ' else '.join(f'if t == {x[0]} {{ Some({name}::{x[1]}) }}' for x in live)
    return f"""#[derive(Clone, Copy)] pub enum {name} {d}
impl {name} {{ pub open spec fn number(self) -> u16 {{ match self {{ {codes} }} }} }}
impl TryFrom_<u16> for {name} {{ open spec fn code(t: u16) -> Option<Self> {{ {dec} else {{ None }} }}
    fn try_from_(value: u16) -> (r: RinghopperResult<Self>) {{ {m('try_from', 'TryFrom<u16>')} }} }}
proof fn both_ways_{name}(x: {name}) ensures {name}::code(x.number()) == Some(x) {{ }}
impl Default for {name} {{ open spec fn dflt(x: Self) -> bool {{ x == {name}::{live[0][1]} }} fn default() -> (r: Self) {{ {m('default', 'Default')} }} }}
impl SimpleTagData for {name} {{
    open spec fn ssz() -> nat {{ 2 }} open spec fn sok(&self) -> bool {{ true }} open spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8> {{ nput_(self.number(), o, big) }} open spec fn sbad(b: Seq<u8>, big: bool) -> bool {{ false }}
    open spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool {{ match {name}::code(num_::<u16>(b, big)) {{ Some(y) => x == y, None => Self::dflt(x) }} }}
    proof fn slaw(&self, o: Seq<u8>, big: bool) {{ <u16 as SimpleTagData>::slaw(&self.number(), o, big); }}
    fn simple_size() -> (r: usize) {{ {m('simple_size')} }}
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) {{ {rd} }}
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ {m('write')} }}
}}
"""


def bits_text(L, X, name, part):
    """Flags: every bit, both ways; bits of no flag are not stored and not read."""
    w, bits = L.bits[name]['width'], [(m, r, fl) for m, r, _, fl in L.bits[name]['bits'] if 'exclude' not in fl]
    u = f'u{w}'
    fields = X.fields(name)
    if {f for f, _ in fields} != {r for _, r, _ in bits} or any(t != 'bool' for _, t in fields):
        raise Lost(f'{name}: other flags than the layout has')
    frm = X.method(f'From<{u}>', name, 'from')[1]
    to = X.method(f'From<{name}>', u, 'from')[1] if (f'From<{name}>', u) in X.impls else None
    if to is None:
        raise Lost(f'{name}: no conversion to {u}')
    seen = re.findall(rf'output\s*\|=\s*value\.((?:r#)?\w+)\s+as\s+{u}\s*\*\s*(\d+)\s*;', to)
    rest = re.sub(rf'output\s*\|=\s*value\.((?:r#)?\w+)\s+as\s+{u}\s*\*\s*(\d+)\s*;', '', to)
    if extract.squash(rest) != 'let mut output: Self = 0; output':
        raise Lost(f'{name}: unexpected conversion to {u}')
    expr = '0' + ''.join(f' | (if value.{f} {{ {m}{u} }} else {{ 0 }})' for f, m in seen)
    if sorted(seen) == sorted((f, str(m)) for m, f, _ in bits) and seen != [(f, str(m)) for m, f, _ in bits]:
        raise Lost(f'{name}: flags are put together in another order')
    to = re.sub(rf'output\s*\|=\s*value\.((?:r#)?\w+)\s+as\s+{u}\s*\*\s*(\d+)\s*;', lambda mt: f'output = step_{u}(output, value.{mt.group(1)}, {mt.group(2)});', to)  # the step outlined
    # the or of the masks, taken apart again
    form = f'(0{u}' + ''.join(f' | (if v{i} {{ {m}{u} }} else {{ 0{u} }})' for i, (m, _, _) in enumerate(bits)) + ')'
    apart = ', '.join([f'(({form} & {m}{u}) != 0) == v{i}' for i, (m, _, _) in enumerate(bits)] + [f'{form} & {sum(m for m, _, _ in bits) ^ ((1 << w) - 1)}{u} == 0'])
    made = ' && '.join(f'x.{f} == ((t & {m}) != 0)' for m, f, _ in bits) or 'true'
    t = f"""#[derive(Clone, Copy)] pub struct {name} {{ {' '.join(f'pub {f}: bool,' for f, _ in fields)} }}
impl Default for {name} {{ open spec fn dflt(x: Self) -> bool {{ {' && '.join(f'!x.{f}' for _, f, _ in bits) or 'true'} }} fn default() -> (r: Self) {{ {X.method('Default', name, 'default')[1].replace('::core::default::', '')} }} }}
impl From_<{u}> for {name} {{ open spec fn made(t: {u}, x: Self) -> bool {{ {made} }} fn from_(value: {u}) -> (r: Self) {{ {frm} }} }}
proof fn apart_{name}({', '.join(f'v{i}: bool' for i in range(len(bits)))}) by (bit_vector) ensures {apart} {{ }}
impl {name} {{ pub open spec fn number(self) -> {u} {{ 0{u}{''.join(f' | w_{u}(self.{f}, {m})' for m, f, _ in bits)} }} }}
impl From_<{name}> for {u} {{ open spec fn made(t: {name}, x: Self) -> bool {{ x == t.number() }} fn from_(value: {name}) -> (r: Self) {{ {to} }} }}
"""
    kind = X.kind(name)
    m = lambda f: X.method(kind, name, f)[1]
    if kind == 'SimpleTagData':
        wr = m('write')
        return t + f"""impl SimpleTagData for {name} {{
    open spec fn ssz() -> nat {{ {w // 8} }} open spec fn sok(&self) -> bool {{ true }} open spec fn sput(&self, o: Seq<u8>, big: bool) -> Seq<u8> {{ nput_(self.number(), o, big) }} open spec fn sbad(b: Seq<u8>, big: bool) -> bool {{ false }}
    open spec fn smeans(b: Seq<u8>, big: bool, x: Self) -> bool {{ {name}::made(num_::<{u}>(b, big), x) }}
    proof fn slaw(&self, o: Seq<u8>, big: bool) {{ <{u} as SimpleTagData>::slaw(&self.number(), o, big); }}
    fn simple_size() -> (r: usize) {{ {m('simple_size')} }}
    fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> (r: RinghopperResult<Self>) {{ {m('read').replace('.into()', '.into_()')} }}
    fn write<B: ByteOrder>(&self, data: &mut [u8], at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ {wr.replace('.into()', '.into_()')} }}
}}
"""
    every = (1 << w) - 1
    saved = every ^ sum(m for m, _, fl in bits if 'cache_only' in fl)
    cached = every ^ sum(m for m, _, fl in bits if 'non_cached' in fl)
    # literals beyond the width lose their upper half (the lint for it is off in the generated crate)
    cutlit = lambda x: re.sub(r'(?<=& )(\d+)', lambda mt: str(int(mt.group(1)) & every), x).replace('.into()', '.into_()').replace(f'{u}::from(', f'{u}::from_(')
    masks = lambda k: ' && '.join(f'(((v & {k}{u}) & {m}{u}) != 0) == ' + (f'((v & {m}{u}) != 0)' if m & k else 'false') for m, _, _ in bits)
    says = lambda k, v: ' && '.join(f'x.{f} == (({v} & {m}{u}) != 0)' if m & k else f'!x.{f}' for m, f, _ in bits)
    if part == 'file':
        rd, wr = cutlit(m('read_from_tag_file')), cutlit(m('write_to_tag_file'))
        body = f'''    open spec fn ok(&self) -> bool {{ true }} open spec fn head(&self, o: Seq<u8>) -> Seq<u8> {{ nput_(self.number() & {saved}{u}, o, true) }} open spec fn tail(&self) -> Seq<u8> {{ Seq::empty() }} open spec fn tlen(&self) -> nat {{ 0 }}
    open spec fn next(d: Seq<u8>, at: int, end: int, c: int) -> Option<int> {{ Some(c) }} open spec fn means(d: Seq<u8>, at: int, end: int, c: int, x: Self) -> bool {{ let v = num_::<{u}>(cut(d, at, {w // 8}), true); {says(saved, 'v')} }}
    proof fn law(&self, o: Seq<u8>) {{ <{u} as TagData>::law(&(self.number() & {saved}{u}), o); }}
    proof fn tlaw(&self) {{}}
    fn read_from_tag_file(data: &[u8], at: usize, struct_end: usize, extra_data_cursor: &mut usize) -> (r: RinghopperResult<Self>) {{ proof {{ saved_{name}(num_::<{u}>(cut(data@, at as int, {w // 8}), true)); }} {rd} }}
    fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> (r: RinghopperResult<()>) {{ {wr} }}
'''
    else:
        mp = cutlit(m('read_from_map'))
        body = f'''    open spec fn in_map(m: MapView, a: int, t: DomainType) -> bool {{ in_map_::<{u}>(m, a, t) }} open spec fn map_means(m: MapView, a: int, t: DomainType, x: Self) -> bool {{ let v = nmap_::<{u}>(m, a, t); {says(cached, 'v')} }}
    fn read_from_map<M: Map>(map: &M, address: usize, domain_type: &DomainType) -> (r: RinghopperResult<Self>) {{ proof {{ cached_{name}(nmap_::<{u}>(map.view(), address as int, *domain_type)); }} {mp} }}
'''
    return t + f'''proof fn saved_{name}(v: {u}) by (bit_vector) ensures {masks(saved)} {{ }}
proof fn cached_{name}(v: {u}) by (bit_vector) ensures {masks(cached)} {{ }}
impl TagData for {name} {{
    open spec fn sz() -> nat {{ {w // 8} }}
    fn size() -> (r: usize) {{ {m('size')} }}
{body}}}
'''


def numbers_text(L, X, names, part):
    """A Verus file for some enumerations and flags."""
    out = [(None, only(part, PRELUDE) + NUMBERS + ''.join(number(t, n, part) for t, n in (('u8', 1), ('u16', 2), ('u32', 4))))]
    for n in names:
        out.append((n, enum_text(L, X, n) if n in L.enums else bits_text(L, X, n, part)))
    return out + [(None, 'fn main() {}\n}\n')]


def expand(repo, build, sh, timeout=300):
    """rustc's own expansion of the crate whose code the generator writes."""
    os.makedirs(build + '/expand', exist_ok=True)
    rc, out = sh(['cargo', 'rustc', '--offline', '-q', '-p', 'ringhopper-structs', '--', '-Zunpretty=expanded', '-o', build + '/expand/structs.rs'], timeout, cwd=repo,
                 RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=build + '/expand/target', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='0')
    if rc != 0 or not os.path.exists(build + '/expand/structs.rs'):
        raise Lost('the structures could not be expanded: ' + out[-600:])
    return open(build + '/expand/structs.rs').read()


# beyond the solver's reach in the time a quick run has
LARGE = {'Dialogue'}


def make(part, repo, build, sh, deep, fresh):
    """The units of one part: every structure (and, for tag files, every enumeration and set of flags) of the layout."""
    fresh(build + '/expand/target')
    X = Expanded(expand(repo, build, sh))
    L = Layout()
    units, lost = [], []
    names = []
    for n, st in L.structs.items():
        k = X.kind(n)
        if k == 'TagData' or (k == 'SimpleTagData' and part == 'file'):
            try:
                file_text(L, X, [n], part)
                if n not in LARGE:
                    names.append(n)
            except Lost as e:
                lost.append(f'{n}: {e}')
        elif k is None and part == 'file':
            lost.append(f'{n}: not tag data')

    def weight(n):
        k = len(L.structs[n]['fields'])
        return k * k * 0.001 + k * 0.01 + 0.05
    bins = [[0, [], set()] for _ in range(30 if part == 'file' else 20)]
    for n in sorted(names, key=weight, reverse=True):
        emb = {f['base'] for f in L.structs[n]['fields']}
        for b in sorted(bins, key=lambda b: b[0]):
            if not emb & set(b[1]) and n not in b[2]:
                b[0] += weight(n)
                b[1].append(n)
                b[2] |= emb
                break
        else:
            lost.append(f'{n}: no unit to put it in')
    groups = [(f'structs{i}', b[1], file_text) for i, b in enumerate(bins) if b[1]]
    if deep:
        groups = [(n.lower(), [n], file_text) for n in LARGE] + groups
    num = []
    for n in [*L.enums, *L.bits]:
        if part == 'file' or X.kind(n) == 'TagData':
            try:
                numbers_text(L, X, [n], part)
                num.append(n)
            except Lost as e:
                lost.append(f'{n}: {e}')
    groups += [(f'numbers{i}', num[i::12], numbers_text) for i in range(12) if num[i::12]]
    def again(ns, text, rw):
        return lambda: text(L, X, ns, part) if text is numbers_text else text(L, X, ns, part, rw)
    for name, ns, text in groups:
        rw = []
        units.append(dict(name=name, about=f'contracts of {len(ns)} types', names=ns, rlimit=3000 if deep else 200, trusted=True,
                          pieces=again(ns, text, rw), again=lambda ns, text=text, rw=rw: again(ns, text, rw), rw=rw))
    return units, lost
