from extract import Item
M = 'src/ringhopper-primitives/src/map.rs'
SPEC = '''
/// n bytes at address a of a domain that starts at base
pub open spec fn part(b: Seq<u8>, base: nat, a: nat, n: nat) -> Option<Seq<u8>> { if a >= base && a - base + n <= b.len() { Some(b.subrange(a - base, a - base + n)) } else { None } }
pub open spec fn at(m: Option<(Seq<u8>, nat)>, a: nat, n: nat) -> Option<Seq<u8>> { match m { Some((b, base)) => part(b, base, a, n), None => None } }
/// any map: what a domain holds is given by get_domain alone
pub trait Map {
    spec fn dom(&self, d: DomainType) -> Option<(Seq<u8>, nat)>;
    fn get_domain(&self, domain: &DomainType) -> (r: Option<(&[u8], usize)>)
        ensures match r { Some((b, base)) => self.dom(*domain) == Some((b@, base as nat)), None => self.dom(*domain) is None };
}
'''
CL = ('(match q { Some(x) => Some(x@), None => None }) == (if offset + size <= domain_start@.len() { Some(domain_start@.subrange(offset as int, offset + size)) } else { None })')
UNITS = [dict(
    name='translate', about='Map::get_data_at_address: for every map, domain, address and size (no bound), the result is exactly the size bytes at address - base of the domain, none if any lies outside, with the tag data as the second place to look for BSP addresses; no overflow',
    spec=SPEC,
    items=[
        Item(M, 'enum', 'ResourceMapType', attrs='#[derive(Clone, Copy)]\n'),
        Item(M, 'enum', 'DomainType'),
        Item(M, 'fn', 'get_data_at_address', within=r'pub trait Map\b', vis='',
            rewrite=[(r'fn get_data_at_address\(\s*&self,', "fn get_data_at_address<'a, M: Map>(this: &'a M,", 'Verus has no recursion in default trait methods: a free function over any map'),
                     (r'-> Option<&\[u8\]>', "-> Option<&'a [u8]>", 'lifetime of self made explicit'),
                     (r'self\.get_data_at_address\(', 'get_data_at_address(this, ', 'as above'),
                     (r'\bself\.', 'this.', 'as above'),
                     (r'\|offset\| ([^;]*)\);', rf"|offset: usize| -> (q: Option<&'a [u8]>) ensures {CL} {{ \1 }});", 'the closure gets a contract')],
            spec='''ensures (match r { Some(x) => Some(x@), None => None }) == (match this.dom(*domain) {
                None => None,
                Some((b, base)) => match part(b, base, address as nat, size as nat) {
                    Some(x) => Some(x),
                    None => if domain is BSP { at(this.dom(DomainType::TagData), address as nat, size as nat) } else { None } } })
            decreases (if domain is BSP { 1nat } else { 0nat })''',
            at=[(r'let data =', 'before', 'assert(domain_start@.len() == domain_start.len());')]),
    ]), dict(
    name='c_string', about='Map::get_c_string_at_address: for every map, domain and address, the text is decoded from the bytes of the domain from address - base on, from those of the tag data if a BSP address lies outside the BSP, and there is none if the address is outside',
    trusted=True, spec=SPEC + """
/// the UTF-8 text up to the first zero byte (decided by execution)
pub uninterp spec fn c_text(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body] fn c_str<'a>(b: &'a [u8]) -> (r: Option<&'a str>) ensures (match r { Some(s) => Some(s@), None => None }) == c_text(b@) { unimplemented!() }
pub open spec fn rest(m: Option<(Seq<u8>, nat)>, a: nat) -> Option<Seq<u8>> { match m { Some((b, base)) => if base <= a <= base + b.len() { Some(b.skip(a - base)) } else { None }, None => None } }
""",
    items=[
        Item(M, 'enum', 'ResourceMapType', attrs='#[derive(Clone, Copy)]\n'),
        Item(M, 'enum', 'DomainType'),
        Item(M, 'fn', 'get_c_string_at_address', within=r'pub trait Map\b', vis='',
            rewrite=[(r'fn get_c_string_at_address\(\s*&self,', "fn get_c_string_at_address<'a, M: Map>(this: &'a M,", 'Verus has no recursion in default trait methods: a free function over any map'),
                     (r'-> Option<&str>', "-> Option<&'a str>", 'lifetime of self made explicit'),
                     (r'self\.get_c_string_at_address\(', 'get_c_string_at_address(this, ', 'as above'),
                     (r'\bself\.', 'this.', 'as above'),
                     (r'std::ffi::CStr::from_bytes_until_nul\(data\)\s*\.ok\(\)\?\s*\.to_str\(\)\s*\.ok\(\)', 'c_str(data)', 'assumed, uninterpreted decoding of a zero-terminated UTF-8 text'),
                     (r'\|offset\| (domain_start[^;]*)\);', r"|offset: usize| -> (q: Option<&'a [u8]>) ensures (match q { Some(x) => Some(x@), None => None }) == (if offset <= domain_start@.len() { Some(domain_start@.skip(offset as int)) } else { None }) { let x = \1; proof { assert(domain_start@.len() == domain_start.len()); if x is Some { assert(x->0@ =~= domain_start@.skip(offset as int)); } } x });", 'the closure gets a contract')],
            spec="""ensures (match r { Some(x) => Some(x@), None => None }) == (match this.dom(*domain) {
                None => None,
                Some(m) => match rest(Some(m), address as nat) {
                    Some(x) => c_text(x),
                    None => if domain is BSP { match rest(this.dom(DomainType::TagData), address as nat) { Some(x) => c_text(x), None => None } } else { None } } })
            decreases (if domain is BSP { 1nat } else { 0nat })"""),
    ])]
