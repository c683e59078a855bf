from extract import Item
D = 'src/ringhopper/src/tag/default/'
C = 'src/ringhopper/src/tag/compare.rs'
ISO = '#[verifier::loop_isolation(false)] '
def down(var, ty): return [(r'tag: &mut dyn PrimaryTagStructDyn', f'{var}: &mut {ty}', 'the downcast to the group of the function'), (r'let \w+: &mut ' + ty + r' = tag\.as_any_mut\(\)\.downcast_mut\(\)\.unwrap\(\);', '', 'the downcast to the group of the function')]
PARTS = r'''
global size_of usize == 8;
#[verifier::external_body] pub struct Rest;
pub struct ModelGeometryPart { pub next_filthy_part_index: u8, pub prev_filthy_part_index: u8, pub rest: Rest }
pub struct GBXModelGeometryPart { pub model_geometry_part: ModelGeometryPart, pub rest: Rest }
pub struct Reflexive<T> { pub items: Vec<T> }
pub struct ModelGeometry { pub parts: Reflexive<ModelGeometryPart>, pub rest: Rest }
pub struct GBXModelGeometry { pub parts: Reflexive<GBXModelGeometryPart>, pub rest: Rest }
pub struct Model { pub geometries: Reflexive<ModelGeometry>, pub rest: Rest }
pub struct GBXModel { pub geometries: Reflexive<GBXModelGeometry>, pub rest: Rest }
/// both indices, or neither: 0 is no part when it is both
pub open spec fn filthy(p: ModelGeometryPart, undo: bool) -> ModelGeometryPart { let (from, to) = if undo { (255u8, 0u8) } else { (0u8, 255u8) };
    if p.next_filthy_part_index == from && p.prev_filthy_part_index == from { ModelGeometryPart { next_filthy_part_index: to, prev_filthy_part_index: to, ..p } } else { p } }
pub open spec fn gbx(p: GBXModelGeometryPart, undo: bool) -> GBXModelGeometryPart { GBXModelGeometryPart { model_geometry_part: filthy(p.model_geometry_part, undo), ..p } }
pub open spec fn geo(a: ModelGeometry, b: ModelGeometry, undo: bool) -> bool { &&& b.rest == a.rest && a.parts.items@.len() == b.parts.items@.len()
    &&& forall|j: int| 0 <= j < a.parts.items@.len() ==> #[trigger] b.parts.items@[j] == filthy(a.parts.items@[j], undo) }
pub open spec fn gbxgeo(a: GBXModelGeometry, b: GBXModelGeometry, undo: bool) -> bool { &&& b.rest == a.rest && a.parts.items@.len() == b.parts.items@.len()
    &&& forall|j: int| 0 <= j < a.parts.items@.len() ==> #[trigger] b.parts.items@[j] == gbx(a.parts.items@[j], undo) }
/// what is set is what comes back after it was unset
proof fn back(p: ModelGeometryPart) ensures filthy(filthy(filthy(p, false), true), false) == filthy(p, false), filthy(filthy(p, true), false) == filthy(p, false) { }
'''
def part(name, undo): return Item(D + 'model.rs', 'fn', name, vis='', spec=f'ensures *final(part) == filthy(*old(part), {undo})')
def model(name, ty, g, p, undo):
    what = 'geo' if ty == 'Model' else 'gbxgeo'; el = 'filthy' if ty == 'Model' else 'gbx'
    return Item(D + 'model.rs', 'fn', name, vis='', attrs=ISO, rewrite=down('model', ty) + [
        (r'for geo in &mut model\.geometries \{', 'let mut g = 0usize; let ghost start = *model; while g < model.geometries.items.len() { let geo = &mut model.geometries.items[g]; g += 1;', '`for` written as `while`'),
        (r'for part in &mut geo\.parts \{', 'let mut p = 0usize; let ghost here = *geo; while p < geo.parts.items.len() { let part = &mut geo.parts.items[p]; p += 1;', '`for` written as `while`')],
        spec=f'ensures final(model).rest == old(model).rest, final(model).geometries.items@.len() == old(model).geometries.items@.len(), forall|i: int| 0 <= i < old(model).geometries.items@.len() ==> {what}(#[trigger] old(model).geometries.items@[i], final(model).geometries.items@[i], {undo})',
        loops=[dict(spec=f'invariant 0 <= g <= model.geometries.items@.len(), model.rest == start.rest, model.geometries.items@.len() == start.geometries.items@.len(), forall|i: int| 0 <= i < g ==> {what}(#[trigger] start.geometries.items@[i], model.geometries.items@[i], {undo}), forall|i: int| g <= i < start.geometries.items@.len() ==> model.geometries.items@[i] == #[trigger] start.geometries.items@[i] decreases model.geometries.items@.len() - g'),
            dict(spec=f'invariant 0 <= p <= geo.parts.items@.len(), geo.rest == here.rest, geo.parts.items@.len() == here.parts.items@.len(), forall|j: int| 0 <= j < p ==> #[trigger] geo.parts.items@[j] == {el}(here.parts.items@[j], {undo}), forall|j: int| p <= j < here.parts.items@.len() ==> #[trigger] geo.parts.items@[j] == here.parts.items@[j] decreases geo.parts.items@.len() - p')])
FLOATS = r'''
global size_of usize == 8;
#[verifier::external_body] pub struct Rest;
/// numbers, compared as floating point numbers are (-0 equals 0)
pub uninterp spec fn same(a: f64, b: f64) -> bool;
pub uninterp spec fn lit(n: int) -> f64;
#[verifier::external_body] fn eq(a: f64, b: f64) -> (r: bool) ensures r == same(a, b) { unimplemented!() }
#[verifier::external_body] fn num(n: u8) -> (r: f64) ensures r == lit(n as int) { unimplemented!() }
#[verifier::external_body] proof fn numbers() ensures forall|a: int, b: int| same(#[trigger] lit(a), #[trigger] lit(b)) == (a == b) { unimplemented!() }
pub struct Bounds { pub lower: f64, pub upper: f64 }
pub struct LightVolume { pub perpendicular_brightness_scale: f64, pub parallel_brightness_scale: f64, pub rest: Rest }
pub struct SoundLooping { pub zero_detail_sound_period: f64, pub one_detail_sound_period: f64, pub rest: Rest }
pub struct Particle { pub radius_animation: Bounds, pub fade_start_size: f64, pub fade_end_size: f64, pub rest: Rest }
pub struct Object { pub render_bounding_radius: f64, pub bounding_radius: f64, pub rest: Rest }
pub struct ColorARGBFloat { pub alpha: f64, pub red: f64, pub green: f64, pub blue: f64 }
pub struct ColorRGBFloat { pub red: f64, pub green: f64, pub blue: f64 }
impl ColorARGBFloat { fn rgb_float(&self) -> (r: ColorRGBFloat) ensures r.red == self.red, r.green == self.green, r.blue == self.blue { ColorRGBFloat { red: self.red, green: self.green, blue: self.blue } } }
pub struct ColorBounds { pub lower: ColorARGBFloat, pub upper: ColorARGBFloat }
pub struct LightColor { pub color: ColorBounds, pub rest: Rest }
pub struct Light { pub color: LightColor, pub rest: Rest }
pub open spec fn same_rgb(a: ColorRGBFloat, b: ColorRGBFloat) -> bool { same(a.red, b.red) && same(a.green, b.green) && same(a.blue, b.blue) }
fn eq_rgb(a: &ColorRGBFloat, b: &ColorRGBFloat) -> (r: bool) ensures r == same_rgb(*a, *b) { eq(a.red, b.red) && eq(a.green, b.green) && eq(a.blue, b.blue) }
pub struct ShaderTransparentMapParameters { pub map_u_scale: f64, pub map_v_scale: f64, pub rest: Rest }
pub struct ShaderTransparentChicagoMap { pub parameters: ShaderTransparentMapParameters, pub rest: Rest }
pub struct ShaderTransparentGenericMap { pub parameters: ShaderTransparentMapParameters, pub rest: Rest }
pub struct Reflexive<T> { pub items: Vec<T> }
pub struct ShaderModelMaps { pub map_u_scale: f64, pub map_v_scale: f64, pub rest: Rest }
pub struct ShaderModel { pub maps: ShaderModelMaps, pub rest: Rest }
pub struct ShaderTransparentGeneric { pub maps: Reflexive<ShaderTransparentGenericMap>, pub rest: Rest }
pub struct ShaderTransparentChicago { pub maps: Reflexive<ShaderTransparentChicagoMap>, pub rest: Rest }
pub struct ShaderTransparentChicagoExtended { pub _2_stage_maps: Reflexive<ShaderTransparentChicagoMap>, pub _4_stage_maps: Reflexive<ShaderTransparentChicagoMap>, pub rest: Rest }
/// two numbers that go together
pub open spec fn both(x: (f64, f64), undo: bool) -> (f64, f64) { let (from, to) = if undo { (1int, 0int) } else { (0int, 1int) }; if same(x.0, lit(from)) && same(x.1, lit(from)) { (lit(to), lit(to)) } else { x } }
pub open spec fn alone(x: f64, undo: bool) -> f64 { let (from, to) = if undo { (1int, 0int) } else { (0int, 1int) }; if same(x, lit(from)) { lit(to) } else { x } }
pub open spec fn fade(x: (f64, f64), undo: bool) -> (f64, f64) {
    if undo { if (same(x.0, lit(5)) || same(x.0, lit(0))) && (same(x.1, lit(4)) || same(x.1, lit(0))) { (lit(0), lit(0)) } else { x } } else if same(x.0, lit(0)) || same(x.1, lit(0)) { (lit(5), lit(4)) } else { x } }
/// scales of a map: both missing are 1, a missing one is as the other
pub open spec fn scales(x: (f64, f64), undo: bool) -> (f64, f64) {
    let z = same(x.0, lit(0)); let w = same(x.1, lit(0));
    if undo { if (z || same(x.0, lit(1))) && (w || same(x.1, lit(1))) { (lit(0), lit(0)) } else { x } }
    else if z && w { (lit(1), lit(1)) } else if z { (x.1, x.1) } else if w { (x.0, x.0) } else { x } }
pub open spec fn radius(x: (f64, f64), undo: bool) -> f64 { if undo { if same(x.0, x.1) { lit(0) } else { x.0 } } else if same(x.0, lit(0)) { x.1 } else { x.0 } }
pub open spec fn all(c: ColorBounds, n: int) -> bool { same(c.lower.red, lit(n)) && same(c.lower.green, lit(n)) && same(c.lower.blue, lit(n)) && same(c.upper.red, lit(n)) && same(c.upper.green, lit(n)) && same(c.upper.blue, lit(n)) }
pub open spec fn color(c: ColorBounds, undo: bool) -> ColorBounds { let (from, to) = if undo { (1int, 0int) } else { (0int, 1int) };
    if all(c, from) { let n = lit(to); ColorBounds { lower: ColorARGBFloat { alpha: c.lower.alpha, red: n, green: n, blue: n }, upper: ColorARGBFloat { alpha: c.upper.alpha, red: n, green: n, blue: n } } } else { c } }
pub open spec fn map(p: ShaderTransparentMapParameters, undo: bool) -> ShaderTransparentMapParameters { let s = scales((p.map_u_scale, p.map_v_scale), undo); ShaderTransparentMapParameters { map_u_scale: s.0, map_v_scale: s.1, ..p } }
pub open spec fn chicago(a: Seq<ShaderTransparentChicagoMap>, b: Seq<ShaderTransparentChicagoMap>, undo: bool) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (ShaderTransparentChicagoMap { parameters: map(a[i].parameters, undo), ..a[i] }) }
pub open spec fn generic(a: Seq<ShaderTransparentGenericMap>, b: Seq<ShaderTransparentGenericMap>, undo: bool) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (ShaderTransparentGenericMap { parameters: map(a[i].parameters, undo), ..a[i] }) }
/// what is set comes back after it was unset; a value that stays stays
proof fn back(x: (f64, f64), y: f64, c: ColorBounds) ensures both(both(both(x, false), true), false) == both(x, false) || (same(both(x, false).0, lit(1)) && same(both(x, false).1, lit(1))), alone(alone(alone(y, false), true), false) == alone(y, false) || same(alone(y, false), lit(1)), fade(fade(fade(x, false), true), false) == fade(x, false) || (same(fade(x, false).0, lit(5)) && same(fade(x, false).1, lit(4))),
    scales(scales(scales(x, false), true), false) == scales(x, false) || (same(scales(x, false).0, lit(1)) && same(scales(x, false).1, lit(1))) , color(color(color(c, false), true), false) == color(c, false) || all(color(c, false), 1) { numbers(); }
'''
ZERO = (r'([a-z_][\w.]*|\*[uv]) == (\d)\.0', r'eq(\1, num(\2))', 'comparison of floating point numbers as a function')
LITS = [(r'= (\d)\.0\b', r'= num(\1)', 'a floating point literal as a function')]
def two(file, name, ty, var, a, b, undo): return Item(D + file, 'fn', name, vis='', rewrite=down(var, ty) + [ZERO] + LITS,
    spec=f'ensures (final({var}).{a}, final({var}).{b}) == both((old({var}).{a}, old({var}).{b}), {undo}), final({var}).rest == old({var}).rest')
def particle(name, undo): return Item(D + 'particle.rs', 'fn', name, vis='', rewrite=down('particle', 'Particle') + [ZERO] + LITS,
    spec=f'ensures final(particle).radius_animation.lower == alone(old(particle).radius_animation.lower, {undo}), final(particle).radius_animation.upper == alone(old(particle).radius_animation.upper, {undo}), (final(particle).fade_start_size, final(particle).fade_end_size) == fade((old(particle).fade_start_size, old(particle).fade_end_size), {undo}), final(particle).rest == old(particle).rest')
def obj(name, undo): return Item(D + 'object.rs', 'fn', name, vis='', rewrite=[(r'tag: &mut dyn PrimaryTagStructDyn', 'object: &mut Object', 'the downcast to the object'), (r'let object = downcast_base_object_mut\(tag\)\.unwrap\(\);', '', 'the downcast to the object'),
    (r'object\.render_bounding_radius == ([\w.]+) \{', r'eq(object.render_bounding_radius, \1) {', 'comparison of floating point numbers as a function'), (r'\b0\.0\b', 'num(0)', 'a floating point literal as a function')],
    spec=f'ensures final(object).render_bounding_radius == radius((old(object).render_bounding_radius, old(object).bounding_radius), {undo}), final(object).bounding_radius == old(object).bounding_radius, final(object).rest == old(object).rest')
def maps(name, el, what): return Item(D + 'shader.rs', 'fn', name, vis='', attrs=ISO, rewrite=[(r'for i in reflexive \{', 'let mut n = 0usize; let ghost start = reflexive.items@; while n < reflexive.items.len() { let i = &mut reflexive.items[n]; n += 1;', '`for` written as `while`')],
    spec=f'ensures {what}(old(reflexive).items@, final(reflexive).items@, undefault)',
    loops=[dict(spec=f'invariant 0 <= n <= reflexive.items@.len(), reflexive.items@.len() == start.len(), forall|i: int| 0 <= i < n ==> #[trigger] reflexive.items@[i] == ({el} {{ parameters: map(start[i].parameters, undefault), ..start[i] }}), forall|i: int| n <= i < start.len() ==> #[trigger] reflexive.items@[i] == start[i] decreases reflexive.items@.len() - n')])
def shader(name, ty, lists, what): return Item(D + 'shader.rs', 'fn', name, vis='', rewrite=down('shader', ty), spec='ensures final(shader).rest == old(shader).rest, ' + ', '.join(f'{what}(old(shader).{l}.items@, final(shader).{l}.items@, undefault)' for l in lists))
COMPARE = r'''
global size_of usize == 8;
pub struct Path { pub text: Vec<char> }
#[verifier::external_body] pub struct Message;
pub struct TagComparisonDifference { pub depth: usize, pub path: Seq<char>, pub difference: Message }
pub struct Context { pub differences: Vec<TagComparisonDifference>, pub allow_cache_only: bool }
/// values, lists and structures seen through the dynamic interface
#[verifier::external_body] pub struct Value; #[verifier::external_body] pub struct Array; #[verifier::external_body] pub struct Name; #[verifier::external_body] pub struct Bytes;
pub uninterp spec fn text_of(i: int) -> Seq<char>;
pub uninterp spec fn lengths(a: int, b: int) -> Message;
pub uninterp spec fn minimized(n: int) -> Message;
pub uninterp spec fn contents(a: Seq<u8>, b: Seq<u8>) -> Message;
#[verifier::external_body] fn say_lengths(a: usize, b: usize) -> (r: Message) ensures r == lengths(a as int, b as int) { unimplemented!() }
#[verifier::external_body] fn say_minimized(n: usize) -> (r: Message) ensures r == minimized(n as int) { unimplemented!() }
#[verifier::external_body] fn say_contents(a: &[u8], b: &[u8]) -> (r: Message) ensures r == contents(a@, b@) { unimplemented!() }
#[verifier::external_body] fn same_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub struct Metadata { pub cache_only: bool }
impl Array { pub uninterp spec fn view(&self) -> Seq<Value>;
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] fn get_at_index(&self, i: usize) -> (r: Option<&Value>) ensures r is Some <==> i < self@.len(), r is Some ==> *(r->Some_0) == self@[i as int] { unimplemented!() } }
impl Value { pub uninterp spec fn names(&self) -> Seq<Name>; pub uninterp spec fn field(&self, n: Name) -> Value; pub uninterp spec fn hidden(&self, n: Name) -> bool; pub uninterp spec fn list(&self) -> Option<Array>;
    #[verifier::external_body] fn fields(&self) -> (r: &[Name]) ensures r@ == self.names() { unimplemented!() }
    #[verifier::external_body] fn get_metadata_for_field(&self, n: &Name) -> (r: Option<Metadata>) ensures self.hidden(*n) <==> (r is Some && r->Some_0.cache_only) { unimplemented!() }
    #[verifier::external_body] fn get_field(&self, n: &Name) -> (r: Option<&Value>) ensures r is Some, *(r->Some_0) == self.field(*n) { unimplemented!() }
    #[verifier::external_body] fn as_array(&self) -> (r: Option<&Array>) ensures r is Some <==> self.list() is Some, r is Some ==> *(r->Some_0) == self.list()->Some_0 { unimplemented!() } }
pub uninterp spec fn spelled(n: Name) -> Seq<char>;
pub open spec fn dotted(n: Name) -> Seq<char> { seq!['.'] + spelled(n) }
impl Path { pub open spec fn view(&self) -> Seq<char> { self.text@ }
    #[verifier::external_body] fn add_index(&mut self, i: usize) ensures final(self)@ == old(self)@ + text_of(i as int) { unimplemented!() }
    #[verifier::external_body] fn add_dot(&mut self) ensures final(self)@ == old(self)@ + seq!['.'] { unimplemented!() }
    #[verifier::external_body] fn add_name(&mut self, n: &Name) ensures final(self)@ == old(self)@ + spelled(*n) { unimplemented!() }
    #[verifier::external_body] fn size(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] fn cut(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.take(n as int) { unimplemented!() } }
pub open spec fn one(depth: int, path: Seq<char>, m: Message) -> Diff { Diff { depth, path: path.skip(1), difference: m } }
pub ghost struct Diff { pub depth: int, pub path: Seq<char>, pub difference: Message }
pub uninterp spec fn told(s: Seq<TagComparisonDifference>) -> Seq<Diff>;
/// how the list of differences is added to
#[verifier::external_body] fn report(c: &mut Context, depth: usize, path: &Path, m: Message) requires path@.len() > 0 ensures told(final(c).differences@) == told(old(c).differences@).push(one(depth as int, path@, m)), final(c).differences@.len() == old(c).differences@.len() + 1, final(c).allow_cache_only == old(c).allow_cache_only { unimplemented!() }
#[verifier::external_body] proof fn counted(s: Seq<TagComparisonDifference>) ensures told(s).len() == s.len() { unimplemented!() }
#[verifier::external_body] fn forget(c: &mut Context, n: usize) requires n <= old(c).differences@.len() ensures told(final(c).differences@) == told(old(c).differences@).take(n as int), final(c).differences@.len() == n, final(c).allow_cache_only == old(c).allow_cache_only { unimplemented!() }
/// what comparing two values finds (assumed contract of the dispatch on the type of value)
pub uninterp spec fn found(a: Value, b: Value, path: Seq<char>, depth: int, raw: bool, short: bool) -> Seq<Diff>;
#[verifier::external_body] fn compare_tag_data(first: &Value, second: &Value, path: &mut Path, comparison: &mut Context, depth: usize, abbreviated: bool) requires old(path)@.len() > 0
    ensures final(path)@ == old(path)@, final(comparison).allow_cache_only == old(comparison).allow_cache_only, told(final(comparison).differences@) == told(old(comparison).differences@) + found(*first, *second, old(path)@, depth as int, old(comparison).allow_cache_only, abbreviated) { unimplemented!() }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// elements in order, each under its index
pub open spec fn elements(a: Seq<Value>, b: Seq<Value>, n: int, path: Seq<char>, depth: int, raw: bool, short: bool) -> Seq<Diff> decreases n { if n <= 0 { seq![] } else { elements(a, b, n - 1, path, depth, raw, short) + found(a[n - 1], b[n - 1], path + text_of(n - 1), depth + 1, raw, short) } }
pub open spec fn arrays(a: Seq<Value>, b: Seq<Value>, path: Seq<char>, depth: int, raw: bool, short: bool) -> Seq<Diff> {
    (if a.len() == b.len() { seq![] } else { seq![one(depth, path, lengths(a.len() as int, b.len() as int))] }) + elements(a, b, min(a.len() as int, b.len() as int), path, depth, raw, short) }
/// a list with more than one difference is one difference when minimized
pub open spec fn squashed(a: Value, d: Seq<Diff>, path: Seq<char>, depth: int, short: bool) -> Seq<Diff> { if short && a.list() is Some && a.list()->Some_0@.len() > 1 && d.len() > 1 { seq![one(depth, path, minimized(d.len() as int))] } else { d } }
/// fields in order, each under its name; those of cache files only when asked
pub open spec fn members(a: Value, b: Value, n: int, path: Seq<char>, depth: int, raw: bool, short: bool) -> Seq<Diff> decreases n { if n <= 0 { seq![] } else { let f = a.names()[n - 1]; members(a, b, n - 1, path, depth, raw, short) + (if !raw && a.hidden(f) { seq![] } else {
    let p = path + dotted(f); squashed(a.field(f), found(a.field(f), b.field(f), p, depth + 1, raw, short), p, depth + 1, short) }) } }
'''
PUSH = (r'comparison\.differences\.push\(TagComparisonDifference \{\s*depth,\s*path: path\[1\.\.\]\.to_owned\(\),\s*difference: format!\("length is different \(\{flength\} != \{slength\}\)"\)\s*\}\);', 'report(comparison, depth, path, say_lengths(flength, slength));', 'adding a difference as a function; its text is not under contract')
CMP = [(r'path: &mut String', 'path: &mut Path', 'text of a path as its characters')]
SAME = 'final(path)@ == old(path)@, final(comparison).allow_cache_only == old(comparison).allow_cache_only, told(final(comparison).differences@) == told(old(comparison).differences@) + '
UNITS = [
    dict(name='parts', about='filthy part indices of models and gbxmodels are defaulted and undefaulted together, for every part of every geometry, and nothing else changes; unsetting and setting again is setting', trusted=True, spec=PARTS, lemmas='', items=[
        part('set_defaults_for_model_geometry_part', 'false'), part('unset_defaults_for_model_geometry_part', 'true'),
        model('set_defaults_for_model', 'Model', '', '', 'false'), model('unset_defaults_for_model', 'Model', '', '', 'true'), model('set_defaults_for_gbxmodel', 'GBXModel', '', '', 'false'), model('unset_defaults_for_gbxmodel', 'GBXModel', '', '', 'true')]),
    dict(name='floats', about='defaults of light volumes, looping sounds, particles, lights, objects and shader maps: exactly the documented values when exactly the documented fields are zero; undone by unsetting; nothing else changes', trusted=True, spec=FLOATS, lemmas='', items=[
        two('light_volume.rs', 'set_defaults_for_light_volume', 'LightVolume', 'light_volume', 'perpendicular_brightness_scale', 'parallel_brightness_scale', 'false'), two('light_volume.rs', 'unset_defaults_for_light_volume', 'LightVolume', 'light_volume', 'perpendicular_brightness_scale', 'parallel_brightness_scale', 'true'),
        two('sound_looping.rs', 'set_defaults_for_sound_looping', 'SoundLooping', 'sound', 'zero_detail_sound_period', 'one_detail_sound_period', 'false'), two('sound_looping.rs', 'unset_defaults_for_sound_looping', 'SoundLooping', 'sound', 'zero_detail_sound_period', 'one_detail_sound_period', 'true'),
        particle('set_defaults_for_particle', 'false'), particle('unset_defaults_for_particle', 'true'), obj('set_defaults_for_object', 'false'), obj('unset_defaults_for_object', 'true'),
        Item(D + 'light.rs', 'fn', 'set_or_unset_defaults_for_light', vis='', rewrite=down('light', 'Light') + [(r': (\d)\.0\b', r': num(\1)', 'a floating point literal as a function'), (r'lower_rgb == from && upper_rgb == from', 'eq_rgb(&lower_rgb, &from) && eq_rgb(&upper_rgb, &from)', 'comparison of colors as a function')],
            spec='ensures final(light).color.color == color(old(light).color.color, undefault), final(light).color.rest == old(light).color.rest, final(light).rest == old(light).rest'),
        Item(D + 'shader.rs', 'fn', 'fix_map_scale', vis='', rewrite=[ZERO] + LITS, spec='ensures (*final(u), *final(v)) == scales((*old(u), *old(v)), undefault)'),
        maps('fix_chicago_map_reflexive', 'ShaderTransparentChicagoMap', 'chicago'), maps('fix_generic_map_reflexive', 'ShaderTransparentGenericMap', 'generic'),
        Item(D + 'shader.rs', 'fn', 'fix_shader_model', vis='', rewrite=down('shader', 'ShaderModel'), spec='ensures final(shader).rest == old(shader).rest, final(shader).maps.rest == old(shader).maps.rest, (final(shader).maps.map_u_scale, final(shader).maps.map_v_scale) == scales((old(shader).maps.map_u_scale, old(shader).maps.map_v_scale), undefault)'),
        shader('fix_shader_transparent_generic', 'ShaderTransparentGeneric', ['maps'], 'generic'), shader('fix_shader_transparent_chicago', 'ShaderTransparentChicago', ['maps'], 'chicago'), shader('fix_shader_transparent_chicago_extended', 'ShaderTransparentChicagoExtended', ['_2_stage_maps', '_4_stage_maps'], 'chicago')]),
    dict(name='compare', about='comparison of lists, structures and data: differences of the elements and fields in order under their paths and depths, a difference of length first, cache-only fields only when asked, lists minimized only when asked; the path is left as it was', trusted=True, spec=COMPARE, lemmas='', items=[
        Item(C, 'fn', 'compare_data', vis='', rewrite=CMP + [PUSH, (r'if first != second \{\s*let first = crc64[\s\S]*?return;\s*\}', 'if !same_bytes(first, second) { report(comparison, depth, path, say_contents(first, second)); return; }', 'the checksums in the text are not under contract')],
            spec='requires old(path)@.len() > 0 ensures ' + SAME + '(if first@.len() != second@.len() { seq![one(depth as int, old(path)@, lengths(first@.len() as int, second@.len() as int))] } else if first@ != second@ { seq![one(depth as int, old(path)@, contents(first@, second@))] } else { seq![] })',
            start='proof { let t = told(old(comparison).differences@); assert(t + Seq::<Diff>::empty() =~= t); assert forall|d: Diff| #[trigger] t.push(d) == t + seq![d] by { assert(t.push(d) =~= t + seq![d]); } }'),
        Item(C, 'fn', 'compare_array', vis='', attrs=ISO, rewrite=CMP + [(r'&dyn DynamicTagDataArray', '&Array', 'the dynamic interface'), PUSH, (r'path\.len\(\)', 'path.size()', 'path as its characters'), (r'\*path \+= &format!\("\[\{i\}\]"\);', 'path.add_index(i);', 'path as its characters'), (r'path\.truncate\(', 'path.cut(', 'path as its characters'),
                (r'for i in 0\.\.flength\.min\(slength\) \{', 'let mut next_i = 0usize; let until = if flength < slength { flength } else { slength }; while next_i < until { let i = next_i; next_i += 1;', '`for` written as `while`')],
            spec='requires old(path)@.len() > 0, depth < usize::MAX ensures ' + SAME + 'arrays(first@, second@, old(path)@, depth as int, old(comparison).allow_cache_only, abbreviated)',
            start='let ghost before = told(comparison.differences@); let ghost p0 = path@; let ghost raw = comparison.allow_cache_only; proof { assert(before + Seq::<Diff>::empty() =~= before); }',
            at=[(r'let length_before', 'before', 'let ghost head = told(comparison.differences@); proof { assert(head =~= before + (if first@.len() == second@.len() { seq![] } else { seq![one(depth as int, p0, lengths(first@.len() as int, second@.len() as int))] })); assert(head + Seq::<Diff>::empty() =~= head); }'),
                (r'path\.cut\(length_before\);', 'after', 'proof { assert(path@ =~= p0); assert(told(comparison.differences@) =~= head + elements(first@, second@, i + 1, p0, depth as int, raw, abbreviated)); }')],
            loops=[dict(spec='invariant next_i <= until, path@ == p0, length_before == p0.len(), comparison.allow_cache_only == raw, told(comparison.differences@) == head + elements(first@, second@, next_i as int, p0, depth as int, raw, abbreviated) decreases until - next_i',
                after='proof { assert(told(comparison.differences@) =~= before + arrays(first@, second@, p0, depth as int, raw, abbreviated)); }')]),
        Item(C, 'fn', 'compare_tag_data_blocks', vis='', attrs=ISO, rewrite=CMP + [(r'<T: DynamicTagData \+ \?Sized>\(first: &T, second: &T', '(first: &Value, second: &Value', 'the dynamic interface'), (r'path\.len\(\)', 'path.size()', 'path as its characters'), (r'\*path \+= "\.";', 'path.add_dot();', 'path as its characters'), (r'\*path \+= i;', 'path.add_name(i);', 'path as its characters'), (r'path\.truncate\(', 'path.cut(', 'path as its characters'),
                (r'for i in first\.fields\(\) \{', 'let names = first.fields(); let mut next_i = 0usize; let ghost (one_side, other_side) = (*first, *second); while next_i < names.len() { let i = &names[next_i]; next_i += 1; let ghost so_far = told(comparison.differences@); proof { assert(so_far + Seq::<Diff>::empty() =~= so_far); assert(members(one_side, other_side, next_i as int - 1, p0, depth as int, raw, abbreviated) + Seq::<Diff>::empty() =~= members(one_side, other_side, next_i as int - 1, p0, depth as int, raw, abbreviated)); }', '`for` written as `while`'),
                (r'metadata\.is_some_and\(\|f\| f\.cache_only\)', 'match metadata { Some(f) => f.cache_only, None => false }', '`is_some_and` written as a match'),
                (r'first\.as_array\(\)\.is_some_and\(\|a\| a\.len\(\) > 1\)', '(match first.as_array() { Some(a) => a.len() > 1, None => false })', '`is_some_and` written as a match'),
                (r'let amount_start = comparison\.differences\.len\(\);', 'let amount_start = comparison.differences.len(); proof { counted(comparison.differences@); }', 'proof'),
                (r'let amount_end = comparison\.differences\.len\(\);', 'let amount_end = comparison.differences.len(); proof { counted(comparison.differences@); }', 'proof'),
                (r'comparison\.differences\.truncate\(amount_start\);\s*comparison\.differences\.insert\(amount_start, TagComparisonDifference \{\s*depth: depth_inner,\s*path: path\[1\.\.\]\.to_owned\(\),\s*difference: format!\("\{differences_found\} difference\(s\) found \(minimized\)"\)\s*\}\)', 'forget(comparison, amount_start); report(comparison, depth_inner, path, say_minimized(differences_found));', 'replacing differences by one as functions; its text is not under contract')],
            spec='requires depth < usize::MAX ensures ' + SAME + 'members(*first, *second, first.names().len() as int, old(path)@, depth as int, old(comparison).allow_cache_only, abbreviated)',
            start='let ghost before = told(comparison.differences@); let ghost p0 = path@; let ghost raw = comparison.allow_cache_only; proof { assert(before + Seq::<Diff>::empty() =~= before); }',
            at=[(r'compare_tag_data\(first, second, path', 'before', 'proof { assert(path@ =~= p0 + dotted(*i)); }'),
                (r'path\.cut\(length_before\);', 'after', 'proof { assert(path@ =~= p0); let d = found(*first, *second, p0 + dotted(*i), depth + 1, raw, abbreviated); let s = squashed(*first, d, p0 + dotted(*i), depth + 1, abbreviated); assert((so_far + d).take(so_far.len() as int) =~= so_far); assert(told(comparison.differences@) =~= so_far + s); assert(told(comparison.differences@) =~= before + members(one_side, other_side, next_i as int, p0, depth as int, raw, abbreviated)); }')],
            loops=[dict(spec='invariant next_i <= names@.len(), names@ == one_side.names(), one_side == *first, other_side == *second, path@ == p0, length_before == p0.len(), comparison.allow_cache_only == raw, told(comparison.differences@) == before + members(one_side, other_side, next_i as int, p0, depth as int, raw, abbreviated) decreases names@.len() - next_i')])])]
