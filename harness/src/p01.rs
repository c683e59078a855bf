//! P01: a tag file of any group reads as the value its bytes spell out in the format, and is written back as exactly
//! those bytes.
use crate::{cover, nd, spec::*, Contract};
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::tag::*;
use ringhopper_structs::*;
use std::any::Any;

fn one(g: &Group, seed: u64, budget: usize) {
    let mut m = Maker::new(seed, budget, Side::Tag);
    let v = m.struct_val(g.root);
    let (mut body, tail) = tag_struct(g.root, &v, &mut Some(&mut m.rng));
    body.extend(tail);
    let sum = if m.rng.below(8) == 0 { u32::MAX } else { crc(&body) };
    let mut file = tag_header(g, sum);
    // the first 36 bytes and the padding of the header carry no meaning
    for i in (0..0x24).chain(0x30..0x38) { if m.rng.below(2) == 0 { file[i] = m.rng.u8() } }
    file.extend(&body);
    let want = read_struct(g.root, &v, Side::Tag);
    let (mut out, tail) = tag_struct(g.root, &want, &mut None);
    out.extend(tail);
    let mut saved = tag_header(g, crc(&out));
    saved.extend(&out);
    cover!(file.len() > 3000, "large tag");
    cover!(file.len() < 500, "small tag");

    let mut tag = match read_any_tag_from_file_buffer(&file, ParseStrictness::Strict) { Ok(t) => t, Err(e) => panic!("{}: a well-formed tag is refused: {e}", g.name) };
    assert!(code_of(tag.group()) == g.code, "{}: read as another group", g.name);
    if let Err(e) = same_struct(g.root, &want, tag.as_dynamic(), &g.name) { panic!("tag file read as another value: {e}") }
    let w = tag.to_tag_file().expect("a value read from a tag file is written");
    assert!(w == saved, "{}: tag file written differently from the format (first difference at {:?})", g.name, (0..w.len().max(saved.len())).find(|i| w.get(*i) != saved.get(*i)));
    // what is not stored in tag files does not get into them
    if scribble(g.root, tag.as_mut_dynamic(), &mut m.rng) {
        let w = tag.to_tag_file().expect("a value read from a tag file is written");
        assert!(w == saved, "{}: a field that tag files do not store was written (first difference at {:?})", g.name, (0..w.len().max(saved.len())).find(|i| w.get(*i) != saved.get(*i)));
    }
}

/// Give fixed-size fields that tag files do not store other values.
fn scribble(s: usize, d: &mut dyn DynamicTagData, r: &mut Rng) -> bool {
    let l = layout();
    let mut any = false;
    for f in &l.structs[s].fields {
        if f.kind == Kind::Pad || f.exclude { continue }
        let x = d.get_field_mut(&f.matcher).unwrap();
        if stored(f, Side::Tag) {
            match f.kind {
                Kind::Struct(s) => any |= scribble(s, x, r),
                Kind::List(s) => { let a = x.as_array_mut().unwrap(); for k in 0..a.len() { any |= scribble(s, a.get_at_index_mut(k).unwrap(), r) } },
                Kind::Bits(b) => for bit in &l.bits[b].bits { if bit.3 && !bit.2 { *x.get_field_mut(&bit.1).unwrap().as_any_mut().downcast_mut::<bool>().unwrap() = true; any = true } },
                _ => ()
            }
        }
        else {
            let a = x.as_any_mut();
            let n = r.next() as u32 | 1;
            if let Some(x) = a.downcast_mut::<f64>() { *x = (n % 1000) as f64; any = true }
            else if let Some(x) = a.downcast_mut::<u8>() { *x = n as u8; any = true }
            else if let Some(x) = a.downcast_mut::<i16>() { *x = n as i16; any = true }
            else if let Some(x) = a.downcast_mut::<u16>() { *x = n as u16; any = true }
            else if let Some(x) = a.downcast_mut::<u32>() { *x = n; any = true }
            else if let Some(x) = a.downcast_mut::<ID>() { *x = ID::from_u32(n); any = true }
            else if let Some(x) = a.downcast_mut::<Index>() { *x = Some((n % 99) as u16); any = true }
            else if let Some(x) = a.downcast_mut::<Address>() { *x = Address::from(n); any = true }
            else if let Some(x) = a.downcast_mut::<TagGroup>() { *x = TagGroup::Bitmap; any = true }
            else if let Some(x) = a.downcast_mut::<Data>() { x.bytes = vec![1, 2, 3]; any = true }
            else if let Some(x) = a.downcast_mut::<Vector3D>() { x.y = 2.0; any = true }
            else if let Some(x) = a.downcast_mut::<Matrix3x3>() { x.vectors[1].y = 2.0; any = true }
            else if let Some(x) = x.as_enum_mut() { let o = x.get_possible_enum_string_values(); let o = o[r.below(o.len())]; x.set_enum_string_value(o).unwrap(); any = true }
        }
    }
    any
}

fn sweep(budget: usize) {
    let l = layout();
    let seed = nd::u64();
    let g = nd::u64() as usize % l.groups.len();
    one(&l.groups[g], seed, budget);
}

contracts! {
    native every_group(iters 1) "TagFile::read_tag_from_file_buffer, read_any_tag_from_file_buffer, TagFile::to_tag_file and the generated TagData of every structure: each group once, against the pinned layout" {
        let l = layout();
        let seed = nd::u64();
        for (i, g) in l.groups.iter().enumerate() { for k in 0..3 { one(g, seed.wrapping_add((i * 3 + k) as u64), [0, 2000, 60000][k]) } }
    }
    native any_group(iters 100000) "the same for any group, value and unstored bytes" { sweep(6000) }
    native large(iters 4000) "the same with large arrays and data" { sweep(400_000) }
}
