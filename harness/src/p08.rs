//! P08: identifiers, indices and packed script values lose nothing.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::error::Error;

contracts! {
    proof id_packing(unwind 2, iters 60000) "ID::new, index, salt, as_u32, is_null, is_valid: every index up to 65534 and every salt come back; the identifier is valid and never null" {
        let (i, s) = (nd::u16(), nd::u16());
        nd::assume(i != 0xFFFF);
        let id = ID::new(Some(i), s);
        assert!(!id.is_null(), "an identifier of something is not null");
        assert!(id.is_valid(), "a created identifier is valid");
        assert!(id.index() == Some(i), "the index comes back");
        assert!(id.salt() == Some(s & 0x7FFF), "the low 15 bits of the salt come back");
        assert!(id.as_u32() == (i as u32) | ((((s ^ i) | 0x8000) as u32) << 16), "the stored form");
        assert!(u32::from(id) == id.as_u32());
    }
    proof id_distinct(unwind 2, iters 60000) "ID::new: different index or salt, different identifier" {
        let (i, s, j, t) = (nd::u16(), nd::u16() & 0x7FFF, nd::u16(), nd::u16() & 0x7FFF);
        nd::assume(i != 0xFFFF && j != 0xFFFF);
        assert!((ID::new(Some(i), s) == ID::new(Some(j), t)) == (i == j && s == t));
        assert!(ID::new(None, s).is_null() && ID::new(None, s) == ID::null(), "no index, null identifier");
    }
    proof id_raw(unwind 2, iters 60000) "ID::from_u32, from_u32_checked, index, salt: raw values are kept; exactly those with the top bit set pass the check; index and salt rebuild the identifier" {
        let v = nd::u32();
        let id = ID::from_u32(v);
        assert!(id.as_u32() == v);
        assert!(id.is_null() == (v == u32::MAX));
        assert!(id.is_valid() == (v >> 31 == 1));
        let c = md(ID::from_u32_checked(v));
        match &*c { Ok(x) => assert!(v >> 31 == 1 && x.as_u32() == v), Err(_) => assert!(v >> 31 == 0, "a valid identifier was rejected") }
        assert!(id.index().is_none() == id.is_null() && id.salt().is_none() == id.is_null());
        if let (Some(i), Some(s)) = (id.index(), id.salt()) {
            assert!(i as u32 == v & 0xFFFF);
            if i != 0xFFFF && id.is_valid() { assert!(ID::new(Some(i), s) == id, "an identifier is its index and salt") }
        }
        assert!(ID::default().is_null());
    }
    proof script_value(unwind 2, iters 60000) "ScenarioScriptNodeValue from/into bool, i8, i16, i32, f32, ID: what goes in comes out" {
        assert!(bool::from(ScenarioScriptNodeValue::from(true)) && !bool::from(ScenarioScriptNodeValue::from(false)));
        let a = nd::i8();
        assert!(i8::from(ScenarioScriptNodeValue::from(a)) == a);
        let b = nd::i16();
        assert!(i16::from(ScenarioScriptNodeValue::from(b)) == b);
        let c = nd::i32();
        assert!(i32::from(ScenarioScriptNodeValue::from(c)) == c && ScenarioScriptNodeValue::from(c).data == c as u32);
        let d = nd::u32();
        assert!(ScenarioScriptNodeValue::from(f32::from_bits(d)).data == d && f32::from(ScenarioScriptNodeValue { data: d }).to_bits() == d);
        assert!(ScenarioScriptNodeValue::from(ID::from_u32(d)).data == d && ID::from(ScenarioScriptNodeValue { data: d }).as_u32() == d);
        let v = ScenarioScriptNodeValue { data: d };
        assert!(i8::from(v) == d as u8 as i8 && i16::from(v) == d as u16 as i16 && i32::from(v) == d as i32);
        assert!(bool::from(v) == (d & 0xFF != 0), "only the low byte is the boolean");
        // narrow values are stored sign-extended
        assert!(ScenarioScriptNodeValue::from(a).data == a as i32 as u32 && ScenarioScriptNodeValue::from(b).data == b as i32 as u32);
    }
    proof index(unwind 4, iters 60000) "Index::read, write: FFFF is no index, anything else is that index; FFFF as an index is refused" {
        let v = nd::u16();
        let b = v.to_be_bytes();
        let r = md(Index::read::<BigEndian>(&b, 0, 2));
        match &*r { Ok(x) => assert!(*x == if v == 0xFFFF { None } else { Some(v) }), Err(_) => assert!(false) }
        let mut o = [0u8; 2];
        let w = md(Some(v).write::<LittleEndian>(&mut o, 0, 2));
        match &*w {
            Ok(()) => assert!(v != 0xFFFF && o == v.to_le_bytes()),
            Err(e) => assert!(v == 0xFFFF && matches!(e, Error::IndexLimitExceeded), "a storable index was refused"),
        }
        let n: Index = None;
        let w = md(n.write::<LittleEndian>(&mut o, 0, 2));
        assert!(w.is_ok() && o == [0xFF; 2]);
        cover!(v == 0xFFFF, "no index");
    }
    native padding(iters 60000) "calculate_padding_for_alignment: the padded size is the next multiple, and padding is less than the alignment" {
        let (s, a) = (nd::u16() as usize, nd::u16() as usize);
        nd::assume(a != 0);
        let p = calculate_padding_for_alignment(s, a);
        assert!(p < a && (s + p) % a == 0);
    }
}
