//! P14: matchers and the dynamic view reach exactly the items they name.
use crate::{cover, nd, Contract};
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

type Rows = Reflexive<Reflexive<Bounds<u32>>>;

/// which indices of an array a list of ranges names; none: malformed or out of bounds
fn ranges(text: &str, len: usize) -> Option<Vec<usize>> {
    let mut on = vec![false; len];
    for part in text.split(',') {
        if part == "*" { on.iter_mut().for_each(|x| *x = true); continue }
        let ends: Vec<&str> = part.split('-').collect();
        if ends.len() > 2 { return None }
        let num = |s: &str| -> Option<usize> {
            if s == "e" { return len.checked_sub(1) }
            if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) { return None }
            let mut n = 0usize;
            for b in s.bytes() { n = n.checked_mul(10)?.checked_add((b - b'0') as usize)? }
            Some(n)
        };
        let a = num(ends[0])?;
        let b = match ends.get(1) { Some(e) => num(e)?, None => a };
        if a > b || b >= len { return None }
        for i in a..=b { on[i] = true }
    }
    Some((0..len).filter(|i| on[*i]).collect())
}
fn any_number(len: usize) -> String {
    match nd::below(12) { 0 => "e".into(), 1 => format!("{:03}", nd::below(len + 2)), 2 => nd::usize().to_string(), 3 => len.to_string(), 4 => "18446744073709551616".into(), _ => nd::below(len.max(1)).to_string() }
}
fn any_ranges(len: usize) -> String {
    if nd::below(6) == 0 { const C: &[u8] = b"0123456789,-*e+ x"; let n = nd::below(7); return (0..n).map(|_| C[nd::below(C.len())] as char).collect() }
    let n = 1 + nd::below(5);
    let parts: Vec<String> = (0..n).map(|_| match nd::below(10) { 0 => "*".into(), 1..=4 => any_number(len), _ => {
        let (mut a, mut b) = (nd::below(len.max(1)), nd::below(len.max(1)));
        if nd::below(8) != 0 && a > b { std::mem::swap(&mut a, &mut b) }
        match nd::below(6) { 0 => format!("{a}-e"), 1 => format!("{}-{}", any_number(len), any_number(len)), _ => format!("{a}-{b}") }
    } }).collect();
    parts.join(",")
}
fn rows() -> Rows {
    let n = nd::below(14);
    Reflexive::new((0..n).map(|i| { let m = nd::below(5); Reflexive::new((0..m).map(|j| Bounds { lower: (i * 100 + j * 2) as u32, upper: (i * 100 + j * 2 + 1) as u32 }).collect()) }).collect())
}
fn number(d: &dyn DynamicTagData) -> Option<u32> { d.as_any().downcast_ref::<u32>().copied() }

contracts! {
    native ranges_select(iters 60000) "foreach with an index list visits exactly the items the list names, each once, in ascending order; a malformed or out-of-bounds list is an error" {
        let len = nd::below(24);
        let a: Reflexive<Bounds<u32>> = Reflexive::new((0..len as u32).map(|i| Bounds { lower: i, upper: i + 1000 }).collect());
        let t = any_ranges(len);
        let want = ranges(&t, len);
        let mut got = Some(Vec::new());
        (&a as &dyn DynamicTagData).foreach(&format!("[{t}].lower"), |r| { match (r, got.as_mut()) { (Ok(x), Some(g)) => g.push(number(x).unwrap() as usize), (Err(_), _) => got = None, _ => {} } true });
        assert_eq!(got, want, "[{t}] of {len} items");
        cover!(want.as_ref().is_some_and(|w| w.len() > 3), "selected");
        cover!(want.is_none(), "refused");
        assert_eq!((&a as &dyn DynamicTagData).validate_matcher(&format!("[{t}].lower")).is_ok(), want.is_some());
    }
    native nested(iters 20000) "nested matchers visit the product of their selections in order; foreach_mut reaches the same items and changes only those; a callback that returns false stops it" {
        let mut a = rows();
        let before = a.clone();
        let (o, i) = (any_ranges(a.items.len()), match nd::below(3) { 0 => "*".into(), _ => any_ranges(3) });
        let field = ["lower", "upper"][nd::below(2)];
        let m = format!("[{o}][{i}].{field}");
        let mut want: Option<Vec<u32>> = Some(vec![]);
        match ranges(&o, a.items.len()) { None => want = None, Some(rows) => for r in rows {
            let row = &a.items[r];
            match (ranges(&i, row.items.len()), want.as_mut()) { (Some(s), Some(w)) => for k in s { w.push(if field == "lower" { row.items[k].lower } else { row.items[k].upper }) }, _ => want = None }
        } }
        let mut got = Some(vec![]);
        (&a as &dyn DynamicTagData).foreach(&m, |r| { match (r, got.as_mut()) { (Ok(x), Some(g)) => g.push(number(x).unwrap()), (Err(_), _) => got = None, _ => {} } true });
        assert_eq!(got, want, "{m}");
        cover!(want.as_ref().is_some_and(|w| w.len() > 2), "selected");
        let Some(want) = want else { return };
        let stop = nd::below(want.len() + 1);
        let mut seen = 0;
        (&mut a as &mut dyn DynamicTagData).foreach_mut(&m, |r| { *r.unwrap().as_any_mut().downcast_mut::<u32>().unwrap() |= 0x8000_0000; seen += 1; seen != stop });
        assert_eq!(seen, if stop == 0 { want.len() } else { stop }, "stops when the callback returns false");
        for (x, y) in before.items.iter().zip(&a.items) { for (b, c) in x.items.iter().zip(&y.items) { for (p, q, f) in [(b.lower, c.lower, "lower"), (b.upper, c.upper, "upper")] {
            let hit = f == field && want.iter().position(|w| *w == p).is_some_and(|k| k < seen);
            assert_eq!(q, if hit { p | 0x8000_0000 } else { p });
        } } }
    }
    native text(iters 30000) "any text is a matcher or an error; it never panics, and validation agrees with use" {
        const C: &[char] = &['[', ']', '.', '0', '1', ',', '-', '*', 'e', 'l', 'é', '漢', ' '];
        const W: &[&str] = &["[", "]", ".", "[0]", "[*]", "lower", "upper", "[0-1]", "[0,1]", "é", "]."];
        let n = nd::below(8);
        let t: String = if nd::bool() { (0..n).map(|_| C[nd::below(C.len())]).collect() } else { (0..n).map(|_| W[nd::below(W.len())]).collect() };
        let mut a = rows();
        let mut ok = true;
        (&a as &dyn DynamicTagData).foreach(&t, |r| { ok &= r.is_ok(); true });
        assert_eq!((&a as &dyn DynamicTagData).validate_matcher(&t).is_ok(), ok);
        let mut okm = true;
        (&mut a as &mut dyn DynamicTagData).foreach_mut(&t, |r| { okm &= r.is_ok(); true });
        assert_eq!(ok, okm);
    }
    native view(iters 20000) "the dynamic view of an array: get_at_index gives each item by position and none past the end; insert_default, insert_copy and insert_moved put the item at the position and move the rest" {
        let n = nd::below(6);
        let mut a: Reflexive<Bounds<u32>> = Reflexive::new((0..n as u32).map(|i| Bounds { lower: i + 1, upper: nd::u32() }).collect());
        let mut want = a.items.clone();
        let at = nd::below(n + 1);
        let k = match nd::below(3) { 0 => nd::usize(), _ => nd::below(8) };
        {
            let v = (&a as &dyn DynamicTagData).as_array().expect("is an array");
            assert_eq!(v.len(), n);
            assert_eq!(v.get_at_index(k).map(|x| *x.as_any().downcast_ref::<Bounds<u32>>().unwrap()), want.get(k).copied());
        }
        assert_eq!((&mut a as &mut dyn DynamicTagData).as_array_mut().unwrap().get_at_index_mut(k).is_some(), k < n);
        let mut x = Bounds { lower: nd::u32(), upper: nd::u32() };
        let r = (&mut a as &mut dyn DynamicTagData).as_reflexive_mut().expect("a reflexive is a reflexive");
        match nd::below(3) {
            0 => { r.insert_default(at); want.insert(at, Bounds::default()) }
            1 => { r.insert_copy(at, &x); want.insert(at, x) }
            _ => { want.insert(at, x); r.insert_moved(at, &mut x) }
        }
        assert_eq!(a.items, want);
        let mut f = [nd::u16(), nd::u16(), nd::u16()];
        assert_eq!((&f as &dyn DynamicTagData).as_array().unwrap().get_at_index(k).map(|x| *x.as_any().downcast_ref::<u16>().unwrap()), f.get(k).copied());
        assert!((&mut f as &mut dyn DynamicTagData).as_reflexive_mut().is_none());
        let mut b = Bounds { lower: 1u32, upper: 2 };
        assert_eq!((&b as &dyn DynamicTagData).as_array().unwrap().get_at_index(k).map(|x| number(x).unwrap()), [1u32, 2].get(k).copied());
        for (f, v) in [("lower", 1), ("upper", 2)] { assert_eq!(number((&b as &dyn DynamicTagData).get_field(f).unwrap()), Some(v)); assert!((&mut b as &mut dyn DynamicTagData).get_field_mut(f).is_some()) }
        assert!((&b as &dyn DynamicTagData).get_field("x").is_none());
    }
}
