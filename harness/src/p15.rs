//! P15: text in tags: fixed strings, UTF-16 strings, string lists and tag collections.
use crate::{cover, nd, Contract};
use crate::spec::Rng;
use ringhopper::definitions::*;
use ringhopper::primitives::error::*;
use ringhopper::primitives::parse::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper::tag::unicode_string_list::*;
use ringhopper::tag::tag_collection::*;

/// A character: mostly letters, with white space, control characters and others of every length mixed in.
fn letter(r: &mut Rng, odd: usize) -> char {
    match r.below(odd) {
        0 => *[' ', '\t', '~', '\u{80}', '\u{FFFD}', 'é', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{E000}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}', '😀', '\u{FEFF}', '\u{85}', '\u{2028}', '_', '#', '\u{1F4A9}'].iter().nth(r.below(20)).unwrap(),
        1 => char::from_u32(r.next() as u32 % 0x110000).filter(|c| !c.is_ascii_control()).unwrap_or('x'),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
fn word(r: &mut Rng, n: usize) -> String { (0..n).map(|_| letter(r, 6)).collect() }
/// A character which may be anything.
fn raw(r: &mut Rng) -> char { match r.below(5) { 0 => ['\r', '\n', '\r', '\n', '\u{1}', '\u{1F}', '\u{7F}', '\t'][r.below(8)], _ => letter(r, 8) } }
/// What text in a UTF-16 string becomes: line ends are CR LF, other control characters than tabs are dropped.
fn clean(s: &str) -> String {
    let s = s.split('\0').next().unwrap();
    s.chars().filter(|c| !c.is_ascii_control() || matches!(c, '\t' | '\n')).collect::<String>().replace('\n', "\r\n")
}
/// Nothing has to be cleaned.
fn is_clean(s: &str) -> bool { clean(s) == s }
fn units(s: &str) -> Vec<u8> { s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect() }
fn stored(bytes: &[u8]) -> UTF16String {
    let mut d = (bytes.len() as u32).to_be_bytes().to_vec(); d.resize(20, 0); d.extend_from_slice(bytes);
    let mut at = 20; let s = UTF16String::read_from_tag_file(&d, 0, 20, &mut at).unwrap(); assert_eq!(at, d.len()); s
}
fn list(strings: &[String]) -> UnicodeStringList { UnicodeStringList { strings: Reflexive::new(strings.iter().map(|s| UnicodeStringListString { string: UTF16String::from_str(s) }).collect()), ..Default::default() } }
fn texts(l: &UnicodeStringList) -> Vec<String> { (0..l.string_count()).map(|i| l.read_string_data(i).unwrap().to_string()).collect() }
const END: &str = "###END-STRING###";
fn line(r: &mut Rng) -> String { let n = [0, 0, 1, 3, 12][r.below(5)]; match r.below(12) { 0 => ["###END-STRING##", "###END-STRING### ", "###END-STRING###\t", "###END-STRING####", "\t###END-STRING###", "###END-STRING###x"][r.below(6)].into(), 1 => " ###END-STRING###".into(), 2 => "###end-string###".into(), _ => word(r, n) } }
fn encode(r: &mut Rng, s: &str) -> Vec<u8> { match r.below(3) {
    0 => s.as_bytes().to_vec(),
    1 => [0xFF, 0xFE].into_iter().chain(units(s)).collect(),
    _ => [0xFE, 0xFF].into_iter().chain(s.encode_utf16().flat_map(|u| u.to_be_bytes())).collect() } }

crate::contracts! {
    native string32_text(iters 200000) "String32::from_str: text of up to 31 bytes is kept exactly, padded with zeros; longer text is refused" {
        let mut r = Rng(nd::u64());
        let n = r.below(34); let mut s = String::new();
        while s.len() < n { s.push(if r.below(4) == 0 { raw(&mut r) } else { letter(&mut r, 9) }); }
        let x = String32::from_str(&s);
        assert_eq!(x.is_ok(), s.len() <= 31, "{s:?}");
        cover!(s.len() == 31, "longest"); cover!(s.len() == 32, "too long");
        let Ok(x) = x else { assert!(matches!(x, Err(Error::String32SizeLimitExceeded))); return };
        assert_eq!(x.as_str(), s); assert_eq!(x.to_string(), s); assert!(x == *s.as_str() && x == s && s.as_str() == x && s == x);
        assert!(x != *format!("{s}x").as_str());
        let mut want = s.as_bytes().to_vec(); want.resize(32, 0);
        for le in [false, true] {
            let mut d = vec![0xEE; 34];
            if le { x.write::<LittleEndian>(&mut d, 1, 33).unwrap() } else { x.write::<BigEndian>(&mut d, 1, 33).unwrap() }
            assert_eq!(&d[1..33], want); assert!(d[0] == 0xEE && d[33] == 0xEE);
            let y = if le { String32::read::<LittleEndian>(&d, 1, 33) } else { String32::read::<BigEndian>(&d, 1, 33) }.unwrap();
            assert_eq!(x, y);
        }
    }
    native string32_bytes(iters 300000) "String32::from_bytes_lossy: the text up to the first NUL and at most 31 bytes, what is no UTF-8 replaced; nothing after it stays" {
        let mut r = Rng(nd::u64());
        let mut b = [0u8; 32];
        let s = word(&mut r, 40); b.copy_from_slice(&s.as_bytes()[..32]);
        match r.below(4) { 0 => for x in b.iter_mut() { if r.below(3) == 0 { *x = r.u8() } }, 1 => for _ in 0..1 + r.below(3) { b[r.below(32)] = r.u8() }, _ => () }
        for _ in 0..r.below(3) { b[r.below(32)] = 0 }
        let end = b.iter().position(|&x| x == 0).unwrap_or(31).min(31);
        let want = match std::str::from_utf8(&b[..end]) { Ok(s) => s.to_owned(), Err(_) => String::from_utf8_lossy(&b[..end]).replace('\u{FFFD}', "_") };
        cover!(std::str::from_utf8(&b[..end]).is_err(), "not UTF-8"); cover!(!b.contains(&0), "no NUL");
        let x = String32::from_bytes_lossy(&b);
        assert!(std::str::from_utf8(x.as_str().as_bytes()).is_ok()); assert_eq!(x.as_str(), want);
        let mut d = [0xEEu8; 32]; x.write::<BigEndian>(&mut d, 0, 32).unwrap();
        let mut all = want.into_bytes(); all.resize(32, 0); assert_eq!(&d[..], all, "what is written is the text and zeros");
        assert_eq!(String32::from_bytes_lossy(&d), x); assert_eq!(String32::from_str(x.as_str()).unwrap(), x);
    }
    native utf16_text(iters 200000) "UTF16String::from_str: any text becomes valid UTF-16 with CR LF line ends, a NUL at the end and no other control characters than tabs" {
        let mut r = Rng(nd::u64());
        let n = r.below(20); let mut s: String = (0..n).map(|_| raw(&mut r)).collect();
        if r.below(8) == 0 && n > 0 { let i = s.char_indices().nth(r.below(n)).unwrap().0; s.insert(i, '\0') }
        let want = clean(&s);
        for x in [UTF16String::from_str(&s), s.parse::<UTF16String>().unwrap()] {
            assert_eq!(x.get_string().unwrap().as_str(), want, "{s:?}"); assert_eq!(x.get_string_lossy().unwrap().as_str(), want); assert_eq!(x.to_string(), want);
            let mut b = units(&want); b.extend([0, 0]); assert_eq!(x.get_utf16_bytes(), b, "{s:?}");
            assert_eq!(stored(&b).get_string().unwrap().as_str(), want); assert!(stored(&b) == x && x.clone() == x);
            assert_eq!(x.clone().get_string().unwrap().as_str(), want);
        }
        assert!(UTF16String::default() == UTF16String::from_str("") && UTF16String::default().get_string().unwrap().is_empty());
    }
    native utf16_bytes(iters 200000) "UTF16String: stored bytes are kept, and accepted exactly when they are clean, terminated UTF-16; otherwise what can be read is given as damaged" {
        let mut r = Rng(nd::u64());
        let n = r.below(12); let s: String = (0..n).map(|_| if r.below(8) == 0 { raw(&mut r) } else { letter(&mut r, 6) }).collect();
        let s = if r.below(2) == 0 { clean(&s) } else { s };
        let mut b = units(&s); b.extend([0, 0]);
        match r.below(6) { 0 => for _ in 0..1 + r.below(2) { let i = r.below(b.len()); b[i] = [0, 0xD8, 0xDC, r.u8()][r.below(4)] }, 1 => b.truncate(r.below(b.len() + 1)), 2 => b.push([0, r.u8()][r.below(2)]), 3 => b.extend([0, 0]), _ => () }
        let x = stored(&b); assert_eq!(x.get_utf16_bytes(), b);
        if b.len() % 2 != 0 || b.is_empty() { assert!(x.get_string().is_err() && x.get_string_lossy().is_err_and(|e| e.is_empty())); return }
        let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        let terminated = *u.last().unwrap() == 0; let body = if terminated { &u[..u.len() - 1] } else { &u[..] };
        let upto = body.iter().position(|&c| c == 0).unwrap_or(body.len());
        let text = String::from_utf16(&body[..upto]);
        let ok = terminated && upto == body.len() && text.as_ref().is_ok_and(|t| is_clean(t));
        cover!(ok, "accepted"); cover!(!ok && text.is_ok(), "dirty"); cover!(text.is_err(), "not UTF-16");
        for _ in 0..2 {
            assert_eq!(x.get_string().is_ok(), ok, "{b:02X?}");
            let lossy = clean(&String::from_utf16_lossy(&body[..upto]));
            match x.get_string_lossy() { Ok(t) => { assert!(ok); assert_eq!(t.as_str(), lossy); assert_eq!(t, x.get_string().unwrap()) }, Err(t) => { assert!(!ok); assert_eq!(t.as_str(), lossy) } }
            assert_eq!(x.to_string(), lossy);
        }
        let y = x.clone(); assert!(y == x && y.get_string().is_ok() == ok);
        let mut d = vec![0; 20]; x.write_to_tag_file(&mut d, 0, 20).unwrap(); assert_eq!(&d[20..], b); assert_eq!(&d[..4], (b.len() as u32).to_be_bytes());
    }
    native list_round_trip(iters 100000) "UnicodeStringList: the text made from a list is its strings line by line, each ended by ###END-STRING###, and reads back as the same list" {
        let mut r = Rng(nd::u64());
        let strings: Vec<String> = (0..r.below(6)).map(|_| (0..r.below(5)).map(|_| line(&mut r)).collect::<Vec<_>>().join("\r\n")).collect();
        let l = list(&strings); assert_eq!(l.string_count(), strings.len()); assert_eq!(texts(&l), strings);
        let d = l.as_text_data().unwrap();
        let mut want = String::from("\u{FEFF}"); for s in &strings { if !s.is_empty() { for x in s.split("\r\n") { want += x; want += "\r\n" } } want += END; want += "\r\n" }
        cover!(strings.iter().any(|s| s.ends_with("\r\n")), "blank last line");
        assert_eq!(d, units(&want), "{strings:?}");
        assert_eq!(UnicodeStringList::from_text_data(&d).unwrap(), l, "{strings:?}");
        if !strings.is_empty() { let mut bad = l.clone(); let i = r.below(strings.len()); bad.strings.items[i].string = stored(&[b'x', 0]);
            assert!(matches!(bad.as_text_data(), Err(UnicodeStringListError::InvalidStringData))); assert!(matches!(bad.read_string_data(i), Err(UnicodeStringListError::InvalidStringData))); }
    }
    native list_text(iters 100000) "UnicodeStringList::from_text_data: strings are the lines between ###END-STRING### lines, in any of three encodings; a missing end, a NUL or a wrong encoding is refused" {
        let mut r = Rng(nd::u64());
        let mut text = String::new(); let mut want = vec![]; let mut cur: Vec<String> = vec![]; let (mut open, nl) = (false, r.below(3));
        for _ in 0..r.below(12) {
            let end = r.below(3) == 0; let x = if end { END.to_owned() } else { line(&mut r) };
            text += &x; text += if nl == 0 || nl == 2 && r.below(2) == 0 { "\n" } else { "\r\n" };
            if end { want.push(cur.join("\r\n")); cur.clear(); open = false } else { cur.push(x); open |= !cur.last().unwrap().is_empty() }
        }
        let trimmed = r.below(3) == 0 && !text.is_empty(); if trimmed { let k = text.trim_end_matches(['\n', '\r']).len(); text.truncate(k) }
        let (kind, mut b) = { let k = r.below(8); match k {
            0 if !text.is_empty() => { let at = text.char_indices().nth(r.below(text.chars().count())).unwrap().0; text.insert(at, '\0'); (1, encode(&mut r, &text)) },
            1 => { let mut b = text.clone().into_bytes(); b.insert(r.below(b.len() + 1), 0xFF); (if b.len() >= 2 && b.len() % 2 == 0 && (b.starts_with(&[0xFF, 0xFE]) || b.starts_with(&[0xFE, 0xFF])) { 3 } else { 1 }, b) },
            2 => { let mut b: Vec<u8> = [0xFF, 0xFE].into_iter().chain(units(&text)).collect(); let lone = (0xD800 + r.below(0x400) as u16).to_le_bytes(); b.extend(lone); (1, b) },
            3 => { let mut b: Vec<u8> = [0xFE, 0xFF].into_iter().chain(text.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(); b.push(b'x'); (1, b) },
            _ => (0, encode(&mut r, &text)) } };
        if kind == 3 { return }
        let got = UnicodeStringList::from_text_data(&b); b.clear();
        if kind == 1 { assert!(matches!(got, Err(UnicodeStringListError::InvalidStringData)), "{text:?}"); return }
        cover!(want.len() > 1 && !open, "several"); cover!(open, "no end");
        if open { assert!(matches!(got, Err(UnicodeStringListError::MissingEndString)), "{text:?}"); return }
        assert_eq!(texts(&got.unwrap()), want, "{text:?}");
    }
    native collections(iters 100000) "TagCollectionFunctions::from_text_data: one reference per line that is not empty, in order; the first line that is no path is named" {
        let mut r = Rng(nd::u64());
        let (mut text, mut want, mut bad) = (String::new(), vec![], None);
        let n = r.below(8);
        for i in 0..n {
            let kind = r.below(10); let g = [TagGroup::Bitmap, TagGroup::Sound, TagGroup::UIWidgetDefinition, TagGroup::GBXModel][r.below(4)];
            match kind { 0 | 1 => (),
                2 if r.below(4) == 0 => { let x = ["no extension", "a\\b.nothing", ".bitmap", "a\\\\.bitmap", "  ", "x.BITMAP "][r.below(6)]; if TagPath::from_path(x).is_err() { bad = bad.or(Some((i + 1, x.to_owned()))); } else { want.push(TagPath::from_path(x).unwrap()) } text += x },
                _ => { let p = format!("{}{}", ["", "dir\\", "a/b\\"][r.below(3)], ["x", "some tag", "y.z"][r.below(3)]); let p = format!("{p}.{g}"); want.push(TagPath::from_path(&p).unwrap()); text += &p } }
            text += if i + 1 == n && r.below(2) == 0 { "" } else if r.below(2) == 0 { "\n" } else { "\r\n" };
        }
        let want: Vec<TagReference> = want.into_iter().map(TagReference::Set).collect();
        cover!(bad.is_some(), "bad line"); cover!(want.len() > 2, "several");
        macro_rules! both { ($($t:ty),*) => { $( match <$t>::from_text_data(text.as_bytes()) {
            Ok(c) => { assert!(bad.is_none(), "{text:?}"); assert_eq!(c.tags.items.iter().map(|t| t.reference.clone()).collect::<Vec<_>>(), want); assert!(c.tags.items.iter().all(|t| *t == TagCollectionTag { reference: t.reference.clone() })) },
            Err(TagCollectionError::BadTagPath(l, s)) => assert_eq!(Some((l, s)), bad, "{text:?}"),
            Err(TagCollectionError::InvalidTextFile) => panic!("{text:?}") } )* } }
        both!(TagCollection, UIWidgetCollection);
        let mut b = text.into_bytes(); b.insert(r.below(b.len() + 1), 0xFF);
        assert!(matches!(TagCollection::from_text_data(&b), Err(TagCollectionError::InvalidTextFile)));
    }
}
