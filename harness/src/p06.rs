//! P06: tag paths are normalised, stay inside the tags folder, and survive every textual form.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::primitive::*;
use std::path::{Component, Path};

pub const GROUPS: &[TagGroup] = &{
    use TagGroup::*;
    [Actor, ActorVariant, Antenna, Biped, Bitmap, CameraTrack, ColorTable, ContinuousDamageEffect, Contrail, DamageEffect, Decal, DetailObjectCollection, Device, DeviceControl,
    DeviceLightFixture, DeviceMachine, Dialogue, Effect, Equipment, Flag, Fog, Font, Garbage, GBXModel, Globals, Glow, GrenadeHUDInterface, HUDGlobals, HUDMessageText, HUDNumber,
    InputDeviceDefaults, Item, ItemCollection, LensFlare, Light, LightVolume, Lightning, MaterialEffects, Meter, Model, ModelAnimations, ModelCollisionGeometry,
    MultiplayerScenarioDescription, Object, Particle, ParticleSystem, Physics, Placeholder, PointPhysics, PreferencesNetworkGame, Projectile, Scenario, ScenarioStructureBSP, Scenery,
    Shader, ShaderEnvironment, ShaderModel, ShaderTransparentChicago, ShaderTransparentChicagoExtended, ShaderTransparentGeneric, ShaderTransparentGlass, ShaderTransparentMeter,
    ShaderTransparentPlasma, ShaderTransparentWater, Sky, Sound, SoundEnvironment, SoundLooping, SoundScenery, Spheroid, StringList, TagCollection, UIWidgetCollection,
    UIWidgetDefinition, UnicodeStringList, Unit, UnitHUDInterface, Vehicle, VirtualKeyboard, Weapon, WeaponHUDInterface, WeatherParticleSystem, Wind]
};

const RESERVED: &[&str] = &["con", "prn", "aux", "nul", "com0", "com1", "com2", "com3", "com4", "com5", "com6", "com7", "com8", "com9",
    "lpt0", "lpt1", "lpt2", "lpt3", "lpt4", "lpt5", "lpt6", "lpt7", "lpt8", "lpt9"];

/// Specification: the stored form of a path text, or none if the text is not a tag path.
fn spec(text: &str) -> Option<String> {
    let mut out = String::new();
    for c in text.chars() {
        let c = if std::path::is_separator(c) || c == '\\' { '\\' } else { c };
        if "/:*?\"<>|".contains(c) || (c as u32) < 0x20 || c as u32 == 0x7F { return None }
        if c == '\\' && out.ends_with('\\') { continue }
        out.push(if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c });
    }
    if out.starts_with('\\') { return None }
    for part in out.split('\\') { if part.ends_with('.') || RESERVED.contains(&part) { return None } }
    Some(out)
}

/// Path text assembled from pieces that matter.
pub fn text() -> String {
    let mut s = String::new();
    for _ in 0..nd::below(7) {
        match nd::below(14) {
            0 | 1 => s.push_str(["\\", "/", "\\\\", "//", "/\\", "\\/"][nd::below(6)]),
            2 => s.push_str([".", "..", "...", "./", "..\\"][nd::below(5)]),
            3 => { let r = RESERVED[nd::below(RESERVED.len())]; let r = if nd::bool() { r.to_uppercase() } else { r.to_string() }; s.push_str(&r) },
            4 => s.push(nd::below(0x80) as u8 as char),
            5 => s.push(char::from_u32(nd::u32() % 0x3000).unwrap_or('\u{212A}')),
            6 => s.push_str([":", "c:", "*", "?", "\"", "<", ">", "|", "\0", "\n", "\x7f", " ", "İ", "K"][nd::below(14)]),
            7 => s.push_str(["weapon", ".weapon", "Weapon.weapon", "a.b", "bitmap"][nd::below(5)]),
            _ => for _ in 0..1 + nd::below(4) { s.push((b'a' + nd::below(26) as u8) as char); if nd::below(4) == 0 { s.push((b'A' + nd::below(26) as u8) as char) } }
        }
    }
    s
}
pub fn group() -> TagGroup { GROUPS[nd::below(GROUPS.len())] }

contracts! {
    native normalise(iters 120000) "TagPath::new: the stored form, or an error exactly for text that is not a tag path; the stored form is its own stored form" {
        let t = text();
        let g = group();
        let r = TagPath::new(&t, g);
        assert_eq!(r.as_ref().ok().map(|p| p.path()), spec(&t).as_deref(), "{t:?}");
        if let Ok(p) = r {
            assert!(p.group() == g);
            let q = TagPath::new(p.path(), g).unwrap();
            assert!(q == p && q.path() == p.path(), "normalising twice changes nothing");
            cover!(p.path().contains('\\'), "folders");
        }
    }
    native every_char(iters 4000) "TagPath::new: every single character, first, inside and last" {
        let b = nd::below(0x110) as u32;
        for c in (b * 0x1000..(b + 1) * 0x1000).step_by(1 + nd::below(7)).filter_map(char::from_u32) {
            for t in [format!("{c}"), format!("a{c}b"), format!("a\\{c}"), format!("a{c}")] {
                assert_eq!(TagPath::new(&t, TagGroup::Weapon).ok().map(|p| p.path().to_owned()), spec(&t), "{t:?}");
            }
        }
    }
    native ascii_pairs(iters 1) "TagPath::new: all strings of up to two ASCII characters, alone and inside a folder" {
        for a in 0..0x80u8 { for b in 0..0x80u8 {
            for t in [format!("{}", a as char), format!("{}{}", a as char, b as char), format!("x\\{}{}", a as char, b as char), format!("{}{}\\y", a as char, b as char)] {
                assert_eq!(TagPath::new(&t, TagGroup::Weapon).ok().map(|p| p.path().to_owned()), spec(&t), "{t:?}");
            }
        } }
    }
    native reserved(iters 1) "TagPath::new: every reserved device name is refused as a whole component in any position and case, and allowed as part of a longer name" {
        for r in RESERVED { for t in [r.to_string(), r.to_uppercase(), format!("a\\{r}"), format!("{r}\\a"), format!("a/{r}/b")] {
            assert!(TagPath::new(&t, TagGroup::Sound).is_err(), "{t}");
            assert!(TagPath::new(&format!("{t}a"), TagGroup::Sound).is_ok() || t.len() > 4, "{t}a");
            assert!(TagPath::new(&format!("{r}x\\x{r}"), TagGroup::Sound).is_ok());
        } }
    }
    native contained(iters 80000) "TagPath::new, to_native_path: the file name it stands for is relative and never climbs out of the tags folder" {
        let t = text();
        if let Ok(p) = TagPath::new(&t, group()) {
            let n = p.to_native_path();
            let root = Path::new("/tags");
            let full = root.join(&n);
            assert!(full.starts_with(root), "{n}");
            let mut depth = 0;
            for c in Path::new(&n).components() {
                match c { Component::Normal(_) => depth += 1, Component::CurDir => {}, _ => panic!("{n} leaves the tags folder") }
            }
            assert!(depth >= 1);
            cover!(depth > 2, "nested");
        }
    }
    native forms(iters 80000) "to_internal_path, to_native_path, to_zip_path, Display, from_path, split_str_path, base_name: every textual form leads back to the same path" {
        let t = text();
        let g = group();
        if let Ok(p) = TagPath::new(&t, g) {
            let i = p.to_internal_path();
            assert_eq!(i, format!("{}.{}", p.path(), g.as_str()));
            assert!(TagPath::split_str_path(&i) == Some((p.path(), g)));
            assert!(TagPath::from_path(&i).unwrap() == p, "internal form");
            assert!(TagPath::from_path(&p.to_native_path()).unwrap() == p, "native form");
            assert!(TagPath::from_path(&p.to_zip_path()).unwrap() == p, "zip form");
            assert!(TagPath::from_path(&p.to_string()).unwrap() == p, "printed form");
            assert!(!p.to_zip_path().contains('\\'));
            let b = p.base_name();
            assert!(!b.contains('\\') && p.path().ends_with(b) && (b.len() == p.path().len() || p.path().as_bytes()[p.path().len() - b.len() - 1] == b'\\'), "the base name is the last component");
            cover!(b.contains('.'), "dots in names");
        }
    }
    native from_path(iters 80000) "TagPath::from_path: the text up to the last dot and the group named after it; an error when there is no such group" {
        let mut t = text();
        match nd::below(4) { 0 => {}, 1 => t.push('.'), _ => { t.push('.'); t.push_str(group().as_str()); if nd::below(8) == 0 { t.push('x') } } }
        let want = t.rfind('.').and_then(|d| GROUPS.iter().find(|g| g.as_str() == &t[d + 1..]).and_then(|g| spec(&t[..d]).map(|p| (p, *g))));
        assert_eq!(TagPath::from_path(&t).ok().map(|p| (p.path().to_owned(), p.group())), want, "{t:?}");
        cover!(want.is_some(), "accepted");
    }
    native order(iters 40000) "TagPath ordering, equality and hash agree" {
        use std::hash::{Hash, Hasher};
        let mk = || TagPath::new(&text(), GROUPS[nd::below(3)]);
        if let (Ok(a), Ok(b)) = (mk(), mk()) {
            assert!((a == b) == (a.path() == b.path() && a.group() == b.group()));
            assert!((a == b) == (a.cmp(&b) == std::cmp::Ordering::Equal));
            assert!(a.cmp(&b) == b.cmp(&a).reverse());
            let h = |x: &TagPath| { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() };
            assert!(a != b || h(&a) == h(&b));
            let mut c = a.clone();
            c.set_group(b.group());
            assert!(c.group() == b.group() && c.path() == a.path());
        }
    }
}
