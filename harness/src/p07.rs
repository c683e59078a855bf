//! P07: tag groups, their names and their codes are in bijection.
use crate::{cover, md, nd, Contract};
use ringhopper_primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper_primitives::parse::*;
use ringhopper_primitives::primitive::*;

/// Specification: the file extension and code of every group, as the game's own tools use them.
const TABLE: &[(TagGroup, &str, &[u8; 4])] = &{
    use TagGroup::*;
    [(Actor, "actor", b"actr"), (ActorVariant, "actor_variant", b"actv"), (Antenna, "antenna", b"ant!"), (Biped, "biped", b"bipd"), (Bitmap, "bitmap", b"bitm"),
    (CameraTrack, "camera_track", b"trak"), (ColorTable, "color_table", b"colo"), (ContinuousDamageEffect, "continuous_damage_effect", b"cdmg"), (Contrail, "contrail", b"cont"),
    (DamageEffect, "damage_effect", b"jpt!"), (Decal, "decal", b"deca"), (DetailObjectCollection, "detail_object_collection", b"dobc"), (Device, "device", b"devi"),
    (DeviceControl, "device_control", b"ctrl"), (DeviceLightFixture, "device_light_fixture", b"lifi"), (DeviceMachine, "device_machine", b"mach"), (Dialogue, "dialogue", b"udlg"),
    (Effect, "effect", b"effe"), (Equipment, "equipment", b"eqip"), (Flag, "flag", b"flag"), (Fog, "fog", b"fog "), (Font, "font", b"font"), (Garbage, "garbage", b"garb"),
    (GBXModel, "gbxmodel", b"mod2"), (Globals, "globals", b"matg"), (Glow, "glow", b"glw!"), (GrenadeHUDInterface, "grenade_hud_interface", b"grhi"), (HUDGlobals, "hud_globals", b"hudg"),
    (HUDMessageText, "hud_message_text", b"hmt "), (HUDNumber, "hud_number", b"hud#"), (InputDeviceDefaults, "input_device_defaults", b"devc"), (Item, "item", b"item"),
    (ItemCollection, "item_collection", b"itmc"), (LensFlare, "lens_flare", b"lens"), (Light, "light", b"ligh"), (LightVolume, "light_volume", b"mgs2"), (Lightning, "lightning", b"elec"),
    (MaterialEffects, "material_effects", b"foot"), (Meter, "meter", b"metr"), (Model, "model", b"mode"), (ModelAnimations, "model_animations", b"antr"),
    (ModelCollisionGeometry, "model_collision_geometry", b"coll"), (MultiplayerScenarioDescription, "multiplayer_scenario_description", b"mply"), (Object, "object", b"obje"),
    (Particle, "particle", b"part"), (ParticleSystem, "particle_system", b"pctl"), (Physics, "physics", b"phys"), (Placeholder, "placeholder", b"plac"), (PointPhysics, "point_physics", b"pphy"),
    (PreferencesNetworkGame, "preferences_network_game", b"ngpr"), (Projectile, "projectile", b"proj"), (Scenario, "scenario", b"scnr"), (ScenarioStructureBSP, "scenario_structure_bsp", b"sbsp"),
    (Scenery, "scenery", b"scen"), (Shader, "shader", b"shdr"), (ShaderEnvironment, "shader_environment", b"senv"), (ShaderModel, "shader_model", b"soso"),
    (ShaderTransparentChicago, "shader_transparent_chicago", b"schi"), (ShaderTransparentChicagoExtended, "shader_transparent_chicago_extended", b"scex"),
    (ShaderTransparentGeneric, "shader_transparent_generic", b"sotr"), (ShaderTransparentGlass, "shader_transparent_glass", b"sgla"), (ShaderTransparentMeter, "shader_transparent_meter", b"smet"),
    (ShaderTransparentPlasma, "shader_transparent_plasma", b"spla"), (ShaderTransparentWater, "shader_transparent_water", b"swat"), (Sky, "sky", b"sky "), (Sound, "sound", b"snd!"),
    (SoundEnvironment, "sound_environment", b"snde"), (SoundLooping, "sound_looping", b"lsnd"), (SoundScenery, "sound_scenery", b"ssce"), (Spheroid, "spheroid", b"boom"),
    (StringList, "string_list", b"str#"), (TagCollection, "tag_collection", b"tagc"), (UIWidgetCollection, "ui_widget_collection", b"Soul"), (UIWidgetDefinition, "ui_widget_definition", b"DeLa"),
    (UnicodeStringList, "unicode_string_list", b"ustr"), (Unit, "unit", b"unit"), (UnitHUDInterface, "unit_hud_interface", b"unhi"), (Vehicle, "vehicle", b"vehi"),
    (VirtualKeyboard, "virtual_keyboard", b"vcky"), (Weapon, "weapon", b"weap"), (WeaponHUDInterface, "weapon_hud_interface", b"wphi"), (WeatherParticleSystem, "weather_particle_system", b"rain"),
    (Wind, "wind", b"wind")]
};
/// Specification: what each group extends.
const PARENTS: &[(TagGroup, TagGroup)] = &{
    use TagGroup::*;
    [(Unit, Object), (Item, Object), (Device, Object), (Biped, Unit), (Vehicle, Unit), (Weapon, Item), (Garbage, Item), (Equipment, Item), (DeviceMachine, Device), (DeviceControl, Device),
    (DeviceLightFixture, Device), (Projectile, Object), (Scenery, Object), (Placeholder, Object), (SoundScenery, Object), (ShaderModel, Shader), (ShaderEnvironment, Shader),
    (ShaderTransparentChicago, Shader), (ShaderTransparentChicagoExtended, Shader), (ShaderTransparentGeneric, Shader), (ShaderTransparentGlass, Shader), (ShaderTransparentMeter, Shader),
    (ShaderTransparentPlasma, Shader), (ShaderTransparentWater, Shader)]
};

contracts! {
    proof fourcc(unwind 90, iters 60000) "TagGroup::from_fourcc, as_fourcc: a code is the code of the group it leads to; all ones is unset; every other code is refused" {
        let v = nd::u32();
        match TagGroup::from_fourcc(v) {
            Some(g) => assert!(g.as_fourcc() == v || (v == u32::MAX && g == TagGroup::_Unset), "a code leads to a group with another code"),
            None => assert!(v != 0 && v != u32::MAX)
        }
        let (g, _, code) = TABLE[nd::below(TABLE.len())];
        let c = u32::from_be_bytes(*code);
        assert!(g.as_fourcc() == c, "the code of a group");
        assert!(TagGroup::from_fourcc(c) == Some(g), "the code of a group leads back to it");
        assert!(TagGroup::_Unset.as_fourcc() == 0 && TagGroup::from_fourcc(0) == Some(TagGroup::_Unset));
    }
    native names(iters 1) "TagGroup::as_str, from_str, Display: every group has its own name, which leads back to it; codes are distinct" {
        for (i, (g, name, code)) in TABLE.iter().enumerate() {
            assert_eq!(g.as_str(), *name);
            assert_eq!(g.to_string(), *name);
            assert!(TagGroup::from_str(name).ok() == Some(*g), "{name}");
            assert_eq!(g.as_fourcc(), u32::from_be_bytes(**code), "{name}");
            assert!(TagGroup::from_fourcc(u32::from_be_bytes(**code)) == Some(*g), "{name}");
            for (h, m, d) in &TABLE[..i] { assert!(g != h && name != m && code != d && g.as_str() != h.as_str() && g.as_fourcc() != h.as_fourcc(), "{name} {m}") }
        }
        assert!(TagGroup::default() == TagGroup::_Unset);
    }
    native other_names(iters 60000) "TagGroup::from_str: any other text is refused" {
        let base = TABLE[nd::below(TABLE.len())].1.to_string();
        let t: String = match nd::below(7) {
            0 => (0..nd::below(12)).map(|_| nd::below(0x80) as u8 as char).collect(),
            1 => base.to_uppercase(),
            2 => base.clone() + ["s", " ", "_", "\0", "2"][nd::below(5)],
            3 => base[..nd::below(base.len())].to_string(),
            4 => { let mut b = base.clone().into_bytes(); let k = nd::below(b.len()); b[k] = b'a' + nd::below(26) as u8; String::from_utf8(b).unwrap() },
            5 => ["<unset>", "", "_unset", "unset", "~", "<"][nd::below(6)].to_string(),
            _ => base.clone()
        };
        let want = TABLE.iter().find(|x| x.1 == t).map(|x| x.0);
        assert!(TagGroup::from_str(&t).ok() == want, "{t:?}");
    }
    native other_codes(iters 60000) "TagGroup::from_fourcc, TryFrom: any other code is refused" {
        let c = match nd::below(3) { 0 => nd::u32(), 1 => u32::from_be_bytes(*TABLE[nd::below(TABLE.len())].2) ^ (1 << nd::below(32)), _ => u32::from_be_bytes(*TABLE[nd::below(TABLE.len())].2).wrapping_add(nd::below(3) as u32).wrapping_sub(1) };
        let want = TABLE.iter().find(|x| u32::from_be_bytes(*x.2) == c).map(|x| x.0).or(if c == 0 || c == u32::MAX { Some(TagGroup::_Unset) } else { None });
        assert!(TagGroup::from_fourcc(c) == want, "{c:08X}");
        assert!(TagGroup::try_from(c).ok() == want, "{c:08X}");
        assert!(TagGroup::read::<BigEndian>(&c.to_be_bytes(), 0, 4).ok() == want);
        assert!(TagGroup::read::<LittleEndian>(&c.to_le_bytes(), 0, 4).ok() == want);
    }
    native ordering(iters 1) "TagGroup ordering is the ordering of names" {
        for (g, n, _) in TABLE { for (h, m, _) in TABLE { assert!(g.cmp(h) == n.cmp(m) && g.partial_cmp(h) == Some(n.cmp(m))) } }
    }
    native parents(iters 1) "TagGroup::subgroup, full_subgroup_tree: each group extends exactly the group it should; chains end within three" {
        for (g, n, _) in TABLE {
            let want = PARENTS.iter().find(|p| p.0 == *g).map(|p| p.1);
            assert!(g.subgroup() == want, "{n}");
            let a = want.unwrap_or(TagGroup::_Unset);
            let b = PARENTS.iter().find(|p| p.0 == a).map(|p| p.1).unwrap_or(TagGroup::_Unset);
            assert!(g.full_subgroup_tree() == [*g, a, b], "{n}");
            assert!(b.subgroup().is_none());
        }
    }
}
