From 8c78f95774c64dbd7508e54e08454165e6e10c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 01/47] fix: ID::from_u32_checked rejected valid IDs and
 accepted invalid ones

---
 src/ringhopper-primitives/src/primitive/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..3106ae0 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -134,7 +134,7 @@ impl ID {
     /// Convert from a [`u32`] with validity checks.
     pub const fn from_u32_checked(id: u32) -> RinghopperResult<Self> {
         let id = Self::from_u32(id);
-        if id.is_valid() {
+        if !id.is_valid() {
             Err(Error::InvalidID)
         }
         else {
-- 
2.43.0


From bd7e60618e195b62cfd2ba020d08e5e7776e4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 02/47] fix: DataC wrote its address after its padding, so it
 did not read back what it wrote

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 3106ae0..e7da9c2 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -1003,8 +1003,8 @@ impl SimpleTagData for DataC {
         self.size.write::<B>(data, at, struct_end)?;
         self.flags.write::<B>(data, at + 0x4, struct_end)?;
         self.file_offset.write::<B>(data, at + 0x8, struct_end)?;
-        self.padding.write::<B>(data, at + 0xC, struct_end)?;
-        self.address.write::<B>(data, at + 0x10, struct_end)?;
+        self.address.write::<B>(data, at + 0xC, struct_end)?;
+        self.padding.write::<B>(data, at + 0x10, struct_end)?;
         Ok(())
     }
 }
-- 
2.43.0


From f446701b0662702f7d33e7737876c31e869cefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 03/47] fix: Plane2D and Plane3D reported their in-memory size
 as their serialized size

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From 2b606e5d3033cf925a3c4a52bf45975459d7d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 04/47] fix: data addressed below a BSP's base was never looked
 up in the tag data

---
 src/ringhopper-primitives/src/map.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..7d9d81e 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,8 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
-
-        let data = domain_start.get(offset..end);
+        let data = address.checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +186,8 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address.checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From 7bdddf29b5b97d5b8f80427782a5a35377b6c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 05/47] fix: arrays in tag files and maps were allocated before
 checking that their items exist

---
 src/ringhopper-primitives/src/primitive/data.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index e7da9c2..44571e6 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
@@ -596,13 +596,15 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+
+        // Don't trust the count until we know all of the items are there
+        let mut item_offset = *extra_data_cursor;
+        *extra_data_cursor = fits(total_length, item_offset, data.len())?;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
 
-        let mut item_offset = *extra_data_cursor;
-        *extra_data_cursor = (item_offset).add_overflow_checked(total_length)?;
-
         for _ in 0..count {
             let struct_end = item_offset + item_size;
             result.items.push(T::read_from_tag_file(data, item_offset, struct_end, extra_data_cursor)?);
@@ -641,8 +643,9 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         // Make sure we can add all of these
         count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
 
+        // Don't allocate based on the count, since nothing guarantees all of the items are there
         let mut result = Reflexive {
-            items: Vec::with_capacity(count)
+            items: Vec::new()
         };
 
         for _ in 0..count {
-- 
2.43.0


From 4136b6508dd02d5e5c735ccb4f23e40ac91ced90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 06/47] fix: the wind tag group could not be looked up by name

---
 src/ringhopper-primitives/src/primitive/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..d0c8379 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,7 +215,8 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        // The last entry is the unset group, which isn't in alphabetical order (and isn't a real group)
+        ALL_GROUPS[..TagGroup::_Unset as usize].binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From d11ed6c814c9eb181331c11fc5427dbe54cdb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 07/47] fix: a reference to an empty path was followed by a
 terminator that is not read back

---
 src/ringhopper-primitives/src/primitive/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..55b82a0 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -500,8 +500,11 @@ impl TagData for TagReference {
                 }
             },
             TagReference::Set(path) => {
-                data.extend_from_slice(path.path.as_bytes());
-                data.push(0x00);
+                // A length of zero denotes a null reference which does not have a path to read
+                if !path.path.is_empty() {
+                    data.extend_from_slice(path.path.as_bytes());
+                    data.push(0x00);
+                }
                 TagReferenceC {
                     tag_group: path.group,
                     path_length: path.path.len().into_u32()?,
-- 
2.43.0


From 3736a2ff024f15fa2818e440bad5cef71feb1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 08/47] fix: get_at_index panicked rather than returning None
 past the end

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 44571e6..2a4b0a6 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -871,11 +871,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 5569f2edb0a89156026023c0d5b752f6a5c38118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 09/47] fix: a reflexive could not be accessed as a
 DynamicReflexive

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 2a4b0a6..1782ac8 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -860,6 +860,10 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
         DynamicTagDataType::Reflexive
     }
 
+    fn as_reflexive_mut(&mut self) -> Option<&mut dyn DynamicReflexive> {
+        Some(self as &mut dyn DynamicReflexive)
+    }
+
     fn as_array(&self) -> Option<&dyn DynamicTagDataArray> {
         Some(self as &dyn DynamicTagDataArray)
     }
-- 
2.43.0


From 6a60da0218870a0b9bd5c76c968cbb248b7fa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 10/47] fix: shifted_by_one was looked up on the struct rather
 than the field

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..fee7061 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From cc653c48f1b8647a4830181bc11fde937ae85cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 11/47] fix: do not allocate by the untrusted element count of
 a resource map

---
 src/ringhopper/src/map/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..f3f7fff 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new();
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From d9ac107156d3d4477e47b36c4bf95aec74310320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 12/47] fix: return an error instead of panicking if the
 scenario tag ID of a cache file is invalid

---
 src/ringhopper/src/map/gearbox.rs | 2 +-
 src/ringhopper/src/map/util.rs    | 5 +++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..3fbbbd6 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..5bf3f31 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,9 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, scenario_tag: ID, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map.get_tag_by_id(scenario_tag)
+        .ok_or_else(|| Error::MapParseFailure("scenario tag ID does not refer to a tag; likely protected/corrupted map".to_string()))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..620aefd 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, map.scenario_tag, &map.tags)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From 3cd82bf4e27b192884b457a08bc9fbc9727653d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 13/47] fix: return an error instead of panicking if a BSP
 header is outside of its BSP

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 3fbbbd6..69e7210 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -161,8 +161,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From 1fd9300910280678f816cf516df614f8aa3a8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 14/47] fix: return an error instead of panicking if the
 decompressed size of a cache file is too small

---
 src/ringhopper/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..e421ca6 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -193,6 +193,10 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
+    if header.decompressed_size < CACHE_FILE_HEADER_LEN {
+        return Err(Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the header".to_owned()))
+    }
+
     let mut result = Vec::with_capacity(header.decompressed_size);
     result.extend_from_slice(&data[..compressed_start]);
     result.resize(header.decompressed_size, 0);
-- 
2.43.0


From 274ee63e6637716a56580d250bbc5aa5609d4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 15/47] fix: tag filters on paths with characters outside ASCII

The matcher stepped one byte at a time and panicked inside a longer character,
and the extension test counted characters against a byte position, so an
expected extension was not removed after such a character.
---
 src/ringhopper/src/tag/tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..0fd5c97 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -84,7 +84,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes().get(possible_dot) == Some(&b'.') && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -136,7 +136,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes().get(possible_dot) == Some(&b'.') && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -256,9 +256,9 @@ impl TagFilter {
 
             let what_first = what_first.unwrap();
 
-            filter = &filter[1..];
+            filter = &filter[filter_first.len_utf8()..];
             if filter_first != '*' {
-                what = &what[1..];
+                what = &what[what_first.len_utf8()..];
             }
 
             if filter_first == '?' || filter_first == what_first {
@@ -268,11 +268,11 @@ impl TagFilter {
                 if filter.is_empty() {
                     return true
                 }
-                while !what.is_empty() {
+                while let Some(c) = what.chars().next() {
                     if Self::filter_passes_raw(filter, what) {
                         return true
                     }
-                    what = &what[1..];
+                    what = &what[c.len_utf8()..];
                 }
                 return false
             }
-- 
2.43.0


From d3b0c8262a202ba15a640e8a8d740c625f4845b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 16/47] fix: items in several tags directories were listed once
 per directory

Only neighbouring duplicates were removed, so a virtual tags directory with two
directories that share a folder listed its tags twice.
---
 src/ringhopper/src/tag/tree.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 0fd5c97..fccb2cd 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -670,6 +670,7 @@ impl TagTree for VirtualTagsDirectory {
     }
     fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
         let mut result = Vec::new();
+        let mut seen = HashSet::new();
         let mut success = false;
 
         for dir_path in &self.directories {
@@ -712,14 +713,12 @@ impl TagTree for VirtualTagsDirectory {
                 });
 
             for f in entries {
-                result.push(f);
+                if seen.insert((f.path.to_string(), f.tag_group)) {
+                    result.push(f);
+                }
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
-
         if !success {
             return None
         }
-- 
2.43.0


From 638349d7fec946c9f00a7900bf5083a05af76fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 17/47] fix: a file whose name is no tag path crashed listing
 all tags

Such a file was listed as a tag, and making its path then panicked.
---
 src/ringhopper/src/tag/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index fccb2cd..789dab8 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -694,6 +694,7 @@ impl TagTree for VirtualTagsDirectory {
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
                         path.truncate(extension);
+                        TagPath::new(&path, tag_group).ok()?; // a file that cannot be a tag is not one
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
                             Cow::Owned(path),
-- 
2.43.0


From fbdbf98582a77e28eae92f5dcc5631db658d87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 18/47] fix: reverse dependencies return an error when a tag
 cannot be opened

The function returns a result but panicked.
---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..a2a6c60 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 532c4ad44e624f5c1df084df813c3738ea5c1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 19/47] fix: refactoring paths panicked when another tag could
 not be opened

Only renamed tags have an entry in the results.
---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a2a6c60..08924e5 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -340,7 +340,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.to_owned()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From 0e690fcd2ee0256163ceedf6413a3feb7aaca0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 20/47] fix: undoing a failed rename panicked if the old
 directory was removed

Directories that become empty are removed as the tags are moved.
---
 src/ringhopper/src/tag/dependency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 08924e5..df64755 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -280,6 +280,10 @@ pub fn refactor_paths_for_tag_tree(
 
         if undo_history.len() != tags_to_rename.len() {
             for i in undo_history {
+                // the directory may have been removed when it became empty
+                if let Some(parent) = i.0.parent() {
+                    let _ = std::fs::create_dir_all(parent);
+                }
                 std::fs::rename(&i.1, &i.0).unwrap();
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
-- 
2.43.0


From 352d3e3515a1b008b950396dc5fd65ba6b5f1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 21/47] fix: a reference was replaced again when its new path
 is itself replaced

Without moving tags, the new path of one tag can be the old path of another;
each reference is replaced once.
---
 src/ringhopper/src/tag/dependency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index df64755..6d5601f 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -356,6 +356,7 @@ pub fn refactor_paths_for_tag_tree(
                     if r.path() == Some(old_path) {
                         *r = TagReference::Set(new_path.to_owned());
                         changes_made = true;
+                        break;
                     }
                 }
             });
-- 
2.43.0


From f70178dc3dcbeb17b149b27af9613905196a76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 22/47] fix: a folder with the name of a tag was taken for the
 tag

It hid the tag of that path in later tags directories, and contains returned
true for it.
---
 src/ringhopper/src/tag/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 789dab8..479d460 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -645,7 +645,7 @@ impl VirtualTagsDirectory {
         for index in 0..self.directories.len() {
             let directory = &self.directories[index];
             let path_to_test = directory.join(&native_path);
-            if !path_to_test.exists() {
+            if !path_to_test.is_file() {
                 continue
             }
             return Some((index, path_to_test));
-- 
2.43.0


From d31e0604e8e2ce58d0dd822cebdd176dc753f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 23/47] fix: compress small negative floats to zero rather than
 -1.0

---
 src/ringhopper-primitives/src/primitive/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..2eece58 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -859,6 +859,10 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
+        // Negative values that round to zero are stored as zero, as setting only the sign bit is -1.0
+        if integer == max {
+            return 0
+        }
         integer = integer | 1 << (BITS - 1);
     }
 
-- 
2.43.0


From 36d8a063de89157744447efc9a7e1fca962e6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 24/47] fix: normalize_into accepts units other than 1.0, also
 for zero vectors

---
 src/ringhopper-primitives/src/primitive/vector.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index 2eece58..9a69e3b 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -41,12 +41,10 @@ pub trait Vector: Sized + Copy + Clone {
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
         if magnitude_sq == 0.0 {
-            return Self::one();
+            return Self::one().scale(unit);
         }
 
-        let result = self.scale(unit / magnitude_sq.sqrt());
-        debug_assert!(result.is_unit_vector());
-        result
+        self.scale(unit / magnitude_sq.sqrt())
     }
 
     /// Return `true` if the vector is a unit vector.
-- 
2.43.0


From 8059497c0b4c320f4d763caf5bb505ab300ad92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 25/47] fix: check shader and centroid node indices of model
 parts

---
 src/ringhopper/src/tag/model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..e889fc9 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -218,6 +218,7 @@ impl ModelFunctions for Model {
         check_base_model(self)?;
         for geometry in &self.geometries {
             for part in &geometry.parts {
+                check_base_part(self, &part)?;
                 check_indices_for_part(self, &part)?;
                 if part.flags.zoner {
                     return Err(Error::InvalidTagData("corrupted model: zoner is set on a tag that does not support local nodes".to_string()))
-- 
2.43.0


From aa1d81a3279d96fdcb47e7111cab991674861f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 26/47] fix: carry correctly when nudging rounds up a float

---
 src/ringhopper/src/tag/nudge.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..fd924b3 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -192,18 +192,23 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
     }
 
     // Do rounding here
+    let mut carry = round_up;
     if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
+        for byte in written[..sig_figs_end].iter_mut().rev().filter(|b| **b != b'.') {
             if *byte == b'9' {
                 *byte = b'0';
             } else {
                 *byte += 1;
+                carry = false;
                 break;
             }
         }
     }
 
     let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+
+    // If every digit was a 9, there is one more digit now
+    let fstr = if carry { format!("1{fstr}") } else { fstr.to_owned() };
     let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
     f * signum
 }
-- 
2.43.0


From c8bc88259d0e77e1dc075ba5381d5f4f640365a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 27/47] fix: refuse to extract a model whose vertices name
 nodes it does not have

Such vertices were compressed anyway, which panics (or stores another node).
---
 src/ringhopper/src/map/extract.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..f483a15 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -167,6 +167,18 @@ macro_rules! extract_vertices {
             $model.fix_uncompressed_vertices();
         }
         else {
+            // Compressing a vertex requires its nodes to exist.
+            if $model.supports_compressed_vertices() {
+                let node_count = $model.nodes.items.len();
+                let out_of_bounds = |node: Index| node.is_some_and(|n| n as usize >= node_count);
+                let mut vertices = $model.geometries.items
+                    .iter()
+                    .flat_map(|geo| geo.parts.items.iter())
+                    .flat_map(|part| part.get_model_part().uncompressed_vertices.items.iter());
+                if vertices.any(|v| out_of_bounds(v.node0_index) || out_of_bounds(v.node1_index)) {
+                    return Err(Error::InvalidTagData("Model data is invalid: vertex has an out-of-bounds node".to_owned()))
+                }
+            }
             $model.fix_compressed_vertices();
         }
     }};
-- 
2.43.0


From 600d649ea874da41e775ac0177c9c3bb4dc666a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 28/47] fix: don't reserve memory for pixel data before
 checking that it exists

---
 src/ringhopper/src/map/extract.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index f483a15..f3a3177 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -385,19 +385,10 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
-- 
2.43.0


From fe9096bd09184bd8920288421b673932d1a7206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 29/47] fix: refuse a detail object palette naming a tag of
 another group when extracting a BSP

It was extracted and then downcast with an expect(), or, if it was the BSP
itself, extracted again and again.
---
 src/ringhopper/src/map/extract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index f3a3177..b394d75 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -255,6 +255,11 @@ pub fn fix_scenario_structure_bsp_tag<M: Map>(bsp: &mut ScenarioStructureBSP, sc
             continue // tool.exe will just not apply an offset
         };
 
+        // Anything else can't be downcasted (and extracting this BSP tag from here would never end).
+        if tag.tag_path.group() != TagGroup::DetailObjectCollection {
+            return Err(Error::InvalidTagData(format!("Detail object collection palette of the scenario references {}, which is not a detail object collection", tag.tag_path)))
+        }
+
         let offset = map.extract_tag(&tag.tag_path)?
             .as_any()
             .downcast_ref::<DetailObjectCollection>()
-- 
2.43.0


From d26724554be696f08ded0906320f06d8f83fe8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 30/47] fix: quote script text with semicolons or white space

---
 src/ringhopper/src/tag/scenario.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..01008fa 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -374,7 +374,8 @@ fn sanitize(mut string: Cow<str>) -> Cow<str> {
     if string.contains("\"") {
         string = Cow::Owned(string.replace("\"", "\\\""));
     }
-    if string.contains("(") || string.contains(")") || string.contains(" ") {
+    // Anything that would end the token or begin a comment has to be quoted.
+    if string.contains(|c: char| matches!(c, '(' | ')' | ';') || c.is_whitespace() || c.is_control()) {
         string = Cow::Owned(format!("\"{string}\""));
     }
     string
-- 
2.43.0


From 8f540ebd58cb03aae546d9f4495e180a460828cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 31/47] fix: quote script and global names that need it

---
 src/ringhopper/src/tag/scenario.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 01008fa..337b838 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -94,7 +94,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
         tokens.push(Cow::Borrowed("("));
         tokens.push(Cow::Borrowed("global"));
         tokens.push(Cow::Borrowed(i._type.to_str()));
-        tokens.push(Cow::Borrowed(i.name.as_str()));
+        tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         decompile_script_block_to_tokens(scenario, &all_nodes, i.initialization_expression_index, &mut tokens, false)?;
         tokens.push(Cow::Borrowed(")"));
     }
@@ -111,7 +111,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
 
         if !i.parameters.items.is_empty() {
             tokens.push(Cow::Borrowed("("));
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
             for p in &i.parameters {
                 tokens.push(Cow::Borrowed("("));
                 tokens.push(Cow::Borrowed(p.return_type.to_str()));
@@ -121,7 +121,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
             tokens.push(Cow::Borrowed(")"));
         }
         else {
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         }
 
         decompile_script_block_to_tokens(scenario, &all_nodes, i.root_expression_index, &mut tokens, true)?;
-- 
2.43.0


From 6535e129b02c806509d148b7e8e36a74f93dfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 32/47] fix: count the nodes of a script as a whole when
 looking for loops

---
 src/ringhopper/src/tag/scenario.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 337b838..c879087 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -446,6 +446,7 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
 
     let node_count = extracted_nodes.len();
     let iteration_limit = node_count + 32;
+    let mut iterated_nodes = 0usize;
     todo.push((node.index(), 0));
 
     while let Some((index, depth)) = todo.pop() {
@@ -462,12 +463,11 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
         }
 
         // Loop until we are at the end of the block, adding function calls to the stack
-        let mut iterated_nodes = 0usize;
         let mut node = &extracted_nodes[index];
         loop {
             iterated_nodes += 1;
             if iterated_nodes > iteration_limit {
-                return Err(Error::InvalidTagData(format!("Block length exceeds actual node count ({node_count}); infinite loop detected!")));
+                return Err(Error::InvalidTagData(format!("Number of nodes used exceeds actual node count ({node_count}); infinite loop detected!")));
             }
 
             if !node.flags.is_primitive {
-- 
2.43.0


From 4e28742371b3cf0f8dcbc1aef0693c70f5296ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 33/47] fix: limit the depth of decompiled scripts

---
 src/ringhopper/src/tag/scenario.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index c879087..c18563b 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -441,6 +441,9 @@ fn get_string_data_for_node<'a>(scenario: &'a Scenario, node: &ScenarioScriptNod
     }
 }
 
+/// Decompiling is recursive, and each level is indented; this is far deeper than any script that can run.
+const MAX_SCRIPT_DEPTH: usize = 256;
+
 fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>) -> RinghopperResult<()> {
     todo.clear();
 
@@ -450,8 +453,8 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
     todo.push((node.index(), 0));
 
     while let Some((index, depth)) = todo.pop() {
-        if depth > iteration_limit {
-            return Err(Error::InvalidTagData(format!("Depth exceeds actual node count ({node_count}); infinite recursion detected!")))
+        if depth > MAX_SCRIPT_DEPTH {
+            return Err(Error::InvalidTagData(format!("Depth exceeds {MAX_SCRIPT_DEPTH}; infinite recursion detected!")))
         }
 
         let index = match index {
-- 
2.43.0


From f70c9cf63059dcf4f089c69f55d8e94377fdebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 34/47] fix: keep blank lines at the end of strings when
 writing a string list as text

---
 src/ringhopper/src/tag/unicode_string_list.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..87206c3 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,9 +191,12 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
-                let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
-                data.extend(line_encoder);
+            if !string.is_empty() {
+                // Not `lines()`; this would lose a blank line at the end.
+                for line in string.split("\r\n") {
+                    let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
+                    data.extend(line_encoder);
+                }
             }
             data.extend("###END-STRING###\r\n".encode_utf16().map(|b| b.to_le_bytes()).flatten());
         }
-- 
2.43.0


From dd361aca6f69367011f5f706c78c064a62d6c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 35/47] fix: set and unset the default radius animation of
 particles the right way around

---
 src/ringhopper/src/tag/default/particle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/default/particle.rs b/src/ringhopper/src/tag/default/particle.rs
index 2a0f139..196cdbd 100644
--- a/src/ringhopper/src/tag/default/particle.rs
+++ b/src/ringhopper/src/tag/default/particle.rs
@@ -4,11 +4,11 @@ use ringhopper_structs::Particle;
 pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 0.0 {
-        particle.radius_animation.lower = 1.0;
+    if particle.radius_animation.lower == 1.0 {
+        particle.radius_animation.lower = 0.0;
     }
-    if particle.radius_animation.upper == 0.0 {
-        particle.radius_animation.upper = 1.0;
+    if particle.radius_animation.upper == 1.0 {
+        particle.radius_animation.upper = 0.0;
     }
 
     if (particle.fade_start_size == 5.0 || particle.fade_start_size == 0.0) && (particle.fade_end_size == 4.0 || particle.fade_end_size == 0.0) {
@@ -20,11 +20,11 @@ pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
 pub fn set_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 1.0 {
-        particle.radius_animation.lower = 0.0;
+    if particle.radius_animation.lower == 0.0 {
+        particle.radius_animation.lower = 1.0;
     }
-    if particle.radius_animation.upper == 1.0 {
-        particle.radius_animation.upper = 0.0;
+    if particle.radius_animation.upper == 0.0 {
+        particle.radius_animation.upper = 1.0;
     }
 
     // This is a weird behavior with tool.exe, since it can unset values you might've wanted, so the verification step
-- 
2.43.0


From 3132c9ca4a53296611aa9c217fe24fa9355719a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 36/47] fix: unset default sound distances that were read from
 a file

---
 src/ringhopper/src/tag/default/sound.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/default/sound.rs b/src/ringhopper/src/tag/default/sound.rs
index 8ba5955..d60e37c 100644
--- a/src/ringhopper/src/tag/default/sound.rs
+++ b/src/ringhopper/src/tag/default/sound.rs
@@ -23,7 +23,8 @@ fn set_or_unset_defaults_for_sound(tag: &mut dyn PrimaryTagStructDyn, undefault:
         if undefault {
             // Check for defaults
             for (val, default) in value.iter().zip(default.iter()) {
-                if **val != *default {
+                // Values read from files only have single precision
+                if **val as f32 != *default as f32 {
                     return;
                 }
             }
-- 
2.43.0


From 3a1d3c886e304aa1b1b9172588c30e6f7ad8b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 37/47] fix: do not report nudged weights that were already 1

---
 src/ringhopper/src/tag/nudge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index fd924b3..598a378 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -66,8 +66,8 @@ fn nudge_object(object: &mut Object) -> bool {
         }
 
         if all_same {
-            result = true;
             for p in &mut cc.permutations {
+                result |= p.weight != 1.0;
                 p.weight = 1.0;
             }
         }
-- 
2.43.0


From 679b376ef8f8088acfa65df034f1d57996469d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 38/47] fix: end loose color plates at the first missing
 sequence

---
 src/ringhopper/src/data/bitmap/plate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index befccc9..1d08561 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -77,6 +77,11 @@ impl<'a> Iterator for LooseColorPlateIterator<'a> {
                 return Some(n);
             }
             None => {
+                // If this is the first bitmap, this sequence doesn't exist.
+                if self.bitmap == 0 {
+                    self.done = true;
+                    return None;
+                }
                 advance_sequence(self)?;
                 let next = format_path(self.directory, self.sequence, self.bitmap);
                 if next.is_none() {
-- 
2.43.0


From eff2392cf4f7670052aefc03d3c7a25b412f1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 39/47] fix: refuse padding colors that are not ASCII instead
 of panicking

---
 src/ringhopper/src/data/bitmap/plate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index 1d08561..81c2672 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -107,9 +107,9 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
         return Err(Error::Other(format!("{padding_metadata:?} is empty")));
     }
 
-    let (octothorpe, color) = padding_color.split_at(1);
+    let color = padding_color.strip_prefix('#').unwrap_or("");
 
-    if octothorpe != "#" || (color.len() != 6 && color.len() != 3) {
+    if !color.is_ascii() || (color.len() != 6 && color.len() != 3) {
         return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")));
     }
 
-- 
2.43.0


From a8fe99cea7791bb4d5a04fea6d60f2a0eaf6087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 40/47] fix: refuse tag files of another group than their path

---
 src/ringhopper/src/tag/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 479d460..bc70801 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -665,6 +665,9 @@ impl TagTree for VirtualTagsDirectory {
         let hash = Self::hash_file(file.as_slice());
         let mut tag = ringhopper_structs::read_any_tag_from_file_buffer(&file, self.strictness)
             .map_err(|e| Error::FailedToReadTag(path.clone(), vec![e]))?;
+        if tag.group() != path.group() {
+            return Err(Error::FailedToReadTag(path.clone(), vec![Error::TagHeaderGroupTypeMismatch]))
+        }
         tag.metadata_mut().hash = Some(hash);
         Ok(tag)
     }
-- 
2.43.0


From 75d1ce84d8367c75151689f2660bc853dc324d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 41/47] fix: report detail object palettes that are missing

---
 src/ringhopper/src/tag/verify/scenario_structure_bsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index 6ffd795..c025a29 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -69,7 +69,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .and_then(|r| r.path())
                     .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
                     let bit = 1 << bit_offset;
-                    if (complained_bitfield & bit) != 0 {
+                    if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
                         result.errors.push(format!("Missing detail object collection palette #{bit_offset} in scenario tag"));
                     }
-- 
2.43.0


From a007d2cbceda857f6201900274b299ec79211811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 42/47] fix: accept the sample rates that sounds have

---
 src/ringhopper/src/tag/sound.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/sound.rs b/src/ringhopper/src/tag/sound.rs
index 9b340bd..d2e0140 100644
--- a/src/ringhopper/src/tag/sound.rs
+++ b/src/ringhopper/src/tag/sound.rs
@@ -166,8 +166,8 @@ pub fn sample_rate_to_u32(sample_rate: SoundSampleRate) -> u32 {
 /// Get a [`SoundChannelCount`] from its equivalent numerical value.
 pub fn sample_rate_from_u32(sample_rate: u32) -> Option<SoundSampleRate> {
     match sample_rate {
-        1 => Some(SoundSampleRate::_22050Hz),
-        2 => Some(SoundSampleRate::_44100Hz),
+        22050 => Some(SoundSampleRate::_22050Hz),
+        44100 => Some(SoundSampleRate::_44100Hz),
         _ => None
     }
 }
-- 
2.43.0


From 8338701949eb5718f46a268026bba6bff5a7b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 43/47] fix: do not compress model vertices with missing nodes

---
 src/ringhopper/src/tag/bludgeon/model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/bludgeon/model.rs b/src/ringhopper/src/tag/bludgeon/model.rs
index 38b6953..5ea8d10 100644
--- a/src/ringhopper/src/tag/bludgeon/model.rs
+++ b/src/ringhopper/src/tag/bludgeon/model.rs
@@ -10,7 +10,10 @@ pub fn repair_model(tag: &mut dyn PrimaryTagStructDyn) -> BludgeonResult {
         return BludgeonResult::CannotRepair
     }
 
-    model_fns.fix_compressed_vertices();
+    // Vertices that refer to nodes that don't exist can't be compressed.
+    if model_fns.check_indices().is_ok() {
+        model_fns.fix_compressed_vertices();
+    }
     model_fns.fix_uncompressed_vertices();
 
     for node in model_fns.nodes_mut() {
-- 
2.43.0


From b01a2956480d312b84792c5487e65c0667c0981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 44/47] fix: do not panic on sounds with 65536 permutations or
 more

---
 src/ringhopper/src/tag/verify/sound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/sound.rs b/src/ringhopper/src/tag/verify/sound.rs
index fcef93e..349c37d 100644
--- a/src/ringhopper/src/tag/verify/sound.rs
+++ b/src/ringhopper/src/tag/verify/sound.rs
@@ -122,7 +122,7 @@ fn next_subpermutation_index(permutation: &SoundPermutation) -> Option<u16> {
 
 /// Return `None` if the permutation count cannot be calculated.
 pub(crate) fn find_actual_permutation_count(sound: &Sound, pitch_range: &SoundPitchRange) -> u16 {
-    let permutation_count_16_bit = u16::try_from(pitch_range.permutations.items.len()).expect("should be < 65535");
+    let permutation_count_16_bit = u16::try_from(pitch_range.permutations.items.len()).unwrap_or(u16::MAX);
     let split_permutations = sound_tag_actually_contains_split_permutations(sound);
 
     if split_permutations {
-- 
2.43.0


From cc74e271bf6c7f65d32ef5dc6e09246a0ad322ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 45/47] fix: check and repair numbers in bounds and arrays

---
 src/ringhopper-primitives/src/tag.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/tag.rs b/src/ringhopper-primitives/src/tag.rs
index bdf6e70..ed0437d 100644
--- a/src/ringhopper-primitives/src/tag.rs
+++ b/src/ringhopper-primitives/src/tag.rs
@@ -313,11 +313,13 @@ pub fn for_each_field<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(d
     fn recursion<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(data: &dyn DynamicTagData, predicate: &mut P) {
         for field_name in data.fields() {
             let field = data.get_field(field_name).unwrap();
-            predicate(data.get_metadata_for_field(field_name), field);
+            let metadata = data.get_metadata_for_field(field_name);
+            predicate(metadata, field);
 
             if let Some(arr) = field.as_array() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index(i).unwrap();
+                    predicate(metadata, item);
                     recursion(item, predicate);
                 }
             }
@@ -344,6 +346,7 @@ pub fn for_each_field_mut<P: FnMut(Option<TagFieldMetadata>, &mut dyn DynamicTag
             if let Some(arr) = field.as_array_mut() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index_mut(i).unwrap();
+                    predicate(metadata, item);
                     recursion(item, predicate, access_read_only_fields);
                 }
             }
-- 
2.43.0


From 4b00d636340b5c5cef2bfa53cfaefd157b27107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 46/47] fix: normalize vectors that are not finite to a unit
 vector

---
 src/ringhopper-primitives/src/primitive/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index 9a69e3b..747dec1 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -40,7 +40,7 @@ pub trait Vector: Sized + Copy + Clone {
     /// Normalize the vector into the given unit.
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
-        if magnitude_sq == 0.0 {
+        if magnitude_sq == 0.0 || !magnitude_sq.is_finite() {
             return Self::one().scale(unit);
         }
 
-- 
2.43.0


From 855b58743310a29b9d45544200981fd25f6a7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 47/47] fix: give every tag a verdict when verifying, without
 deadlocks or following wrong references

---
 src/ringhopper/src/tag/result.rs              |  3 ++
 src/ringhopper/src/tag/verify.rs              | 49 +++++++++++++++++--
 .../src/tag/verify/hud_interface.rs           | 26 +++++-----
 src/ringhopper/src/tag/verify/object.rs       |  4 +-
 4 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index aaee43c..ed35ffd 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -31,5 +31,8 @@ pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     pub scenario_type: ScenarioType,
     pub engine: &'static Engine,
     pub tag_tree: Arc<T>,
+
+    /// Child HUD of each weapon HUD interface
+    pub child_huds: HashMap<TagPath, TagPath>,
     pub results: Mutex<HashMap<TagPath, TagResult>>
 }
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..31d2909 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -20,7 +20,7 @@ use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_engines::Engine;
-use ringhopper_structs::{Globals, Scenario, ScenarioType};
+use ringhopper_structs::{Globals, Scenario, ScenarioType, WeaponHUDInterface};
 use crate::tag::object::is_object;
 use crate::tag::result::*;
 use crate::tag::tree::TagTree;
@@ -67,6 +67,9 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         let hud_globals_path = n.hud_globals
             .path()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
+        if hud_globals_path.group() != TagGroup::HUDGlobals {
+            return Err(Error::InvalidTagData(format!("{globals_path} has {hud_globals_path} set as HUD globals, which is not a {} tag", TagGroup::HUDGlobals)))
+        }
         hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
     }
     else {
@@ -81,11 +84,13 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         scenario_type: ScenarioType::Multiplayer,
         engine,
         tag_tree: Arc::new(tag_tree),
+        child_huds: HashMap::new(),
         results: Mutex::new(HashMap::new())
     };
 
     let all_dependencies = recursively_get_dependencies_for_map(scenario, context.tag_tree.as_ref(), engine)
         .map_err(|e| Error::Other(format!("Failed to query dependencies: {e}")))?;
+    context.child_huds = find_child_huds(all_dependencies.iter(), context.tag_tree.as_ref());
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
     let mut v = Vec::with_capacity(all_dependencies.len());
@@ -110,9 +115,34 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         t.join().expect("thread should be finished successfully");
     }
 
+    // A tag may have been locked whenever a thread came across it, so check everything that nobody got to verify.
+    for path in all_dependencies.iter() {
+        context.verify_tag(path, false);
+    }
+
     Ok(Arc::into_inner(context).unwrap().results.into_inner().unwrap())
 }
 
+/// Get the child HUD of every weapon HUD interface.
+///
+/// These can reference each other in a loop, thus they cannot be followed while holding on to the tags themselves.
+fn find_child_huds<'a, T: TagTree, I: Iterator<Item = &'a TagPath>>(paths: I, tag_tree: &T) -> HashMap<TagPath, TagPath> {
+    let mut child_huds = HashMap::new();
+    for path in paths.filter(|p| p.group() == TagGroup::WeaponHUDInterface) {
+        let Ok(tag) = tag_tree.open_tag_shared(path) else {
+            continue
+        };
+        let tag = tag.lock().unwrap();
+        let Some(hud) = tag.as_any().downcast_ref::<WeaponHUDInterface>() else {
+            continue
+        };
+        if let Some(child) = hud.child_hud.path() {
+            child_huds.insert(path.to_owned(), child.to_owned());
+        }
+    }
+    child_huds
+}
+
 impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
     fn reserve_tag_to_verify(&self, path: &TagPath) -> VerifyStatus {
         let mut results = self.results.lock().unwrap();
@@ -139,10 +169,15 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
     /// Otherwise, return `true` if the tag is OK, and `false` if not.
     fn verify_tag(&self, path: &TagPath, skip_if_locked: bool) -> Option<bool> {
         let mut result = TagResult::default();
-        match self.tag_tree.open_tag_shared(&path) {
+        let tag = self.tag_tree.open_tag_shared(&path);
+
+        // This has to be held until the result is stored, or else something may assume the tag is OK before we are done
+        let lock;
+
+        match &tag {
             Ok(tag) => {
                 // We want to acquire the tag ASAP in case something tries to read this tag before we verify it
-                let lock = if skip_if_locked {
+                lock = if skip_if_locked {
                     tag.try_lock().ok()?
                 }
                 else {
@@ -160,15 +195,21 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
 
                 floats::check_bad_floats(tag, &mut result);
 
+                let errors_before_dependencies = result.errors.len();
+
                 // TODO: Verify indices
                 verify_dependencies(tag, path, self, &mut result);
 
+                // If we reference something that isn't what it should be, we can't follow the references.
+                let references_ok = result.errors.len() == errors_before_dependencies;
+
                 // Verify supergroups
-                if is_object(group) {
+                if is_object(group) && references_ok {
                     verify_object(tag, path, self, &mut result);
                 }
 
                 match group {
+                    _ if !references_ok => (),
                     TagGroup::Weapon => verify_weapon(tag, path, self, &mut result),
                     TagGroup::Effect => verify_effect(tag, path, self, &mut result),
                     TagGroup::HUDGlobals => verify_hud_globals(tag, path, self, &mut result),
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index ededa66..05d25f0 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use definitions::WeaponHUDInterface;
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::{TagPath, TagReference};
+use primitives::primitive::TagPath;
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{Bitmap, GrenadeHUDInterface, HUDGlobals, HUDInterfaceMeterElement, HUDInterfaceStaticElement, UnicodeStringList, UnitHUDInterface};
 use crate::tag::tree::TagTree;
@@ -149,21 +149,17 @@ fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String
 
 fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDInterface, path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let mut all_references = HashSet::new();
-    all_references.insert(path.to_owned());
-    let mut child_ref = base.child_hud.to_owned();
-    while let TagReference::Set(n) = &child_ref {
-        if all_references.contains(n) {
-            result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
-            break
-        }
+    all_references.insert(path);
 
-        child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
-            Some(n) => {
-                let lock = n.lock().unwrap();
-                let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
-                child.child_hud.clone()
-            },
-            None => break // failed to load
+    let mut child = base.child_hud.path();
+    while let Some(n) = child {
+        if !all_references.insert(n) {
+            result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
+            return
         }
+        child = context.child_huds.get(n);
     }
+
+    // We can only open this if it does not lead back to a tag we already have open.
+    context.open_tag_reference_maybe(&base.child_hud, result, None);
 }
diff --git a/src/ringhopper/src/tag/verify/object.rs b/src/ringhopper/src/tag/verify/object.rs
index b6a3c9c..54e72e0 100644
--- a/src/ringhopper/src/tag/verify/object.rs
+++ b/src/ringhopper/src/tag/verify/object.rs
@@ -62,7 +62,9 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
     if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
         let item_message_text = r.lock().unwrap();
         let index = object.hud_text_message_index;
-        let max = item_message_text.as_any().downcast_ref::<UnicodeStringList>().unwrap().strings.len();
+
+        // If it isn't a string list, then this is an error with the HUD globals tag (which may not be verified yet)
+        let max = item_message_text.as_any().downcast_ref::<UnicodeStringList>().map(|n| n.strings.len()).unwrap_or(0);
         if max <= index as usize {
             result.errors.push(format!("HUD text message index ({index}) is out-of-bounds (only {max} strings in {})", hud_globals.messaging_parameters.item_message_text.path().unwrap()));
         }
-- 
2.43.0

