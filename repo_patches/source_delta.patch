From eaf11c9c0ef9198f335541db81bae59c1948d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/15] fix: Registry::remove_entity must leave entities not
 matching the group exactly as is

---
 src/registry/registry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..a62ccd0 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,13 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        if archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From dfbbba00e84baee7207b6cf0881990039e79cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 02/15] fix: adding the 14th and removing from 14 components
 indexed out of bounds

---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e06b4fe 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,10 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[self.len() as usize - 1] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From c9a18c16d7e9b6a66c32d2948a945cd99d0e9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 03/15] fix: archetype id of a component set must not depend on
 how the set was obtained

---
 src/descriptors/component_group_descriptor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..80e6fd9 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,9 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the components in use may contribute to the id, otherwise the id of a set of components
+        // differs from the id of the same set obtained by adding or removing components.
+        let id = ArchetypeDescriptor::compute_archetype_id(sorted_descriptors.split_at(N).0);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From ca5adb8b9f6b7a3d357df948c8bdb51021dc6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 04/15] fix: distinct component sets with colliding archetype
 ids must not share an archetype

---
 src/archetype_registry/mod.rs           | 31 ++++++++++++++++++-------
 src/descriptors/archetype_descriptor.rs |  7 +++++-
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..dc20f72 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,32 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the mappings for the archetype storing exactly the components of the given descriptor.
+    /// Archetype ids are hashes and therefore may collide, ties are resolved using the component types.
+    fn search_sorted_mappings(
+        &self,
+        archetype_descriptor: &ArchetypeDescriptor,
+    ) -> Result<usize, usize> {
+        let len = archetype_descriptor.len() as usize;
+        self.sorted_mappings[len - 1].binary_search_by(|e| {
+            let descriptor = self.archetypes[e.archetype_index as usize].descriptor();
+            e.id.cmp(&archetype_descriptor.archetype_id()).then_with(|| {
+                let existing = descriptor.components().iter();
+                let requested = archetype_descriptor.components().iter();
+                existing
+                    .map(|c| c.component_type_id())
+                    .cmp(requested.map(|c| c.component_type_id()))
+            })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +111,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +184,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e06b4fe..aa510a3 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let id = ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())));
+        if !id.is_valid() {
+            // The hash happens to be the reserved value, yet the combination of components is valid.
+            return ArchetypeId::from_u32(0);
+        }
+        id
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From e66bfb19da77d13a87a4daad32d4b3fe118eba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 05/15] fix: creating an iterator for an invalid component
 group must not overflow

---
 src/archetype_registry/iterators/archetype_iter.rs            | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs        | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter.rs     | 2 +-
 src/archetype_registry/iterators/filter_archetype_iter_mut.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
-- 
2.43.0


From 8f60953c1d58917dd1867ac253e126081c6936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 06/15] fix: has_components and get_components(_mut) must
 reject invalid component groups

---
 src/registry/registry.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index a62ccd0..23cf3fc 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -125,9 +125,10 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked(entry.archetype_index()) };
-        archetype
-            .descriptor()
-            .contains_subset(G::DESCRIPTOR.archetype())
+        G::DESCRIPTOR.is_valid()
+            && archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
     }
 
     /// Returns a reference to the specified component if the entity has it.
@@ -160,9 +161,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
@@ -201,9 +203,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked_mut(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
-- 
2.43.0


From fb049ad7c9b5365083e1601e52f5e1a9312b0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 07/15] fix: off-by-one range check of the source archetype
 index

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index dc20f72..4bf2e59 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -128,7 +128,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -156,7 +156,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From aac93b6c79a2faf4159918f641e623e8c7d6a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 08/15] fix: destroyed entities must free up capacity and
 exceeding the entity limit must not panic

---
 src/entity_registry/mod.rs | 5 +++--
 src/registry/registry.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 23cf3fc..013526b 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From 4b7c8fef743256894466972ccb07f8887e3e5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 09/15] fix: growing an archetype beyond 2^23 entities
 deallocated its storage

---
 src/archetype/data_access.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..48639f6 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -505,7 +505,10 @@ impl Archetype {
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
-                self.capacity() as usize
+                // Grow up to, but never beyond the maximum, as resizing beyond that deallocates.
+                let remaining = MAX_ENTITIES_PER_ARCHETYPE - self.capacity();
+                assert_ne!(remaining, 0);
+                u32::min(self.capacity(), remaining) as usize
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From ab41e69f33c361ad37a05b50a9fe01f3e5be8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 10/15] fix: zero-sized components and archetypes without
 capacity performed zero-sized allocations

---
 src/archetype/data_access.rs | 30 ++++++++++++++++++++++--------
 src/archetype/mod.rs         |  9 ++++++++-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 48639f6..649d9f9 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,10 +2,18 @@ use super::Archetype;
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
+/// Reallocates the memory block, or allocates it if there is none yet (i.e. the layout has size zero).
+unsafe fn allocate_or_reallocate(pointer: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+    if layout.size() == 0 {
+        return alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
+    }
+    realloc(pointer, layout, new_size)
+}
+
 impl Archetype {
     /// Returns a reference to a specific component.
     /// # Safety:
@@ -430,7 +438,7 @@ impl Archetype {
             size_of::<Entity>() * old_capacity as usize,
             align_of::<Entity>(),
         );
-        self.entity_associations = realloc(
+        self.entity_associations = allocate_or_reallocate(
             self.entity_associations as *mut u8,
             layout,
             size_of::<Entity>() * new_capacity,
@@ -441,11 +449,14 @@ impl Archetype {
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = realloc(
+            *pointer = allocate_or_reallocate(
                 *pointer,
                 layout,
                 component_type.size as usize * new_capacity,
@@ -459,27 +470,30 @@ impl Archetype {
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
     pub(super) unsafe fn dealloc(&mut self) {
+        if self.capacity == 0 {
+            return;
+        }
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
             dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
+            *pointer = core::ptr::null_mut::<u8>().wrapping_add(component_type.align as usize);
         }
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * self.capacity() as usize,
             align_of::<Entity>(),
         );
         dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        self.entity_associations = core::ptr::NonNull::dangling().as_ptr();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..77aeff9 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -42,10 +42,14 @@ impl Archetype {
         let mut archetype = Self {
             descriptor: archetype_descriptor.clone(),
             pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: core::ptr::null_mut(),
+            entity_associations: core::ptr::NonNull::dangling().as_ptr(),
             entity_count: 0,
             capacity: 0,
         };
+        // Without any allocated memory pointers are dangling, yet valid for zero-sized accesses.
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = core::ptr::null_mut::<u8>().wrapping_add(component.align as usize);
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
@@ -57,6 +61,9 @@ impl Archetype {
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
+                    if component.size == 0 {
+                        continue;
+                    }
                     let layout = Layout::from_size_align_unchecked(
                         component.size as usize * capacity as usize,
                         component.align as usize,
-- 
2.43.0


From f662ac0a74d16e21997c29d6eaa863a33c8a2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 11/15] fix: a panicking component destructor must not cause
 double drops or stale handles

---
 src/archetype/data_access.rs | 7 ++++---
 src/registry/registry.rs     | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 649d9f9..72ffcf4 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -322,13 +322,14 @@ impl Archetype {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
             // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // The length is decremented first, so a panicking destructor can't cause a double drop.
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
@@ -389,7 +390,7 @@ impl Archetype {
 
     /// Calls drop on the entity at [`index`].
     /// # Safety:
-    /// - [`index`] must be smaller than the amount of entities in the archetype.
+    /// - [`index`] must refer to an initialized entity, which must not be used or dropped again.
     pub unsafe fn drop_entity(&mut self, index: u32) {
         for (idx, descriptor) in self.descriptor.components().iter().enumerate() {
             (descriptor.fns.drop_handler)(
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 013526b..9246439 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -51,7 +51,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -65,6 +65,8 @@ impl Registry {
         };
         let _v = self.entities.destroy_entity(entity);
         debug_assert!(_v);
+        // Destructors may panic, so they are only called when all bookkeeping is done.
+        unsafe { archetype.swap_drop_unchecked(archetype.len() - 1) };
         true
     }
 
-- 
2.43.0


From 3f1b23dc48c856118a625709da41691188e18059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 12/15] Verification hooks behind cfg(shard_verif): registries
 close to their limits

---
 src/archetype/mod.rs       | 14 ++++++++++++++
 src/entity_registry/mod.rs | 16 ++++++++++++++++
 src/lib.rs                 |  1 +
 src/registry/registry.rs   |  8 ++++++++
 4 files changed, 39 insertions(+)

diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 77aeff9..3394771 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -94,3 +94,17 @@ impl Drop for Archetype {
         }
     }
 }
+
+
+/// Verification hook: a storage close to its limit, without performing millions of operations.
+#[cfg(shard_verif)]
+impl Archetype {
+    /// Grows to `len` entities without initializing their data.
+    pub unsafe fn verif_grow(&mut self, len: u32) {
+        while self.capacity() < len {
+            self.entity_count = self.capacity();
+            self.push_uninitialized_entity();
+        }
+        self.entity_count = len;
+    }
+}
diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index ad4c52f..8a3b5c8 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -101,6 +101,22 @@ impl EntityRegistry {
     }
 }
 
+/// Verification hook: a register close to its limit, without performing millions of operations.
+#[cfg(shard_verif)]
+impl EntityRegistry {
+    /// `count` live entities, all of version 0 and in row 0 of archetype 0.
+    pub fn verif_with_live_entities(count: usize) -> Self {
+        assert!(count > 0);
+        let layout = core::alloc::Layout::array::<EntityEntry>(count).unwrap();
+        let pointer = unsafe { alloc::alloc::alloc_zeroed(layout) } as *mut EntityEntry;
+        assert!(!pointer.is_null());
+        Self {
+            entities: unsafe { Vec::from_raw_parts(pointer, count, count) },
+            ..Default::default()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 1ffe256..bf546a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 9246439..2893110 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -537,3 +537,11 @@ impl Registry {
         }
     }
 }
+
+/// Verification hook: a registry assembled from its parts.
+#[cfg(shard_verif)]
+impl Registry {
+    pub fn verif_from_parts(entities: EntityRegistry, archetypes: ArchetypeRegistry) -> Self {
+        Self { entities, archetypes }
+    }
+}
-- 
2.43.0


From cfe77193b5944a5eedaaf3598434f5323dd7763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 13/15] fix: failing to grow an archetype must leave it intact,
 it was deallocated with wrong layouts while unwinding

---
 src/archetype/data_access.rs | 62 ++++++++++++------------------------
 1 file changed, 20 insertions(+), 42 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 72ffcf4..7c231be 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,17 +2,9 @@ use super::Archetype;
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{alloc, dealloc, realloc, Layout};
+use alloc::alloc::{dealloc, Layout};
 use core::mem::{align_of, size_of};
-use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
-
-/// Reallocates the memory block, or allocates it if there is none yet (i.e. the layout has size zero).
-unsafe fn allocate_or_reallocate(pointer: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-    if layout.size() == 0 {
-        return alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
-    }
-    realloc(pointer, layout, new_size)
-}
+use core::ptr::{copy_nonoverlapping, slice_from_raw_parts, slice_from_raw_parts_mut};
 
 impl Archetype {
     /// Returns a reference to a specific component.
@@ -423,7 +415,7 @@ impl Archetype {
     /// deallocates all memory.
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
-    /// - Panics if resizing fails for whatever reason. This leaves the archetype in an undefined state.
+    /// - Panics if allocation fails. This leaves the archetype as is.
     /// - Deallocates if the new capacity is smaller or equal to zero.
     /// - Deallocates if the new capacity exceeds [`MAX_ENTITIES_PER_ARCHETYPE`]. TODO: This is weird?
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
@@ -433,38 +425,24 @@ impl Archetype {
             self.dealloc();
             return;
         }
-        let new_capacity = new_capacity as usize;
-
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * old_capacity as usize,
-            align_of::<Entity>(),
-        );
-        self.entity_associations = allocate_or_reallocate(
-            self.entity_associations as *mut u8,
-            layout,
-            size_of::<Entity>() * new_capacity,
-        ) as *mut Entity;
-        assert_ne!(self.entity_associations, core::ptr::null_mut());
-        for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
-            .enumerate()
-        {
-            let component_type = &self.descriptor.components()[index];
-            if component_type.size == 0 {
-                continue;
-            }
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * old_capacity as usize,
-                component_type.align as usize,
-            );
-            *pointer = allocate_or_reallocate(
-                *pointer,
-                layout,
-                component_type.size as usize * new_capacity,
+        // All memory is allocated before anything is changed, so a panic due to an allocation failure
+        // leaves the archetype as is.
+        let mut resized = Archetype::with_capacity(&self.descriptor, new_capacity as u32);
+        let len = u32::min(self.len(), new_capacity as u32) as usize;
+        copy_nonoverlapping(self.entity_associations, resized.entity_associations, len);
+        for (index, component_type) in self.descriptor.components().iter().enumerate() {
+            copy_nonoverlapping(
+                self.pointers[index],
+                resized.pointers[index],
+                component_type.size as usize * len,
             );
-            assert_ne!(*pointer, core::ptr::null_mut());
         }
-        self.capacity = new_capacity as u32;
+        self.dealloc();
+        self.pointers = resized.pointers;
+        self.entity_associations = resized.entity_associations;
+        self.capacity = resized.capacity;
+        // The memory is owned by self now.
+        resized.capacity = 0;
     }
 
     /// Deallocates the backing memory and sets capacity to zero.
@@ -515,7 +493,7 @@ impl Archetype {
     }
 
     /// Resizes the backing memory by the default amount if necessary.
-    unsafe fn resize_if_necessary(&mut self) {
+    pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
-- 
2.43.0


From a293c435a22e700b9c24c065f891ad7920dc5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 14/15] fix: failing to grow an archetype must not leave
 entities without or with shared storage

---
 src/registry/registry.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 2893110..537778c 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -33,6 +33,8 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
+        // Growing the archetype may panic, so this is done before any bookkeeping.
+        unsafe { archetype.resize_if_necessary() };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
@@ -240,6 +242,9 @@ impl Registry {
             None => return Err(component),
         };
 
+        // Make space in the destination archetype. Growing it may panic, so this is done before any bookkeeping.
+        unsafe { destination_archetype.push_uninitialized_entity() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -253,9 +258,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
-            destination_archetype.push_uninitialized_entity();
-
             // copy from end to end.
             let new_source_entity_index_in_archetype = source_archetype.len() - 1;
             let destination_entity_index_in_archetype = destination_archetype.len() - 1;
@@ -308,6 +310,9 @@ impl Registry {
             None => return Err(()),
         };
 
+        // Make space in the destination archetype. Growing it may panic, so this is done before any bookkeeping.
+        unsafe { destination_archetype.push_uninitialized_entity() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -321,9 +326,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
-            destination_archetype.push_uninitialized_entity();
-
             // copy from end to end.
             let new_source_entity_index_in_archetype = source_archetype.len() - 1;
             let destination_entity_index_in_archetype = destination_archetype.len() - 1;
-- 
2.43.0


From f6fd2f8be5238a13b8cad5024ef6958f56915087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:39 +0000
Subject: [PATCH 15/15] Verification hook: stop when a full storage does not
 grow

---
 src/archetype/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 3394771..4271932 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -102,8 +102,10 @@ impl Archetype {
     /// Grows to `len` entities without initializing their data.
     pub unsafe fn verif_grow(&mut self, len: u32) {
         while self.capacity() < len {
-            self.entity_count = self.capacity();
+            let capacity = self.capacity();
+            self.entity_count = capacity;
             self.push_uninitialized_entity();
+            assert!(self.capacity() > capacity, "a full storage grows");
         }
         self.entity_count = len;
     }
-- 
2.43.0

