From 4f5e1eac1e5e007cb008e0e97570e872a76fd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 01/10] fix: pop on an empty UntypedVec of a ZST ran drop_fn,
 dropping the vec skipped ZSTs

---
 untyped_vec/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..37c647c 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -198,7 +198,11 @@ impl UntypedVec {
 
     /// Returns true if a value was popped
     pub fn pop(&mut self) -> bool {
-        if self.type_info.layout.size() == 0 && self.len > 0 {
+        if self.len == 0 {
+            return false;
+        }
+
+        if self.type_info.layout.size() == 0 {
             self.len -= 1;
             let ptr = self.data.as_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
@@ -362,9 +366,10 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // Zero sized elements never allocate but may still have to be dropped
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From 66940b566cb90c7b23cb6e0dee287cb1f0de523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 02/10] fix: UntypedVec::as_slice divided by zero for ZSTs

---
 untyped_vec/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 37c647c..cedf29f 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -313,7 +313,7 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
+        assert!(core::mem::size_of::<T>() == 0 || self.len % core::mem::size_of::<T>() == 0);
 
         let slice_len = if self.type_info.layout.size() == 0 {
             self.len
@@ -334,7 +334,7 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
+        assert!(core::mem::size_of::<T>() == 0 || self.len % core::mem::size_of::<T>() == 0);
 
         let slice_len = if self.type_info.layout.size() == 0 {
             self.len
-- 
2.43.0


From db24ae93ce09d4dea3a2a5c28a360d06d8c960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 03/10] fix: misaligned element pointers for ZSTs and
 unallocated vecs

---
 untyped_vec/src/lib.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index cedf29f..17a2608 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -35,6 +35,11 @@ pub struct UntypedVec {
     len: usize, // In bytes, if cap is 0 then a len > 0 implies ZST
 }
 
+fn aligned_dangling(layout: &Layout) -> NonNull<u8> {
+    // The align of a layout is never zero
+    unsafe { NonNull::new_unchecked(layout.align() as *mut u8) }
+}
+
 impl UntypedVec {
     pub fn new_from_untyped_vec(from: &mut UntypedVec) -> Self {
         // Safe because the passed in untyped vec was either made safely or with unsafe code
@@ -47,14 +52,30 @@ impl UntypedVec {
     ///    If your type doesnt have a Drop trait implementation then this can just be None.
     ///    Make sure that the used EcsId corresponds correctly to the provided TypeInfo
     pub unsafe fn new_from_raw(type_info: TypeInfo) -> Self {
+        // Zero sized elements live at this address for as long as the vec exists
+        let data = if type_info.layout.size() == 0 {
+            aligned_dangling(&type_info.layout)
+        } else {
+            NonNull::dangling()
+        };
+
         Self {
             type_info,
-            data: NonNull::dangling(),
+            data,
             cap: 0,
             len: 0,
         }
     }
 
+    /// Pointer to the elements, aligned for them even when nothing has been allocated
+    fn data_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            aligned_dangling(&self.type_info.layout).as_ptr()
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     pub fn get_type_info(&self) -> TypeInfo {
         self.type_info.clone()
     }
@@ -324,7 +345,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.data_ptr() as *const T, slice_len)
         }
     }
 
@@ -345,7 +366,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.data_ptr() as *mut T, slice_len)
         }
     }
 
@@ -353,14 +374,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 }
 
-- 
2.43.0


From 093d62f3dab9f2727779f5b40bcd0fbf75dbed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 04/10] fix: static query of a registered component no entity
 ever had panicked

---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..cac2bc2 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // No entity has ever had this component if it has no lock
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // No entity has ever had this component if it has no lock
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From 7e3cfa99d6f33790bd98f014f5c79177ed23efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 05/10] fix: get_component_mut_dynamic panicked when the entity
 lacks the component

---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..dbddb94 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -866,7 +866,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From aa61af7498c237b239ac1f12d710f12e50529799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 06/10] fix: despawning the entity of a component type left the
 type mapped to a dead id

---
 arche_tape/src/world.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index dbddb94..4e7a8ec 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -353,6 +353,9 @@ impl World {
 
         self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         self.entities.despawn(entity);
+
+        // The id can no longer stand for a type, using that type again has to create a new id
+        self.type_id_to_ecs_id.retain(|_, id| *id != entity);
         true
     }
 
-- 
2.43.0


From f05e75c97e244bd06db88930a16627fe31dbdcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 07/10] fix: adding a component twice in EntityBuilder
 corrupted an existing archetype

---
 arche_tape/src/entity_builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..149139e 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -134,6 +134,14 @@ impl<'a> EntityBuilder<'a> {
         }
     }
 
+    /// Has to be checked before anything is moved into the world, there is no way back after that
+    fn assert_not_added(&self, component_id: EcsId) {
+        assert!(
+            !self.comp_ids.contains(&component_id),
+            "Attempted to add the same component twice in EntityBuilder"
+        );
+    }
+
     fn realloc(&mut self, new_size: usize) {
         assert!(
             new_size < isize::MAX as usize,
@@ -175,6 +183,7 @@ impl<'a> EntityBuilder<'a> {
                 == 0
         );
 
+        self.assert_not_added(component_id);
         self.comp_ids.push(component_id);
         self.num_components += 1;
 
@@ -191,6 +200,7 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
+        self.assert_not_added(component_id);
         self.comp_ids.push(component_id);
         let component_size = self
             .world
-- 
2.43.0


From 191f1f0c3e7dc9b091e69a43af6b97c849f81d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 08/10] fix: calling EntityBuilder::build twice duplicated the
 entity and its components

---
 arche_tape/src/entity_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 149139e..1072476 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -238,6 +238,12 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(&mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+
+        // The components have already been moved into the world by an earlier call
+        if self.world.get_entity_meta(self.entity).is_some() {
+            return self.entity;
+        }
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
-- 
2.43.0


From fe3faf000b3030e4becb9eec30c834594abeec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 09/10] fix: despawning an entity used as a component hit a
 todo!() instead of removing it

---
 arche_tape/src/world.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 4e7a8ec..13355da 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -341,12 +341,7 @@ impl World {
             return false;
         }
 
-        // TODO: Remove `entity` component from all entities
-        for arch in &self.archetypes {
-            if let Some(_) = arch.comp_lookup.get(&entity) {
-                todo!();
-            }
-        }
+        self.remove_component_from_all(entity);
 
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
@@ -359,6 +354,25 @@ impl World {
         true
     }
 
+    /// Removes a component from every entity that has it and retires the archetypes that held it
+    fn remove_component_from_all(&mut self, component: EcsId) {
+        for idx in 0..self.archetypes.len() {
+            if self.archetypes[idx].comp_lookup.get(&component).is_none() {
+                continue;
+            }
+
+            while let Some(&entity) = self.archetypes[idx].entities.last() {
+                self.remove_component_dynamic(entity, component);
+            }
+
+            // Entity indices get reused, the bitsets must not match this archetype for the next user of the index
+            for id in self.archetypes[idx].comp_ids.iter() {
+                self.archetype_bitset.set_bit(*id, idx, false);
+            }
+        }
+        self.lock_lookup.remove(&component);
+    }
+
     pub fn is_alive(&self, entity: EcsId) -> bool {
         self.entities.is_alive(entity)
     }
-- 
2.43.0


From 748e0b2468598976486a4e8d69865bdb26d269fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 10/10] verif: guarded access to the bitset types and the
 entity allocator (cfg arche_verif)

---
 arche_tape/src/lib.rs | 97 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 97 insertions(+)

diff --git a/arche_tape/src/lib.rs b/arche_tape/src/lib.rs
index 140d04c..d2c17c1 100644
--- a/arche_tape/src/lib.rs
+++ b/arche_tape/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::bool_comparison)]
 #![feature(unsafe_block_in_unsafe_fn, int_bits_const)]
 #![deny(unsafe_op_in_unsafe_fn)]
+#![allow(unexpected_cfgs)]
 
 #[macro_export]
 macro_rules! spawn {
@@ -97,3 +98,99 @@ pub(crate) mod utils {
 
 pub trait Component: 'static {}
 impl<T: 'static> Component for T {}
+
+/// Access for the verification harnesses to what is otherwise private to this crate
+#[cfg(arche_verif = "bits")]
+pub mod verif_bits {
+    use crate::bitset_iterator::{BitsetIterator, Bitsetsss, Bitvec};
+    use crate::EcsId;
+    use std::slice::Iter;
+
+    pub type MapFn = fn(usize) -> usize;
+
+    pub struct BitsIter<'a, const N: usize>(BitsetIterator<'a, [(Iter<'a, usize>, MapFn); N]>);
+
+    impl<'a, const N: usize> BitsIter<'a, N> {
+        pub fn new(iters: [(Iter<'a, usize>, MapFn); N], bit_length: u32) -> Self {
+            Self(BitsetIterator::new(iters, bit_length))
+        }
+
+        pub fn next(&mut self) -> Option<usize> {
+            self.0.next()
+        }
+    }
+
+    pub struct Bits(Bitvec);
+
+    impl Bits {
+        pub fn new() -> Self {
+            Self(Bitvec::new())
+        }
+
+        pub fn with_capacity(cap: usize) -> Self {
+            Self(Bitvec::with_capacity(cap))
+        }
+
+        pub fn get_bit(&self, index: usize) -> Option<bool> {
+            self.0.get_bit(index)
+        }
+
+        pub fn set_bit(&mut self, index: usize, value: bool) {
+            self.0.set_bit(index, value)
+        }
+
+        pub fn push_bit(&mut self, value: bool) {
+            self.0.push_bit(value)
+        }
+
+        pub fn len(&self) -> usize {
+            self.0.len
+        }
+
+        pub fn words(&self) -> &[usize] {
+            &self.0.data
+        }
+    }
+
+    pub struct BitSets(Bitsetsss);
+
+    impl BitSets {
+        pub fn new() -> Self {
+            Self(Bitsetsss::new())
+        }
+
+        pub fn with_capacity(cap: usize) -> Self {
+            Self(Bitsetsss::with_capacity(cap))
+        }
+
+        pub fn set_bit(&mut self, id: EcsId, index: usize, value: bool) {
+            self.0.set_bit(id, index, value)
+        }
+
+        pub fn push_bit(&mut self, id: EcsId, value: bool) {
+            self.0.push_bit(id, value)
+        }
+
+        /// None when there is no bitset for the id
+        pub fn get_bit(&self, id: EcsId, index: usize) -> Option<Option<bool>> {
+            self.0.get_bitvec(id).map(|bits| bits.get_bit(index))
+        }
+    }
+}
+
+/// Access for the verification harnesses to what is otherwise private to this crate
+#[cfg(arche_verif = "entities")]
+pub mod verif_entities {
+    use crate::entities::Entities;
+
+    pub fn from_parts(generations: Vec<(bool, u32)>, despawned: Vec<usize>) -> Entities {
+        Entities {
+            generations,
+            despawned,
+        }
+    }
+
+    pub fn parts(entities: &Entities) -> (&[(bool, u32)], &[usize]) {
+        (&entities.generations, &entities.despawned)
+    }
+}
-- 
2.43.0

