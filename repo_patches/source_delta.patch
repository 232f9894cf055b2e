From 2da1ed926ae8a92feb0caea570e351fff374ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 01/45] fix: abort properly when Shape::allocate runs out of
 memory

---
 facet-core/src/types/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 6180589..14406dc 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -252,7 +252,11 @@ impl Shape {
             core::ptr::without_provenance_mut(self.layout.align())
         } else {
             // SAFETY: We have checked that layout's size is non-zero
-            unsafe { alloc::alloc::alloc(self.layout) }
+            let ptr = unsafe { alloc::alloc::alloc(self.layout) };
+            if ptr.is_null() {
+                alloc::alloc::handle_alloc_error(self.layout);
+            }
+            ptr
         })
     }
 }
-- 
2.43.0


From 29cfc26a1bfe059aa6a777aae7a9c6c7a63e61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 02/45] fix: clean up an abandoned Wip exactly once, whatever
 its partial state

---
 facet-reflect/src/wip/mod.rs | 287 +++++++++++++----------------------
 1 file changed, 102 insertions(+), 185 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..2ecafe7 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,7 +6,6 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
@@ -135,31 +134,6 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
-            }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
-        }
-        self.dealloc_if_needed();
-    }
-
     /// Marks the frame as fully initialized
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
@@ -167,7 +141,13 @@ impl Frame {
                 self.istate.fields = ISet::all(sd.fields);
             }
             Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
+                // the value was provided as a whole: it knows which variant it is
+                let peek = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                if let Ok(peek) = peek.into_enum() {
+                    let variant = *peek.active_variant();
+                    self.istate.variant = Some(variant);
                     self.istate.fields = ISet::all(variant.data.fields);
                 }
             }
@@ -320,18 +300,84 @@ impl<'a> Wip<'a> {
         Self::alloc_shape(S::SHAPE)
     }
 
-    fn track(&mut self, frame: Frame) {
+    fn track(&mut self, mut frame: Frame) {
         // fields might be partially initialized (in-place) and then
         // we might come back to them, so because they're popped off
         // the stack, we still need to track them _somewhere_
         //
         // the root also relies on being tracked in the drop impl
-        if !frame.istate.flags.contains(FrameFlags::MOVED) {
-            self.istates.insert(frame.id(), frame.istate);
+        if frame.istate.flags.contains(FrameFlags::MOVED) {
+            return;
+        }
+
+        match frame.istate.mode {
+            FrameMode::Root => {
+                self.istates.insert(frame.id(), frame.istate);
+            }
+            FrameMode::Field => {
+                // only structs and enums can be partially initialized: for anything
+                // else, the bit in the parent says all there is to know
+                if matches!(frame.shape.def, Def::Struct(_) | Def::Enum(_)) {
+                    self.istates.insert(frame.id(), frame.istate);
+                }
+            }
+            // That's a view on an option that is tracked by its own frame
+            FrameMode::OptionNone => {}
+            // Those were never handed over to their container and cannot be selected
+            // again: nobody else is going to clean them up.
+            FrameMode::ListElement
+            | FrameMode::MapKey
+            | FrameMode::MapValue { .. }
+            | FrameMode::OptionSome => {
+                self.deinit(&mut frame);
+                frame.dealloc_if_needed();
+            }
+        }
+    }
+
+    /// Drops whatever is initialized in the given frame, and forgets everything
+    /// we know about its children. The memory of the frame itself isn't freed.
+    fn deinit(&mut self, frame: &mut Frame) {
+        if frame.is_fully_initialized() {
+            self.evict_tree(frame);
+            ISet::clear(&mut frame.istate.fields);
+            frame.istate.variant = None;
+            if let Some(drop_in_place) = frame.shape.vtable.drop_in_place {
+                unsafe { drop_in_place(frame.data.assume_init()) };
+            }
+            return;
+        }
+
+        let fields = match frame.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => match frame.istate.variant.take() {
+                Some(variant) => variant.data.fields,
+                None => &[],
+            },
+            // no partial state for those
+            _ => &[],
+        };
+        let initialized = frame.istate.fields;
+        ISet::clear(&mut frame.istate.fields);
+
+        for (i, field) in fields.iter().enumerate() {
+            let field_shape = field.shape();
+            let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
+            let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
+
+            if let Some(istate) = self.istates.remove(&field_id) {
+                let mut field_frame = Frame::recompose(field_id, istate);
+                self.deinit(&mut field_frame);
+            } else if initialized.has(i) {
+                if let Some(drop_in_place) = field_shape.vtable.drop_in_place {
+                    unsafe { drop_in_place(field_ptr.assume_init()) };
+                }
+            }
         }
     }
 
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        self.evict_tree(frame);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -639,6 +685,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let already_set = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -666,6 +713,16 @@ impl<'a> Wip<'a> {
                 iset.depth
             );
             frame.istate = iset;
+        } else if already_set {
+            trace!(
+                "[{}] field {} ({}#{}) of {} was initialized as a whole",
+                self.frames.len(),
+                field.name.blue(),
+                field.shape().green(),
+                index.yellow(),
+                shape.blue(),
+            );
+            unsafe { frame.mark_fully_initialized() };
         } else {
             trace!(
                 "[{}] no saved state for field {} ({}#{}) of {}",
@@ -1349,15 +1406,12 @@ impl<'a> Wip<'a> {
         // Now push a `None` frame
         let data = parent_frame.data;
 
-        let mut frame = Frame {
+        let frame = Frame {
             data,
             shape: od.t(),
-            field_index_in_parent: Some(0),
+            field_index_in_parent: None,
             istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
 
         self.frames.push(frame);
 
@@ -1684,7 +1738,7 @@ impl<'a> Wip<'a> {
     /// Evict a frame from istates, along with all its children
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
-    pub fn evict_tree(&mut self, frame: Frame) -> Frame {
+    fn evict_tree(&mut self, frame: &Frame) {
         match frame.shape.def {
             Def::Struct(sd) => {
                 for f in sd.fields {
@@ -1694,7 +1748,7 @@ impl<'a> Wip<'a> {
                     };
                     if let Some(istate) = self.istates.remove(&id) {
                         let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
+                        self.evict_tree(&frame);
                     } else {
                         trace!("No istate found for field {}", f.name);
                     }
@@ -1726,7 +1780,7 @@ impl<'a> Wip<'a> {
                             // Recompose the frame for the field
                             let field_frame = Frame::recompose(field_id, field_istate);
                             // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
+                            self.evict_tree(&field_frame);
                         } else {
                             trace!(
                                 "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
@@ -1746,7 +1800,6 @@ impl<'a> Wip<'a> {
             }
             _ => {}
         }
-        frame
     }
 
     #[allow(rustdoc::broken_intra_doc_links)]
@@ -1859,6 +1912,13 @@ impl Drop for Wip<'_> {
         trace!("🧹🧹🧹 WIP is dropping");
 
         while let Some(frame) = self.frames.pop() {
+            if let (Some(parent), Some(index)) =
+                (self.frames.last_mut(), frame.field_index_in_parent)
+            {
+                if frame.is_fully_initialized() {
+                    parent.istate.fields.set(index);
+                }
+            }
             self.track(frame);
         }
 
@@ -1869,151 +1929,8 @@ impl Drop for Wip<'_> {
 
         let root_id = *root_id;
         let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
-        }
+        let mut root = Frame::recompose(root_id, root_istate);
+        self.deinit(&mut root);
+        root.dealloc_if_needed();
     }
 }
-- 
2.43.0


From 77f1eed5e47270c69db7b03a67034ac067702dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 03/45] fix: release what is overwritten when (re-)setting a
 Wip frame, and check before modifying

---
 facet-reflect/src/wip/mod.rs | 144 +++++++++++++++++------------------
 1 file changed, 70 insertions(+), 74 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 2ecafe7..2d4d117 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -811,7 +811,9 @@ impl<'a> Wip<'a> {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_ok() {
+            core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        }
         res
     }
 
@@ -831,6 +833,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
+        self.check_can_initialize("tried to put a value but there was no frame to put into")?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
@@ -875,50 +878,11 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
+        // drop whatever we're about to overwrite
+        self.deinit_current();
+        let Some(frame) = self.frames.last_mut() else {
+            unreachable!("we just had a frame");
+        };
 
         unsafe {
             // Copy the contents from src to destination
@@ -939,7 +903,8 @@ impl<'a> Wip<'a> {
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+        self.check_can_initialize("tried to parse value but there was no frame")?;
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to parse value but there was no frame",
@@ -955,6 +920,13 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
+
+        // drop whatever we're about to overwrite
+        self.deinit_current();
+        let Some(frame) = self.frames.last_mut() else {
+            unreachable!("we just had a frame");
+        };
+
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
                 unsafe {
@@ -975,6 +947,10 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
+        self.check_can_initialize("tried to put value from fn but there was no frame")?;
+
+        // drop whatever we're about to overwrite
+        self.deinit_current();
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1016,6 +992,48 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
+    /// Checks that the current frame exists and can receive a value as a whole, before
+    /// anything is modified.
+    fn check_can_initialize(&self, no_frame: &'static str) -> Result<(), ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: no_frame,
+            });
+        };
+
+        if frame.istate.mode == FrameMode::OptionNone {
+            return Err(ReflectError::OperationFailed {
+                shape: frame.shape,
+                operation: "tried to put a value into the None variant of an option",
+            });
+        }
+
+        let Some(index) = frame.field_index_in_parent else {
+            return Ok(());
+        };
+        let parent = self
+            .frames
+            .len()
+            .checked_sub(2)
+            .and_then(|parent_index| self.frames.get(parent_index));
+        if parent.is_some_and(|parent| parent.istate.fields.has(index)) {
+            return Err(ReflectError::OperationFailed {
+                shape: frame.shape,
+                operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
+            });
+        }
+        Ok(())
+    }
+
+    /// Drops whatever is initialized in the current frame
+    fn deinit_current(&mut self) {
+        if let Some(mut frame) = self.frames.pop() {
+            self.deinit(&mut frame);
+            self.frames.push(frame);
+        }
+    }
+
     /// Marks a field as initialized in the parent frame.
     fn mark_field_as_initialized(
         &mut self,
@@ -1090,8 +1108,8 @@ impl<'a> Wip<'a> {
     }
 
     /// Creates an empty list without pushing any elements
-    pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+    pub fn put_empty_list(self) -> Result<Self, ReflectError> {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty list but there was no frame",
@@ -1115,23 +1133,12 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        Ok(self)
+        self.put_from_fn(default_in_place)
     }
 
     /// Creates an empty map without pushing any entries
-    pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
+    pub fn put_empty_map(self) -> Result<Self, ReflectError> {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to create empty map but there was no frame",
@@ -1155,18 +1162,7 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        Ok(self)
+        self.put_from_fn(default_in_place)
     }
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
-- 
2.43.0


From 35ed7b9e3189e2c9aaab7c34165e5e9a5585228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 04/45] fix: release the previous variant's fields when
 selecting another variant

---
 facet-reflect/src/wip/enum_.rs | 11 ++++++++---
 facet-reflect/src/wip/mod.rs   | 11 +++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..0d4e9f6 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -35,8 +35,13 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop the fields of the variant that was selected before (if any): since we're
+        // selecting a new variant, we (and our parents) aren't initialized anymore.
+        self.deinit_current();
+        self.unset_in_parents();
+        let Some(frame) = self.frames.last_mut() else {
+            unreachable!("we just had a frame");
+        };
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 2d4d117..4afdff0 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1034,6 +1034,17 @@ impl<'a> Wip<'a> {
         }
     }
 
+    /// The current frame isn't fully initialized anymore: neither are the structs and
+    /// enums it is a part of.
+    fn unset_in_parents(&mut self) {
+        for i in (1..self.frames.len()).rev() {
+            let Some(index) = self.frames[i].field_index_in_parent else {
+                break;
+            };
+            self.frames[i - 1].istate.fields.unset(index);
+        }
+    }
+
     /// Marks a field as initialized in the parent frame.
     fn mark_field_as_initialized(
         &mut self,
-- 
2.43.0


From 6d2b6bbc5aeb440b1402982abec6c0526c9ec9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 05/45] fix: release the previous content when an option is set
 again

---
 facet-reflect/src/wip/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 4afdff0..5f318db 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1353,7 +1353,7 @@ impl<'a> Wip<'a> {
     ///  5. Pops the parent option (which is the actual `Option<T>`, but no longer in option mode)
     pub fn pop_some_push_none(mut self) -> Result<Self, ReflectError> {
         // 1. Option frame must exist
-        let Some(frame) = self.frames.last_mut() else {
+        let Some(frame) = self.frames.last() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to pop_some_push_none but there was no frame",
@@ -1376,12 +1376,12 @@ impl<'a> Wip<'a> {
             });
         }
 
-        frame.dealloc_if_needed();
-
         // 3. Pop the frame (this discards, doesn't propagate up)
-        let _frame = self.frames.pop().expect("frame already checked");
+        let frame = self.frames.pop().expect("frame already checked");
+        self.track(frame);
 
         // 4. Set parent option (which we just popped into) to default (None)
+        self.deinit_current();
         let parent_frame = self
             .frames
             .last_mut()
@@ -1705,11 +1705,17 @@ impl<'a> Wip<'a> {
                                 parent_shape.blue()
                             );
                             unsafe {
-                                // Call the option's init_some function
-                                (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
-                                    PtrConst::new(frame.data.as_byte_ptr()),
-                                );
+                                let value = PtrConst::new(frame.data.as_byte_ptr());
+                                if parent_frame.istate.fields.is_any_set() {
+                                    // The option already holds something: replace it
+                                    (option_def.vtable.replace_with_fn)(
+                                        parent_frame.data.assume_init(),
+                                        Some(value),
+                                    );
+                                } else {
+                                    // Call the option's init_some function
+                                    (option_def.vtable.init_some_fn)(parent_frame.data, value);
+                                }
                                 trace!("Marking parent frame as fully initialized");
                                 parent_frame.mark_fully_initialized();
 
-- 
2.43.0


From dd8ee8b5d319cffe006d4751c868e96eb3192791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 06/45] fix: release everything when building a Wip fails

---
 facet-reflect/src/wip/mod.rs | 50 ++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 5f318db..1c0297e 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -159,6 +159,7 @@ impl Frame {
 }
 
 /// Initialization state
+#[derive(Clone)]
 struct IState {
     /// Variant chosen — for everything except enums, this stays None
     variant: Option<Variant>,
@@ -424,31 +425,20 @@ impl<'a> Wip<'a> {
         };
 
         let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
-        let root_istate = self
-            .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
+        let root_shape = root_id.shape;
+        let root_data_ptr = PtrUninit::new(root_id.ptr as *mut u8);
 
-        let root_frame = Frame::recompose(root_id, root_istate);
-        let root_shape = root_frame.shape;
-        let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
-
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
-        // 3. Initialize `to_check`
-        let mut to_check = alloc::vec![root_frame];
+        // 3. Initialize `to_check` — everything stays tracked while we're checking, so that
+        // it's cleaned up properly if something is missing.
+        let mut to_check = alloc::vec![root_id];
 
         // 4. Traverse the tree
-        while let Some(frame) = to_check.pop() {
+        while let Some(id) = to_check.pop() {
+            let Some(istate) = self.istates.get(&id) else {
+                // never selected on its own: the parent knows it's initialized
+                continue;
+            };
+            let frame = Frame::recompose(id, istate.clone());
             trace!(
                 "Checking frame: shape={} at {:p}, flags={:?}, mode={:?}",
                 frame.shape.blue(),
@@ -493,7 +483,7 @@ impl<'a> Wip<'a> {
                         let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                         let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
+                        if self.istates.contains_key(&field_id) {
                             debug!(
                                 "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
                                 _i.to_string().bright_cyan(),
@@ -502,8 +492,7 @@ impl<'a> Wip<'a> {
                                 field_shape.green(),
                                 field_ptr.as_byte_ptr()
                             );
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            to_check.push(field_frame);
+                            to_check.push(field_id);
                         }
                     }
                 }
@@ -536,7 +525,7 @@ impl<'a> Wip<'a> {
                             let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
                             let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
 
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
+                            if self.istates.contains_key(&field_id) {
                                 debug!(
                                     "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
                                     _i.to_string().bright_cyan(),
@@ -546,8 +535,7 @@ impl<'a> Wip<'a> {
                                     field_shape.green(),
                                     field_ptr.as_byte_ptr()
                                 );
-                                let field_frame = Frame::recompose(field_id, field_istate);
-                                to_check.push(field_frame);
+                                to_check.push(field_id);
                             }
                         }
                     } else {
@@ -625,6 +613,12 @@ impl<'a> Wip<'a> {
 
         FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
 
+        // 6. Transfer ownership of the root data to the HeapValue
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
+
         Ok(HeapValue {
             guard: Some(guard),
             shape: root_shape,
-- 
2.43.0


From b260c7f438067c5c4c24548c22333a6b1424a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 07/45] fix: report steps that need a frame as errors when
 there is none, or when it is a None

---
 facet-reflect/src/wip/enum_.rs |  4 +--
 facet-reflect/src/wip/mod.rs   | 50 ++++++++++++++++++++--------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index 0d4e9f6..3730f77 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -17,7 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.current("tried to select a variant but there was no frame")?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -90,7 +90,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or no variant with the given name exists.
     pub fn variant_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to select a variant but there was no frame")?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 1c0297e..a6a4e84 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -638,7 +638,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.current("tried to select a field but there was no frame")?;
         let shape = frame.shape;
 
         let (field, field_offset) = match shape.def {
@@ -767,7 +767,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to select a field but there was no frame")?;
         let shape = frame.shape;
 
         // For enums, ensure a variant is selected
@@ -989,20 +989,7 @@ impl<'a> Wip<'a> {
     /// Checks that the current frame exists and can receive a value as a whole, before
     /// anything is modified.
     fn check_can_initialize(&self, no_frame: &'static str) -> Result<(), ReflectError> {
-        let Some(frame) = self.frames.last() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: no_frame,
-            });
-        };
-
-        if frame.istate.mode == FrameMode::OptionNone {
-            return Err(ReflectError::OperationFailed {
-                shape: frame.shape,
-                operation: "tried to put a value into the None variant of an option",
-            });
-        }
-
+        let frame = self.current(no_frame)?;
         let Some(index) = frame.field_index_in_parent else {
             return Ok(());
         };
@@ -1020,6 +1007,25 @@ impl<'a> Wip<'a> {
         Ok(())
     }
 
+    /// The current frame, if there is one and it can be worked on.
+    fn current(&self, no_frame: &'static str) -> Result<&Frame, ReflectError> {
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: no_frame,
+            });
+        };
+
+        if frame.istate.mode == FrameMode::OptionNone {
+            return Err(ReflectError::OperationFailed {
+                shape: frame.shape,
+                operation: "tried to put a value into the None variant of an option",
+            });
+        }
+
+        Ok(frame)
+    }
+
     /// Drops whatever is initialized in the current frame
     fn deinit_current(&mut self) {
         if let Some(mut frame) = self.frames.pop() {
@@ -1086,7 +1092,7 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the element type for a list/array
     pub fn element_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to get the element shape but there was no frame")?;
         let shape = frame.shape;
 
         match shape.def {
@@ -1100,7 +1106,7 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the key type for a map
     pub fn key_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to get the key shape but there was no frame")?;
         let shape = frame.shape;
 
         match shape.def {
@@ -1172,6 +1178,7 @@ impl<'a> Wip<'a> {
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
+        self.current("tried to begin pushback but there was no frame")?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1208,6 +1215,7 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
+        self.current("tried to begin map insertion but there was no frame")?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1248,7 +1256,7 @@ impl<'a> Wip<'a> {
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a list
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to push an element but there was no frame")?;
         let list_shape = frame.shape;
 
         if !matches!(list_shape.def, Def::List(_)) {
@@ -1295,7 +1303,7 @@ impl<'a> Wip<'a> {
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing an option
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to push an option's value but there was no frame")?;
         let option_shape = frame.shape;
 
         // Get the option definition
@@ -1425,7 +1433,7 @@ impl<'a> Wip<'a> {
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a map
-        let frame = self.frames.last().unwrap();
+        let frame = self.current("tried to push a map key but there was no frame")?;
         let map_shape = frame.shape;
 
         if !matches!(map_shape.def, Def::Map(_)) {
-- 
2.43.0


From c1a3ce6e5238543578f8438dd9b60961e5b32392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 08/45] fix: ISet::are_all_set overflows with 64 fields

---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From f559d01e0618408103c285b656861c0c16edbb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 09/45] fix: try_put_f64 without a frame is an error

---
 facet-reflect/src/wip/put_f64.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..96ebbf9 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -17,7 +17,9 @@ impl Wip<'_> {
 
     /// Attempts to put a `f64` into the current frame, converting to the underlying numeric type.
     pub fn try_put_f64(self, number: f64) -> Result<Self, ReflectError> {
-        let shape = self.shape();
+        let shape = self
+            .current("tried to put a number but there was no frame")?
+            .shape;
         // Ensure this is a numeric scalar
         match shape.def {
             Def::Scalar(sd) => match sd.affinity {
-- 
2.43.0


From 4a760eb30966c37332779c0fe50a529bac675057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 10/45] fix: tuples drop their fields, and offer Debug and
 PartialEq when all fields do

---
 facet-core/src/impls_core/tuple.rs | 267 ++++++++++++++++++++---------
 facet-dev/src/tuples.rs            |  32 +++-
 2 files changed, 215 insertions(+), 84 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..3bf3b90 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -72,9 +73,11 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -122,6 +125,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -206,6 +212,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -325,6 +334,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -465,6 +478,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -642,6 +666,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -842,6 +878,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1065,6 +1114,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1311,6 +1374,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1582,6 +1660,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1888,6 +1982,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2202,42 +2313,15 @@ where
         }
 
         Shape::builder()
-            .id(ConstTypeId::of::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
-            .layout(Layout::new::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
+            .id(ConstTypeId::of::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
+            .layout(Layout::new::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
-                        .marker_traits({
-                            T0::SHAPE
-                                .vtable
-                                .marker_traits
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
+                        .marker_traits(                        {
+                            T0::SHAPE.vtable.marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
@@ -2249,96 +2333,119 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                                 .intersection(T11::SHAPE.vtable.marker_traits)
-                        });
+                    });
 
-                    if Characteristic::Eq.all(&[
-                        T0::SHAPE,
-                        T1::SHAPE,
-                        T2::SHAPE,
-                        T3::SHAPE,
-                        T4::SHAPE,
-                        T5::SHAPE,
-                        T6::SHAPE,
-                        T7::SHAPE,
-                        T8::SHAPE,
-                        T9::SHAPE,
-                        T10::SHAPE,
-                        T11::SHAPE,
+                    if Characteristic::Debug.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
                     ]) {
                         builder = builder.debug(|value, f| {
-                            let value = unsafe {
-                                value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
                             write!(f, "(")?;
                             unsafe {
                                 let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
-                            let a = unsafe {
-                                a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
-                            let b = unsafe {
-                                b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
+                            let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
 
                             // Compare element 0
                             unsafe {
@@ -2502,7 +2609,7 @@ where
                                 field!(8, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(9, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(10, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
-                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
+                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),)
                             ]
                         },
                     )
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..e3d376b 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,13 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!("                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<");
+        if n == 1 {
+            w!("(T0,)")
+        } else {
+            w!("({})", type_params)
+        }
+        w!(">() }})\n");
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
@@ -156,8 +163,8 @@ pub fn generate() -> String {
             w!("                    }});\n\n");
         }
 
-        // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        // Conditional debug implementation
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -198,8 +205,25 @@ pub fn generate() -> String {
             w!("                            }}?;\n");
         }
 
-        w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        if n == 1 {
+            // like the standard library: the comma is part of a 1-tuple
+            w!("                            write!(f, \",)\")\n");
+        } else {
+            w!("                            write!(f, \")\")\n");
+        }
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        // Conditional eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
 
         // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
-- 
2.43.0


From 3278c4d62e94d0fdfa20ca6be42918fa83836e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 11/45] fix: array items are reached at their own index

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From 22d87953ce79416f2fc718ce01867a48ba146e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 12/45] fix: cloning a Vec, map or slice reference yields a
 clone, not a reference to the original

---
 facet-core/src/impls_alloc/btreemap.rs | 34 +++++++++++++++++++++++---
 facet-core/src/impls_alloc/vec.rs      | 20 +++++++++++++--
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/impls_std/hashmap.rs    | 34 +++++++++++++++++++++++---
 4 files changed, 79 insertions(+), 11 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..ea8d0a9 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,34 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<BTreeMap<K, V>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = BTreeMap::<K, V>::new();
+                            for (key, value) in src {
+                                let key = {
+                                    let mut slot = MaybeUninit::<K>::uninit();
+                                    (k_clone)(
+                                        PtrConst::new(key as *const _),
+                                        PtrUninit::from_maybe_uninit(&mut slot),
+                                    );
+                                    slot.assume_init()
+                                };
+                                let value = {
+                                    let mut slot = MaybeUninit::<V>::uninit();
+                                    (v_clone)(
+                                        PtrConst::new(value as *const _),
+                                        PtrUninit::from_maybe_uninit(&mut slot),
+                                    );
+                                    slot.assume_init()
+                                };
+                                cloned.insert(key, value);
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..e274089 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -30,8 +30,24 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let t_clone = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                let len = cloned.len();
+                                (t_clone)(
+                                    PtrConst::new(item),
+                                    PtrUninit::new(cloned.as_mut_ptr().add(len)),
+                                );
+                                cloned.set_len(len + 1);
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..bf9a571 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,9 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
 use std::hash::RandomState;
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -85,8 +85,34 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = HashMap::<K, V>::with_capacity(src.len());
+                            for (key, value) in src {
+                                let key = {
+                                    let mut slot = MaybeUninit::<K>::uninit();
+                                    (k_clone)(
+                                        PtrConst::new(key as *const _),
+                                        PtrUninit::from_maybe_uninit(&mut slot),
+                                    );
+                                    slot.assume_init()
+                                };
+                                let value = {
+                                    let mut slot = MaybeUninit::<V>::uninit();
+                                    (v_clone)(
+                                        PtrConst::new(value as *const _),
+                                        PtrUninit::from_maybe_uninit(&mut slot),
+                                    );
+                                    slot.assume_init()
+                                };
+                                cloned.insert(key, value);
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-- 
2.43.0


From 4adef4ed08a2fbde8283561cf9ac0984fecdffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 13/45] fix: HashMap with another hasher is accessed as its own
 type

---
 facet-core/src/impls_std/hashmap.rs | 40 +++++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index bf9a571..6a2f3b3 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,7 @@
 use alloc::collections::VecDeque;
 use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{BuildHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -19,12 +19,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +62,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -85,12 +87,16 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some() {
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
                         builder = builder.clone_into(|src, dst| unsafe {
-                            let src = src.get::<HashMap<K, V>>();
+                            let src = src.get::<HashMap<K, V, S>>();
                             let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
                             let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
-                            let mut cloned = HashMap::<K, V>::with_capacity(src.len());
+                            let mut cloned = HashMap::<K, V, S>::with_capacity_and_hasher(
+                                src.len(),
+                                S::default(),
+                            );
                             for (key, value) in src {
                                 let key = {
                                     let mut slot = MaybeUninit::<K>::uninit();
@@ -116,8 +122,8 @@ where
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -134,7 +140,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -164,25 +170,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -191,7 +197,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From caf6176e29beab547c597c662889b0a5e4206f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 14/45] style: rustfmt

---
 facet-core/src/impls_alloc/btreemap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index ea8d0a9..078f695 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -80,7 +80,8 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some() {
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
                         builder = builder.clone_into(|src, dst| unsafe {
                             let src = src.get::<BTreeMap<K, V>>();
                             let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
-- 
2.43.0


From 57320ced236abbf993e47aec04d2c8115a7a23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 15/45] fix: equal HashMaps have equal hashes

---
 facet-core/src/impls_std/hashmap.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 6a2f3b3..12c065a 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,11 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
+use core::{
+    alloc::Layout,
+    hash::{Hash, Hasher},
+    mem::MaybeUninit,
+};
 use std::collections::HashMap;
-use std::hash::{BuildHasher, RandomState};
+use std::hash::{BuildHasher, DefaultHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -144,14 +148,20 @@ where
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // equal maps can iterate in different orders: combine the entries'
+                            // hashes in a way that doesn't depend on it
+                            let mut combined = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry_hasher = DefaultHasher::new();
+                                k.hash(&mut entry_hasher);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&raw mut entry_hasher),
+                                    |hasher, bytes| hasher.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                combined = combined.wrapping_add(entry_hasher.finish());
                             }
+                            combined.hash(&mut hasher);
                         });
                     }
 
-- 
2.43.0


From a91572691fe68321cd1fb0f071f331c845e389c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 16/45] fix: a Weak is dropped, cloned and defaulted as a Weak

---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From f6f283ad8ddeb684ae8061308764a2352c4d1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 17/45] fix: paths and opaque scalars use the operations of
 their own type

---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs | 10 ++++++++--
 facet-core/src/impls_std/hashmap.rs |  2 +-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..e3b1d3f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
@@ -45,7 +48,10 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(
+                core::marker::PhantomData<T>,
+                |f, _opts| write!(f, "PhantomData")
+            ))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 12c065a..d6196dd 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -246,7 +246,7 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(f, "RandomState")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From e417089972b63e2701a7c6a843c065cee4568ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 18/45] fix: NonZero integers are parsed and defaulted as
 NonZero

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index e3b1d3f..dd3969f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -166,7 +166,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
-- 
2.43.0


From a251454ce70d36d09b3bbe5b741296d5781a406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 19/45] fix: cloning or defaulting an array drops the finished
 items if an item panics

---
 facet-core/src/impls_core/array.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..1216e36 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -2,6 +2,29 @@ use crate::*;
 use core::alloc::Layout;
 use core::{cmp::Ordering, iter::zip};
 
+/// Drops the items filled so far when filling the next one panics
+struct FilledItems<T> {
+    start: *mut T,
+    len: usize,
+}
+
+impl<T> FilledItems<T> {
+    fn new(target: PtrUninit<'_>) -> Self {
+        Self {
+            start: target.as_mut_byte_ptr() as *mut T,
+            len: 0,
+        }
+    }
+}
+
+impl<T> Drop for FilledItems<T> {
+    fn drop(&mut self) {
+        unsafe {
+            core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.start, self.len))
+        }
+    }
+}
+
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
     T: Facet,
@@ -88,9 +111,12 @@ where
                         builder = builder.default_in_place(|target| unsafe {
                             let t_dip = T::SHAPE.vtable.default_in_place.unwrap_unchecked();
                             let stride = T::SHAPE.layout.pad_to_align().size();
+                            let mut filled = FilledItems::<T>::new(target);
                             for idx in 0..L {
                                 t_dip(target.field_uninit_at(idx * stride));
+                                filled.len += 1;
                             }
+                            core::mem::forget(filled);
                             target.assume_init()
                         });
                     } else {
@@ -102,9 +128,12 @@ where
                             let t_cip = T::SHAPE.vtable.clone_into.unwrap_unchecked();
                             let src = src.get::<[T; L]>();
                             let stride = T::SHAPE.layout.pad_to_align().size();
+                            let mut filled = FilledItems::<T>::new(dst);
                             for (idx, src) in src.iter().enumerate() {
                                 (t_cip)(PtrConst::new(src), dst.field_uninit_at(idx * stride));
+                                filled.len += 1;
                             }
+                            core::mem::forget(filled);
                             dst.assume_init()
                         });
                     }
-- 
2.43.0


From 3c5e30b336a7b5fc4e5bf0e1ef5976db7ffd4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 20/45] fix: slices and arrays hash like the native types

---
 facet-core/src/impls_core/array.rs | 4 +++-
 facet-core/src/impls_core/slice.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 1216e36..a9297f5 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 /// Drops the items filled so far when filling the next one panics
 struct FilledItems<T> {
@@ -174,6 +174,8 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            // like the standard library: an array hashes as a slice
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..00038b5 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -143,6 +143,9 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From 84c19bd9694225938b8bdd175c41b1cff2fb7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 21/45] fix: comparing values or looking up keys of another
 type is refused instead of misreading them

---
 facet-reflect/src/peek/map.rs   | 14 ++++++++++++++
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..2911458 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -2,6 +2,10 @@ use facet_core::{MapDef, PtrConst, PtrMut};
 
 use super::Peek;
 
+fn shape_of_val<T: facet_core::Facet>(_: &T) -> &'static facet_core::Shape {
+    T::SHAPE
+}
+
 /// Iterator over key-value pairs in a `PeekMap`
 pub struct PeekMapIter<'mem> {
     map: PeekMap<'mem>,
@@ -70,7 +74,12 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Check if the map contains a key
+    ///
+    /// A key of another type than the map's keys is never contained.
     pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+        if shape_of_val(key) != self.def.k {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
@@ -78,7 +87,12 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Get a value from the map for the given key
+    ///
+    /// There is none for a key of another type than the map's keys.
     pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+        if shape_of_val(key) != self.def.k {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..0ba0744 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if equality comparison is not supported for this scalar type, or if the
+    /// two values are of different types
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if comparison is not supported for this scalar type, or if the two values
+    /// are of different types
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 18888cd72f4196444c1eff1218c5c906b5d54397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 22/45] fix: clone_into clones the value, not the reference to
 it

The specialization helper wraps a reference to the value, and its clone wrote
that reference into the target: every type-erased clone of a scalar or derived
type was garbage, and overflowed targets smaller than a pointer.
---
 facet-core/src/spez/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..eeb6196 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,9 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From 3261380df6f35166992c618794143ff0c2330d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 23/45] fix: json strings: decode escapes, reject malformed
 ones and raw control characters

---
 facet-json/src/deserialize.rs | 190 ++++++++++++++++++++--------------
 1 file changed, 114 insertions(+), 76 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..b56b363 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -2,6 +2,7 @@ use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, Sha
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use alloc::vec::Vec;
@@ -202,57 +203,9 @@ pub fn from_slice_wip<'input, 'a>(
                     }
                     b'"' => {
                         pos += 1;
-                        let start = pos;
-                        // Our value is a string: collect bytes first
-                        let mut bytes = Vec::new();
-                        loop {
-                            let Some(c) = input.get(pos).copied() else {
-                                bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
-                            };
-                            match c {
-                                b'"' => {
-                                    break;
-                                }
-                                b'\\' => {
-                                    // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
-                                        }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
-                                    }
-                                }
-                                _ => {
-                                    if !bytes.is_empty() {
-                                        bytes.push(c);
-                                    }
-                                    pos += 1;
-                                }
-                            }
-                        }
-                        let end = pos;
-                        pos += 1;
-
-                        let value = if bytes.is_empty() {
-                            match core::str::from_utf8(&input[start..end]) {
-                                Ok(it) => alloc::borrow::Cow::Borrowed(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
-                        } else {
-                            // Convert collected bytes to string at once
-                            match alloc::string::String::from_utf8(bytes) {
-                                Ok(it) => alloc::borrow::Cow::Owned(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
+                        let value = match scan_string(input, &mut pos) {
+                            Ok(value) => value,
+                            Err(e) => bail!(e),
                         };
 
                         trace!(
@@ -613,6 +566,115 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// Reads the rest of a string, whose opening quote is just before `pos`, closing quote included.
+fn scan_string<'input>(
+    input: &'input [u8],
+    pos: &mut usize,
+) -> Result<Cow<'input, str>, JsonErrorKind> {
+    fn to_utf8(bytes: &[u8]) -> Result<&str, JsonErrorKind> {
+        core::str::from_utf8(bytes)
+            .map_err(|e| JsonErrorKind::InvalidUtf8(format!("Invalid UTF-8 sequence: {}", e)))
+    }
+
+    // What was unescaped so far, if there was any escape sequence
+    let mut unescaped: Option<String> = None;
+    // Start of what isn't part of `unescaped` yet
+    let mut start = *pos;
+
+    loop {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \""));
+        };
+        match c {
+            b'"' => {
+                let rest = to_utf8(&input[start..*pos])?;
+                *pos += 1;
+                return Ok(match unescaped {
+                    Some(mut value) => {
+                        value.push_str(rest);
+                        Cow::Owned(value)
+                    }
+                    None => Cow::Borrowed(rest),
+                });
+            }
+            b'\\' => {
+                let value = unescaped.get_or_insert_with(String::new);
+                value.push_str(to_utf8(&input[start..*pos])?);
+                *pos += 1;
+                value.push(scan_escape(input, pos)?);
+                start = *pos;
+            }
+            0..=0x1f => {
+                return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+            }
+            _ => {
+                *pos += 1;
+            }
+        }
+    }
+}
+
+/// Reads the rest of an escape sequence, whose backslash is just before `pos`.
+fn scan_escape(input: &[u8], pos: &mut usize) -> Result<char, JsonErrorKind> {
+    let Some(c) = input.get(*pos).copied() else {
+        return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+    };
+    *pos += 1;
+    Ok(match c {
+        b'"' | b'\\' | b'/' => c as char,
+        b'b' => '\u{08}',
+        b'f' => '\u{0C}',
+        b'n' => '\n',
+        b'r' => '\r',
+        b't' => '\t',
+        b'u' => {
+            let unit = scan_hex4(input, pos)?;
+            let code = if (0xd800..0xdc00).contains(&unit) && input[*pos..].starts_with(b"\\u") {
+                // a surrogate pair
+                *pos += 2;
+                let low = scan_hex4(input, pos)?;
+                if !(0xdc00..0xe000).contains(&low) {
+                    return Err(JsonErrorKind::InvalidUtf8(format!(
+                        "Unpaired surrogate: \\u{:04x}",
+                        unit
+                    )));
+                }
+                0x10000 + ((unit - 0xd800) << 10) + (low - 0xdc00)
+            } else {
+                unit
+            };
+            match char::from_u32(code) {
+                Some(c) => c,
+                None => {
+                    return Err(JsonErrorKind::InvalidUtf8(format!(
+                        "Unpaired surrogate: \\u{:04x}",
+                        unit
+                    )));
+                }
+            }
+        }
+        _ => {
+            *pos -= 1;
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        }
+    })
+}
+
+fn scan_hex4(input: &[u8], pos: &mut usize) -> Result<u32, JsonErrorKind> {
+    let mut value = 0;
+    for _ in 0..4 {
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \\u"));
+        };
+        let Some(digit) = (c as char).to_digit(16) else {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        };
+        value = value * 16 + digit;
+        *pos += 1;
+    }
+    Ok(value)
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
@@ -706,31 +768,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         b'"' => {
             // Skip a string, with escape processing
             *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
-                        *pos += 1;
-                        break;
-                    }
-                    _ => {
-                        *pos += 1;
-                    }
-                }
-            }
-            if *pos > bytes.len() {
-                return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
-                ));
-            }
+            scan_string(input, pos)?;
         }
         b't' => {
             // Expect "true"
-- 
2.43.0


From 78d3b4a4a09775694289634c0fab9556815cecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 24/45] fix: json numbers follow the grammar and are read
 exactly or refused

---
 facet-json/src/deserialize.rs | 155 +++++++++++++++++++++-------------
 1 file changed, 97 insertions(+), 58 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index b56b363..7a317fc 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,3 +1,4 @@
+use core::num::NonZero;
 use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
@@ -318,27 +319,64 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
-                        }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let number = match scan_number(input, &mut pos) {
+                            Ok(number) => number,
+                            Err(e) => bail!(e),
+                        };
                         trace!("Parsed {:?}", number.yellow());
 
-                        // Prefer try_put_f64 only if actually supported (can_put_f64)
-                        if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                        let shape = wip.shape();
+                        // A number with a fraction or an exponent can still be an integer
+                        let float = number.parse::<f64>().unwrap_or(f64::NAN);
+                        let integer = if number == "-0" {
+                            Cow::Borrowed("0")
+                        } else if !number.contains(['.', 'e', 'E']) {
+                            Cow::Borrowed(number)
+                        } else if float % 1.0 == 0.0 {
+                            Cow::Owned(float.to_string())
                         } else {
+                            Cow::Borrowed("not an integer")
+                        };
+
+                        macro_rules! put_number {
+                            ($text:expr => $($ty:ty)*) => {
+                                $(if shape.is_type::<$ty>() {
+                                    match $text.parse::<$ty>() {
+                                        Ok(value) => {
+                                            wip = wip.put::<$ty>(value).unwrap();
+                                            true
+                                        }
+                                        Err(_) => bail!(JsonErrorKind::NumberOutOfRange(float)),
+                                    }
+                                } else)* {
+                                    false
+                                }
+                            };
+                        }
+                        let done = if shape.is_type::<f32>() {
+                            match number.parse::<f32>() {
+                                Ok(value) if value.is_finite() => {
+                                    wip = wip.put(value).unwrap();
+                                    true
+                                }
+                                _ => bail!(JsonErrorKind::NumberOutOfRange(float)),
+                            }
+                        } else if shape.is_type::<f64>() {
+                            if !float.is_finite() {
+                                bail!(JsonErrorKind::NumberOutOfRange(float));
+                            }
+                            wip = wip.put(float).unwrap();
+                            true
+                        } else {
+                            put_number!(integer =>
+                                u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
+                                NonZero<u8> NonZero<u16> NonZero<u32> NonZero<u64> NonZero<u128> NonZero<usize>
+                                NonZero<i8> NonZero<i16> NonZero<i32> NonZero<i64> NonZero<i128> NonZero<isize>
+                            )
+                        };
+
+                        if !done {
                             // If string affinity (eg, expecting a string, but got number)
-                            let shape = wip.shape();
                             if let Def::Scalar(sd) = shape.def {
                                 if let ScalarAffinity::String(_) = sd.affinity {
                                     if shape.is_type::<String>() {
@@ -348,7 +386,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 }
                             }
                             // fallback for other shape mismatch (todo! or parse error)
-                            bail!(JsonErrorKind::NumberOutOfRange(number));
+                            bail!(JsonErrorKind::NumberOutOfRange(float));
                         }
                         finished_value = Some(why);
                     }
@@ -675,6 +713,46 @@ fn scan_hex4(input: &[u8], pos: &mut usize) -> Result<u32, JsonErrorKind> {
     Ok(value)
 }
 
+/// Reads a number: `-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?`
+fn scan_number<'input>(input: &'input [u8], pos: &mut usize) -> Result<&'input str, JsonErrorKind> {
+    fn digits(input: &[u8], pos: &mut usize) -> Result<(), JsonErrorKind> {
+        let start = *pos;
+        while let Some(b'0'..=b'9') = input.get(*pos) {
+            *pos += 1;
+        }
+        if *pos > start {
+            return Ok(());
+        }
+        Err(match input.get(*pos).copied() {
+            Some(c) => JsonErrorKind::UnexpectedCharacter(c as char),
+            None => JsonErrorKind::UnexpectedEof("number without digits"),
+        })
+    }
+
+    let start = *pos;
+    if input.get(*pos) == Some(&b'-') {
+        *pos += 1;
+    }
+    if input.get(*pos) == Some(&b'0') {
+        // no other digit can follow
+        *pos += 1;
+    } else {
+        digits(input, pos)?;
+    }
+    if input.get(*pos) == Some(&b'.') {
+        *pos += 1;
+        digits(input, pos)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
+            *pos += 1;
+        }
+        digits(input, pos)?;
+    }
+    core::str::from_utf8(&input[start..*pos]).map_err(|e| JsonErrorKind::InvalidUtf8(e.to_string()))
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
@@ -795,46 +873,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
         }
         b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
-                *pos += 1;
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
-                *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                }
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
-                }
-            }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
-                    *pos += 1;
-                }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
-                }
-            }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
+            scan_number(input, pos)?;
         }
         _ => {
             return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-- 
2.43.0


From cf52e9f284078d023f2b18331ad6a620ed9ee909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 25/45] fix: put_peek clones the peeked value instead of
 duplicating its bytes

---
 facet-reflect/src/wip/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index a6a4e84..97ef985 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -9,7 +9,8 @@ use alloc::format;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Characteristic, Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape,
+    Variant,
 };
 use flat_map::FlatMap;
 
@@ -273,7 +274,30 @@ impl<'a> Wip<'a> {
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        // the peeked value keeps being owned by someone else: this one is ours to move
+        let Some(clone_into) = peek.shape.vtable.clone_into else {
+            return Err(ReflectError::MissingCharacteristic {
+                shape: peek.shape,
+                characteristic: Characteristic::Clone,
+            });
+        };
+        let mut clone = Wip::alloc_shape(peek.shape);
+        let Some(frame) = clone.frames.last_mut() else {
+            unreachable!("we just allocated a frame");
+        };
+        let src = unsafe {
+            let src = clone_into(peek.data, frame.data).as_const();
+            frame.mark_fully_initialized();
+            src
+        };
+
+        let wip = self.put_shape(src, peek.shape)?;
+
+        if let Some(mut frame) = clone.frames.pop() {
+            unsafe { clone.mark_moved_out_of(&mut frame) };
+        }
+
+        Ok(wip)
     }
 
     /// Returns the number of frames on the stack
-- 
2.43.0


From 6bc3cc82758ffda38e8dc5c22d834768c1e856f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 26/45] fix: json reader: errors instead of panics, no partial
 values, options and defaults at any position

A step that the builder refuses, a value that doesn't fit, a repeated member, whatever
follows the document and hostile nesting are errors; objects are only accepted for structs
and arrays for lists; unknown members are skipped whatever they hold, without recursion;
the fields of a struct's default are moved into the missing fields, exactly once.
---
 facet-json/src/deserialize.rs       | 826 +++++++++++++---------------
 facet-json/src/deserialize/error.rs |  31 +-
 facet-reflect/src/wip/mod.rs        |  44 ++
 3 files changed, 448 insertions(+), 453 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 7a317fc..2817cea 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
@@ -33,7 +33,9 @@ pub fn from_str<T: Facet>(json: &str) -> Result<T, JsonParseErrorWithContext<'_>
 pub fn from_slice<T: Facet>(json: &[u8]) -> Result<T, JsonParseErrorWithContext<'_>> {
     let wip = Wip::alloc::<T>();
     let heap_value = from_slice_wip(wip, json)?;
-    Ok(heap_value.materialize::<T>().unwrap())
+    Ok(heap_value
+        .materialize::<T>()
+        .expect("we allocated a T, that's what was built"))
 }
 
 /// Deserialize a JSON string into a Wip object.
@@ -68,6 +70,26 @@ pub fn from_slice_wip<'input, 'a>(
         };
     }
 
+    // Does a step with `wip`, or bails out with the reason why it can't be done
+    macro_rules! step {
+        ($step:expr) => {
+            step!($step, String::from("$"))
+        };
+        ($step:expr, $path:expr) => {
+            match $step {
+                Ok(next) => next,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e),
+                        input,
+                        pos,
+                        $path,
+                    ));
+                }
+            }
+        };
+    }
+
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
     enum WhyValue {
@@ -107,29 +129,28 @@ pub fn from_slice_wip<'input, 'a>(
         /// Expecting a separator (colon or comma).
         Separator(Separator),
         /// We did `push_some` and now we need to pop it
-        PopOption,
+        PopOption(WhyValue),
     }
 
     let mut stack: Vec<Expect> = Vec::new();
     stack.push(Expect::Value(WhyValue::TopLevel));
 
+    // How many objects and arrays are currently open
+    let mut depth: usize = 0;
+
     loop {
-        // skip over whitespace
-        while let Some(c) = input.get(pos).copied() {
-            match c {
-                b' ' | b'\t' | b'\n' | b'\r' => {
-                    pos += 1;
-                }
-                _ => break,
-            }
-        }
+        skip_whitespace(input, &mut pos);
 
         let frame_count = wip.frames_count();
         let expect = match stack.pop() {
             Some(expect) => expect,
             None => {
+                if let Some(c) = input.get(pos).copied() {
+                    // there's something after the value
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
                 if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
+                    return Ok(step!(wip.build()));
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
@@ -138,39 +159,126 @@ pub fn from_slice_wip<'input, 'a>(
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
-        };
-
         let mut finished_value: Option<WhyValue> = None;
 
         match expect {
-            Expect::PopOption => {
+            Expect::PopOption(why) => {
                 // that's all, carry on
                 trace!("Popping option");
-                finished_value = Some(WhyValue::ObjectValue);
+                finished_value = Some(why);
             }
-            Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
-                    stack.push(Expect::PopOption);
+            Expect::Value(WhyValue::ObjectKey) => {
+                match input.get(pos).copied() {
+                    Some(b'"') => pos += 1,
+                    Some(c) => bail!(JsonErrorKind::UnexpectedCharacter(c as char)),
+                    None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
                 }
-
-                match c {
-                    b'{' => {
+                let key = match scan_string(input, &mut pos) {
+                    Ok(key) => key,
+                    Err(e) => bail!(e),
+                };
+                trace!("Parsed key {:?} for {}", key.yellow(), wip.shape().blue());
+
+                // Look for field with matching name or rename attribute
+                let shape = wip.shape();
+                let Def::Struct(struct_def) = shape.def else {
+                    unreachable!("objects are only accepted for structs")
+                };
+                let renamed_to = |f: &Field, name: &str| {
+                    f.attributes.iter().any(
+                        |attr| matches!(attr, &FieldAttribute::Rename(rename) if rename == name),
+                    )
+                };
+                let field_index = struct_def
+                    .fields
+                    .iter()
+                    .position(|f| renamed_to(f, &key))
+                    .or_else(|| struct_def.fields.iter().position(|f| f.name == key));
+
+                if let Some(field_index) = field_index {
+                    trace!("found field {:?}", struct_def.fields[field_index].blue());
+                    if step!(wip.is_field_set(field_index)) {
+                        bail!(JsonErrorKind::DuplicateField(key.into_owned()));
+                    }
+                    wip = step!(wip.field(field_index));
+                } else if shape
+                    .attributes
+                    .iter()
+                    .any(|attr| matches!(attr, ShapeAttribute::DenyUnknownFields))
+                {
+                    // Field not found - original or renamed, and unknown fields denied
+                    bail!(JsonErrorKind::UnknownField(key.into_owned()));
+                } else {
+                    // pop Expect::Colon (assert)
+                    let expect_colon = stack.pop();
+                    assert!(matches!(
+                        expect_colon,
+                        Some(Expect::Separator(Separator::Colon))
+                    ));
+                    skip_whitespace(input, &mut pos);
+                    // skip over colon
+                    match input.get(pos).copied() {
+                        Some(b':') => pos += 1,
+                        Some(c) => bail!(JsonErrorKind::UnexpectedCharacter(c as char)),
+                        None => bail!(JsonErrorKind::UnexpectedEof("no colon after object key")),
+                    }
+                    // pop Expect::Value
+                    let expect_value = stack.pop();
+                    assert!(matches!(
+                        expect_value,
+                        Some(Expect::Value(WhyValue::ObjectValue))
+                    ));
+                    // skip over value
+                    if let Err(e) = skip_over_value(&mut pos, input) {
+                        bail!(e);
+                    }
+                    trace!(
+                        "immediately after skip over value, we're at pos {}, char is {}",
+                        pos,
+                        input.get(pos).copied().unwrap_or(b'$') as char
+                    );
+                }
+            }
+            Expect::Value(why) => {
+                let Some(c) = input.get(pos).copied() else {
+                    bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+                };
+                let shape = wip.shape();
+
+                match (c, shape.def) {
+                    (b'n', Def::Option(_)) => {
+                        if let Err(e) = scan_literal(input, &mut pos, "null") {
+                            bail!(e);
+                        }
+                        wip = step!(
+                            wip.push_some()
+                                .and_then(Wip::pop_some_push_none)
+                                .and_then(Wip::pop)
+                        );
+                        finished_value = Some(why);
+                    }
+                    (_, Def::Option(_)) => {
+                        wip = step!(wip.push_some());
+                        stack.push(Expect::PopOption(why));
+                        stack.push(Expect::Value(why));
+                    }
+                    (b'{', Def::Struct(_)) => {
                         trace!("Object starting");
+                        if depth == MAX_DEPTH {
+                            bail!(JsonErrorKind::TooDeep);
+                        }
                         pos += 1;
-                        let Some(c) = input.get(pos).copied() else {
-                            bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
-                        };
-                        match c {
-                            b'}' => {
+                        skip_whitespace(input, &mut pos);
+                        match input.get(pos).copied() {
+                            None => bail!(JsonErrorKind::UnexpectedEof("nothing after {")),
+                            Some(b'}') => {
                                 trace!("Empty object ended");
                                 pos += 1;
                                 finished_value = Some(why);
                             }
-                            _ => {
+                            Some(_) => {
                                 trace!("Object's not empty, let's do `key: value ,` next");
+                                depth += 1;
                                 // okay, next we expect a "key: value"
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));
                                 stack.push(Expect::Value(WhyValue::ObjectValue));
@@ -179,30 +287,31 @@ pub fn from_slice_wip<'input, 'a>(
                             }
                         }
                     }
-                    b'[' => {
+                    (b'[', Def::List(_)) => {
+                        if depth == MAX_DEPTH {
+                            bail!(JsonErrorKind::TooDeep);
+                        }
                         pos += 1;
-                        let Some(c) = input.get(pos).copied() else {
-                            bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
-                        };
-
-                        wip = wip.begin_pushback().unwrap();
-                        match c {
-                            b']' => {
+                        wip = step!(wip.begin_pushback());
+                        skip_whitespace(input, &mut pos);
+                        match input.get(pos).copied() {
+                            None => bail!(JsonErrorKind::UnexpectedEof("nothing after [")),
+                            Some(b']') => {
                                 // an array just closed, somewhere
                                 pos += 1;
                                 trace!("Got empty array");
                                 finished_value = Some(why);
                             }
-                            _ => {
+                            Some(_) => {
+                                depth += 1;
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
-                                continue; // we didn't finish a value so don't pop yet
+                                wip = step!(wip.push());
                             }
                         }
                     }
-                    b'"' => {
+                    (b'"', _) => {
                         pos += 1;
                         let value = match scan_string(input, &mut pos) {
                             Ok(value) => value,
@@ -212,138 +321,35 @@ pub fn from_slice_wip<'input, 'a>(
                         trace!(
                             "Parsed string {:?} for {} (why? {:?})",
                             value.yellow(),
-                            wip.shape().blue(),
+                            shape.blue(),
                             why.cyan()
                         );
 
-                        match why {
-                            WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
-                                // skip the string parse impl
-                                if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
-                                } else {
-                                    wip = wip.parse(&value).unwrap();
-                                }
-                                finished_value = Some(why);
-                            }
-                            WhyValue::ObjectKey => {
-                                // Look for field with matching name or rename attribute
-                                let shape = wip.shape();
-
-                                if let Def::Struct(struct_def) = shape.def {
-                                    let field = struct_def.fields.iter().find(|f| {
-                                        // Check original name
-                                        if f.name == value {
-                                            return true;
-                                        }
-
-                                        // Check rename attribute
-                                        f.attributes.iter().any(|attr| {
-                                            if let &FieldAttribute::Rename(rename) = attr {
-                                                rename == value
-                                            } else {
-                                                false
-                                            }
-                                        })
-                                    });
-
-                                    if let Some(field) = field {
-                                        trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
-                                    } else if shape.attributes.iter().any(|attr| {
-                                        matches!(attr, ShapeAttribute::DenyUnknownFields)
-                                    }) {
-                                        // Field not found - original or renamed, and unknown fields denied
-                                        bail!(JsonErrorKind::UnknownField(value.into_owned()));
-                                    } else {
-                                        // pop Expect::Colon (assert)
-                                        let expect_colon = stack.pop();
-                                        assert!(matches!(
-                                            expect_colon,
-                                            Some(Expect::Separator(Separator::Colon))
-                                        ));
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
-                                        // skip over colon
-                                        if let Some(b':') = input.get(pos) {
-                                            pos += 1;
-                                        } else {
-                                            bail!(JsonErrorKind::UnexpectedCharacter(
-                                                input
-                                                    .get(pos)
-                                                    .copied()
-                                                    .map(|c| c as char)
-                                                    .unwrap_or('\0')
-                                            ));
-                                        }
-                                        // skip over whitespace
-                                        while let Some(b' ' | b'\t' | b'\n' | b'\r') =
-                                            input.get(pos).copied()
-                                        {
-                                            pos += 1;
-                                        }
-                                        // pop Expect::Value
-                                        let expect_value = stack.pop();
-                                        assert!(matches!(
-                                            expect_value,
-                                            Some(Expect::Value(WhyValue::ObjectValue))
-                                        ));
-                                        // skip over value
-                                        skip_over_value(&mut pos, input).map_err(|e| {
-                                            JsonParseErrorWithContext::new(
-                                                e,
-                                                input,
-                                                pos,
-                                                wip.path(),
-                                            )
-                                        })?;
-                                        trace!(
-                                            "immediately after skip over value, we're at pos {}, char is {}",
-                                            pos,
-                                            input.get(pos).copied().unwrap_or(b'$') as char
-                                        );
-                                    }
-                                } else {
-                                    trace!(
-                                        "Getting field {}, not in a Struct, but in a... {}",
-                                        value.blue(),
-                                        wip.shape()
-                                    );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
-                                }
-                            }
+                        // skip the string parse impl
+                        if wip.current_is_type::<String>() {
+                            wip = step!(wip.put::<String>(value.into_owned()));
+                        } else {
+                            let path = wip.path();
+                            wip = step!(wip.parse(&value), path);
                         }
+                        finished_value = Some(why);
                     }
-                    b'0'..=b'9' | b'-' => {
+                    (b'0'..=b'9' | b'-', _) => {
                         let number = match scan_number(input, &mut pos) {
                             Ok(number) => number,
                             Err(e) => bail!(e),
                         };
                         trace!("Parsed {:?}", number.yellow());
 
-                        let shape = wip.shape();
-                        // A number with a fraction or an exponent can still be an integer
                         let float = number.parse::<f64>().unwrap_or(f64::NAN);
-                        let integer = if number == "-0" {
-                            Cow::Borrowed("0")
-                        } else if !number.contains(['.', 'e', 'E']) {
-                            Cow::Borrowed(number)
-                        } else if float % 1.0 == 0.0 {
-                            Cow::Owned(float.to_string())
-                        } else {
-                            Cow::Borrowed("not an integer")
-                        };
+                        let integer = to_integer(number);
 
                         macro_rules! put_number {
                             ($text:expr => $($ty:ty)*) => {
                                 $(if shape.is_type::<$ty>() {
                                     match $text.parse::<$ty>() {
                                         Ok(value) => {
-                                            wip = wip.put::<$ty>(value).unwrap();
+                                            wip = step!(wip.put::<$ty>(value));
                                             true
                                         }
                                         Err(_) => bail!(JsonErrorKind::NumberOutOfRange(float)),
@@ -356,7 +362,7 @@ pub fn from_slice_wip<'input, 'a>(
                         let done = if shape.is_type::<f32>() {
                             match number.parse::<f32>() {
                                 Ok(value) if value.is_finite() => {
-                                    wip = wip.put(value).unwrap();
+                                    wip = step!(wip.put(value));
                                     true
                                 }
                                 _ => bail!(JsonErrorKind::NumberOutOfRange(float)),
@@ -365,7 +371,7 @@ pub fn from_slice_wip<'input, 'a>(
                             if !float.is_finite() {
                                 bail!(JsonErrorKind::NumberOutOfRange(float));
                             }
-                            wip = wip.put(float).unwrap();
+                            wip = step!(wip.put(float));
                             true
                         } else {
                             put_number!(integer =>
@@ -390,218 +396,137 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                         finished_value = Some(why);
                     }
-                    b't' | b'f' => {
+                    (b't' | b'f', _) if shape.is_type::<bool>() => {
                         // Boolean: true or false
-                        if input[pos..].starts_with(b"true") {
-                            pos += 4;
-                            let shape = wip.shape();
-                            match shape.def {
-                                Def::Scalar(sd) => match sd.affinity {
-                                    ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
-                                    }
-                                    _ => {
-                                        bail!(JsonErrorKind::UnexpectedCharacter('t'));
-                                    }
-                                },
-                                _ => {
-                                    bail!(JsonErrorKind::UnexpectedCharacter('t'));
-                                }
-                            }
-                            finished_value = Some(why);
-                        } else if input[pos..].starts_with(b"false") {
-                            pos += 5;
-                            let shape = wip.shape();
-                            match shape.def {
-                                Def::Scalar(sd) => match sd.affinity {
-                                    ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
-                                    }
-                                    _ => {
-                                        bail!(JsonErrorKind::UnexpectedCharacter('f'));
-                                    }
-                                },
-                                _ => {
-                                    bail!(JsonErrorKind::UnexpectedCharacter('f'));
-                                }
-                            }
-                            finished_value = Some(why);
-                        } else {
-                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));
-                        }
-                    }
-                    b'n' => {
-                        // wow it's a null — probably
-                        let slice_rest = &input[pos..];
-                        if slice_rest.starts_with(b"null") {
-                            pos += 4;
-
-                            // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
-                            finished_value = Some(why);
-                        } else {
-                            bail!(JsonErrorKind::UnexpectedCharacter('n'));
+                        let value = c == b't';
+                        let literal = if value { "true" } else { "false" };
+                        if let Err(e) = scan_literal(input, &mut pos, literal) {
+                            bail!(e);
                         }
+                        wip = step!(wip.put::<bool>(value));
+                        finished_value = Some(why);
                     }
-                    c => {
+                    (c, _) => {
                         bail!(JsonErrorKind::UnexpectedCharacter(c as char));
                     }
                 }
             }
-            Expect::Separator(separator) => match separator {
-                Separator::Colon => match c {
-                    b':' => {
+            Expect::Separator(separator) => {
+                let Some(c) = input.get(pos).copied() else {
+                    bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+                };
+                match (separator, c) {
+                    (Separator::Colon, b':') => {
                         pos += 1;
                     }
-                    _ => {
-                        bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                    (Separator::Comma(WhyComma::Array), b',') => {
+                        pos += 1;
+                        stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
+                        stack.push(Expect::Value(WhyValue::ArrayElement));
+                        wip = step!(wip.push());
                     }
-                },
-                Separator::Comma(why) => match c {
-                    b',' => {
+                    (Separator::Comma(WhyComma::Object), b',') => {
                         pos += 1;
-                        match why {
-                            WhyComma::Array => {
-                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
-                                stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
-                            }
-                            WhyComma::Object => {
-                                // looks like we're in for another round of object parsing
-                                stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));
-                                stack.push(Expect::Value(WhyValue::ObjectValue));
-                                stack.push(Expect::Separator(Separator::Colon));
-                                stack.push(Expect::Value(WhyValue::ObjectKey));
-                            }
-                        }
+                        // looks like we're in for another round of object parsing
+                        stack.push(Expect::Separator(Separator::Comma(WhyComma::Object)));
+                        stack.push(Expect::Value(WhyValue::ObjectValue));
+                        stack.push(Expect::Separator(Separator::Colon));
+                        stack.push(Expect::Value(WhyValue::ObjectKey));
                     }
-                    b'}' => match why {
-                        WhyComma::Object => {
-                            pos += 1;
-                            finished_value = Some(WhyValue::ObjectValue);
-                        }
-                        _ => {
-                            bail!(JsonErrorKind::UnexpectedCharacter(c as char));
-                        }
-                    },
-                    b']' => {
+                    (Separator::Comma(WhyComma::Array), b']') => {
+                        // we finished the array, neat
                         pos += 1;
-                        match why {
-                            WhyComma::Array => {
-                                // we finished the array, neat
-                                if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
-                                }
-                            }
-                            _ => {
-                                bail!(JsonErrorKind::UnexpectedCharacter(c as char));
-                            }
-                        }
+                        depth -= 1;
+                        finished_value = Some(WhyValue::ArrayElement);
+                    }
+                    (Separator::Comma(WhyComma::Object), b'}') => {
+                        pos += 1;
+                        depth -= 1;
+                        finished_value = Some(WhyValue::ObjectValue);
                     }
                     _ => {
                         bail!(JsonErrorKind::UnexpectedCharacter(c as char));
                     }
-                },
-            },
+                }
+            }
         }
 
         if let Some(why) = finished_value {
             trace!("Just finished value because of {:?}", why.green());
-            match why {
-                WhyValue::ObjectKey => {}
-                WhyValue::TopLevel | WhyValue::ObjectValue | WhyValue::ArrayElement => {
-                    trace!("Shape before popping: {}", wip.shape());
-
-                    let struct_has_default = wip
-                        .shape()
-                        .attributes
-                        .iter()
-                        .any(|attr| matches!(attr, ShapeAttribute::Default));
-                    let mut has_missing_fields = false;
-
-                    // Ensure all struct fields are set before popping
-                    if let Def::Struct(sd) = wip.shape().def {
-                        for i in 0..sd.fields.len() {
-                            if !wip.is_field_set(i).unwrap() {
-                                let missing_field: &'static str = sd.fields[i].name;
-                                if struct_has_default {
-                                    has_missing_fields = true;
-                                } else {
-                                    let field = sd.fields[i];
-                                    if let Some(attr) =
-                                        field.attributes.iter().find_map(|attr| match attr {
-                                            FieldAttribute::Default(d) => Some(d),
-                                            _ => None,
-                                        })
-                                    {
-                                        match attr {
-                                            Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                            None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
-                                            }
-                                        }
-                                    } else {
-                                        bail!(JsonErrorKind::MissingField(missing_field));
-                                    }
-                                }
-                            }
-                        }
+            trace!("Shape before popping: {}", wip.shape());
+
+            // Ensure all struct fields are set before popping
+            let shape = wip.shape();
+            if let Def::Struct(sd) = shape.def {
+                let struct_has_default = shape
+                    .attributes
+                    .iter()
+                    .any(|attr| matches!(attr, ShapeAttribute::Default));
+                let mut has_missing_fields = false;
+
+                for (i, field) in sd.fields.iter().enumerate() {
+                    if step!(wip.is_field_set(i)) {
+                        continue;
                     }
-
-                    if has_missing_fields {
-                        trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                    if struct_has_default {
+                        has_missing_fields = true;
+                        continue;
                     }
+                    let default = field.attributes.iter().find_map(|attr| match attr {
+                        FieldAttribute::Default(d) => Some(*d),
+                        _ => None,
+                    });
+                    let Some(default) = default else {
+                        bail!(JsonErrorKind::MissingField(field.name));
+                    };
+                    let path = wip.path();
+                    let field_wip = step!(wip.field(i));
+                    wip = step!(
+                        match default {
+                            Some(fun) => field_wip.put_from_fn(fun),
+                            None => field_wip.put_default(),
+                        }
+                        .and_then(Wip::pop),
+                        path
+                    );
+                }
 
-                    if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
-                    } else {
-                        wip = wip.pop().unwrap();
-                    }
+                if has_missing_fields {
+                    trace!("struct has missing fields but we have default");
+                    let path = wip.path();
+                    wip = step!(wip.put_default_in_unset_fields(), path);
                 }
             }
+
+            // the outermost value stays where it is
+            if wip.frames_count() > 1 {
+                wip = step!(wip.pop());
+            }
+        }
+    }
+}
+
+/// How many objects and arrays can be nested in what's being deserialized: there is no limit to
+/// how deep we can read, but there is to how deep a value can be before dropping it overflows
+/// the stack.
+const MAX_DEPTH: usize = 128;
+
+fn skip_whitespace(input: &[u8], pos: &mut usize) {
+    while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos) {
+        *pos += 1;
+    }
+}
+
+/// Reads `true`, `false` or `null`
+fn scan_literal(input: &[u8], pos: &mut usize, literal: &str) -> Result<(), JsonErrorKind> {
+    for expected in literal.bytes() {
+        match input.get(*pos).copied() {
+            Some(c) if c == expected => *pos += 1,
+            Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => return Err(JsonErrorKind::UnexpectedEof("in a literal")),
         }
     }
+    Ok(())
 }
 
 /// Reads the rest of a string, whose opening quote is just before `pos`, closing quote included.
@@ -754,129 +679,128 @@ fn scan_number<'input>(input: &'input [u8], pos: &mut usize) -> Result<&'input s
 }
 
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
-    let bytes = input;
-
-    // Helper for skipping whitespace
-    let skip_whitespace = |pos: &mut usize| {
-        while *pos < bytes.len() {
-            match bytes[*pos] {
-                b' ' | b'\t' | b'\n' | b'\r' => *pos += 1,
-                _ => break,
-            }
-        }
-    };
-
-    skip_whitespace(pos);
-
-    if *pos >= bytes.len() {
-        return Err(JsonErrorKind::UnexpectedEof(
-            "while skipping over value: input ended unexpectedly at root",
-        ));
-    }
+    // The objects and arrays we're in, by what closes them
+    let mut open: Vec<u8> = Vec::new();
 
-    match bytes[*pos] {
-        b'{' => {
-            // Skip a full object, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b'}' {
-                *pos += 1;
-                return Ok(());
-            }
-            loop {
-                // Skip key
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                // Expect colon between key and value
-                if *pos >= bytes.len() || bytes[*pos] != b':' {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object key with no colon or input ended",
-                    ));
-                }
+    loop {
+        // One value, or the start of one
+        skip_whitespace(input, pos);
+        let Some(c) = input.get(*pos).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof(
+                "while skipping over value: input ended unexpectedly",
+            ));
+        };
+        match c {
+            b'{' | b'[' => {
+                let end = if c == b'{' { b'}' } else { b']' };
                 *pos += 1;
-                skip_whitespace(pos);
-                // Skip value
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object value with EOF after",
-                    ));
-                }
-                if bytes[*pos] == b'}' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
+                skip_whitespace(input, pos);
+                if input.get(*pos) == Some(&end) {
                     *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
                 } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+                    open.push(end);
+                    if end == b'}' {
+                        skip_over_key(pos, input)?;
+                    }
+                    continue;
                 }
             }
-        }
-        b'[' => {
-            // Skip a full array, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b']' {
+            b'"' => {
                 *pos += 1;
-                return Ok(());
+                scan_string(input, pos)?;
             }
-            loop {
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: EOF inside array",
-                    ));
-                }
-                if bytes[*pos] == b']' {
+            b't' => scan_literal(input, pos, "true")?,
+            b'f' => scan_literal(input, pos, "false")?,
+            b'n' => scan_literal(input, pos, "null")?,
+            b'-' | b'0'..=b'9' => {
+                scan_number(input, pos)?;
+            }
+            _ => {
+                return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+            }
+        }
+
+        // What comes after it
+        loop {
+            let Some(end) = open.last().copied() else {
+                return Ok(());
+            };
+            skip_whitespace(input, pos);
+            match input.get(*pos).copied() {
+                Some(b',') => {
                     *pos += 1;
+                    if end == b'}' {
+                        skip_over_key(pos, input)?;
+                    }
                     break;
-                } else if bytes[*pos] == b',' {
+                }
+                Some(c) if c == end => {
                     *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
-                } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+                    open.pop();
+                }
+                Some(c) => {
+                    return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
+                None => {
+                    return Err(JsonErrorKind::UnexpectedEof(
+                        "while skipping over value: EOF inside object or array",
+                    ));
                 }
             }
         }
-        b'"' => {
-            // Skip a string, with escape processing
-            *pos += 1;
-            scan_string(input, pos)?;
-        }
-        b't' => {
-            // Expect "true"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"true" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('t'));
-            }
-        }
-        b'f' => {
-            // Expect "false"
-            if bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b"false" {
-                *pos += 5;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('f'));
-            }
-        }
-        b'n' => {
-            // Expect "null"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"null" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('n'));
+    }
+}
+
+/// A number with a fraction or an exponent can still be an integer: this one's digits, if that's
+/// what it is. Anything that isn't an integer is left for the integer's own parser to refuse.
+fn to_integer(number: &str) -> Cow<'_, str> {
+    let (mantissa, exponent) = number.split_once(['e', 'E']).unwrap_or((number, "0"));
+    let (sign, mantissa) = match mantissa.strip_prefix('-') {
+        Some(mantissa) => ("-", mantissa),
+        None => ("", mantissa),
+    };
+    let (int, frac) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    if int.bytes().chain(frac.bytes()).all(|c| c == b'0') {
+        return Cow::Borrowed("0");
+    }
+    let exponent = match exponent.parse::<i64>() {
+        Ok(0) if frac.is_empty() => return Cow::Borrowed(number),
+        Ok(exponent) => exponent,
+        Err(_) => return Cow::Borrowed(number),
+    };
+
+    // How many digits there are before the decimal point: no integer type has more than 64
+    let int_len = exponent.saturating_add(int.len() as i64);
+    if !(1..=64).contains(&int_len) {
+        return Cow::Borrowed(number);
+    }
+    let int_len = sign.len() + int_len as usize;
+    let digits = [sign, int, frac].concat();
+    if digits.len() <= int_len {
+        return Cow::Owned(format!("{digits:0<int_len$}"));
+    }
+    let (int, frac) = digits.split_at(int_len);
+    if frac.bytes().any(|c| c != b'0') {
+        return Cow::Borrowed(number);
+    }
+    Cow::Owned(int.to_string())
+}
+
+/// Skips an object's key, and the colon after it
+fn skip_over_key(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    for expected in [b'"', b':'] {
+        skip_whitespace(input, pos);
+        match input.get(*pos).copied() {
+            Some(c) if c == expected => *pos += 1,
+            Some(c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => {
+                return Err(JsonErrorKind::UnexpectedEof(
+                    "while skipping over value: object key with no colon or input ended",
+                ));
             }
         }
-        b'-' | b'0'..=b'9' => {
-            scan_number(input, pos)?;
-        }
-        _ => {
-            return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+        if expected == b'"' {
+            scan_string(input, pos)?;
         }
     }
     Ok(())
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..0ac6158 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -2,6 +2,7 @@
 use alloc::format;
 #[cfg(feature = "alloc")]
 use alloc::string::String;
+use facet_reflect::ReflectError;
 
 #[cfg(feature = "rich-diagnostics")]
 use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
@@ -44,7 +45,10 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::NumberOutOfRange(n) => format!("Number out of range: {}", n),
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
+            JsonErrorKind::DuplicateField(f) => format!("Duplicate field: {}", f),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
+            JsonErrorKind::TooDeep => String::from("Objects and arrays are nested too deep"),
+            JsonErrorKind::ReflectError(e) => format!("{}", e),
         }
     }
 }
@@ -64,8 +68,14 @@ pub enum JsonErrorKind {
     StringAsNumber(String),
     /// An unexpected field name was encountered in the input.
     UnknownField(String),
+    /// A field was given more than once.
+    DuplicateField(String),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
+    /// Objects and arrays are nested too deep.
+    TooDeep,
+    /// The value that was read doesn't fit what's being deserialized.
+    ReflectError(ReflectError),
 }
 
 #[cfg(not(feature = "rich-diagnostics"))]
@@ -91,8 +101,12 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
         let source_id = "json";
 
         let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
+            JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
+            JsonErrorKind::UnknownField(f) | JsonErrorKind::DuplicateField(f) => {
+                // a name with escape sequences takes more room in the input
+                let span_end = self.pos.saturating_sub(1);
+                (span_end.saturating_sub(f.len()), span_end)
+            }
             _ => {
                 let span_end = if self.pos < self.input.len() {
                     self.pos + 1
@@ -103,6 +117,10 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
             }
         };
 
+        // We're counting bytes: don't point in the middle of a character
+        let span_start = floor_char_boundary(input_str, span_start);
+        let span_end = floor_char_boundary(input_str, span_end).max(span_start);
+
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
             .with_config(Config::new().with_index_type(IndexType::Byte));
@@ -130,6 +148,15 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
     }
 }
 
+#[cfg(feature = "rich-diagnostics")]
+fn floor_char_boundary(s: &str, mut index: usize) -> usize {
+    index = index.min(s.len());
+    while !s.is_char_boundary(index) {
+        index -= 1;
+    }
+    index
+}
+
 impl core::fmt::Debug for JsonParseErrorWithContext<'_> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         core::fmt::Display::fmt(self, f)
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 97ef985..ec073d3 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1010,6 +1010,50 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
+    /// Fills the fields of the current struct that aren't set with those of the struct's
+    /// default value.
+    pub fn put_default_in_unset_fields(mut self) -> Result<Self, ReflectError> {
+        let frame = self.current("tried to put default fields but there was no frame")?;
+        let shape = frame.shape;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+
+        // That one cleans up whatever isn't moved out of it
+        let mut default = Wip::alloc_shape(shape).put_default()?;
+
+        for (i, field) in sd.fields.iter().enumerate() {
+            let (Some(frame), Some(default_frame)) =
+                (self.frames.last_mut(), default.frames.last_mut())
+            else {
+                unreachable!("we just had a frame");
+            };
+            if frame.istate.fields.has(i) {
+                continue;
+            }
+            let field_shape = field.shape();
+            let dst = unsafe { frame.data.field_uninit_at(field.offset) };
+            let src = unsafe { default_frame.data.field_init_at(field.offset) };
+
+            // drop what's partially initialized
+            let id = ValueId::new(field_shape, dst.as_byte_ptr());
+            if let Some(istate) = self.istates.remove(&id) {
+                self.deinit(&mut Frame::recompose(id, istate));
+            }
+
+            default_frame.istate.fields.unset(i);
+            unsafe { dst.copy_from(src.as_const(), field_shape) };
+            if let Some(frame) = self.frames.last_mut() {
+                frame.istate.fields.set(i);
+            }
+        }
+
+        Ok(self)
+    }
+
     /// Checks that the current frame exists and can receive a value as a whole, before
     /// anything is modified.
     fn check_can_initialize(&self, no_frame: &'static str) -> Result<(), ReflectError> {
-- 
2.43.0


From 44901a622e1ef073ca44950f6032a4a59a484e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 27/45] fix: json writer: keys of any type are escaped strings,
 non-finite floats are null, tuple variants are arrays

---
 facet-json/src/serialize.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..c2d1e74 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,6 @@
+use core::fmt;
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -128,10 +129,10 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        write_float(writer, value, value.is_finite())
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        write_float(writer, value, value.is_finite())
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -228,7 +229,10 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    let mut key_str = String::new();
+                    fmt::Write::write_fmt(&mut key_str, format_args!("{}", key))
+                        .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+                    write_json_string(writer, &key_str)?;
                 }
             }
             _ => {
@@ -277,13 +281,7 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
             serialize(&field, writer)?;
         } else {
             // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
-            if is_struct {
+            if variant.data.kind == StructKind::Struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
 
@@ -353,6 +351,15 @@ fn serialize_option<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// Writes a float: there's no way to write those that aren't finite as JSON numbers
+fn write_float<W: Write>(writer: &mut W, value: &dyn fmt::Display, finite: bool) -> io::Result<()> {
+    if finite {
+        write!(writer, "{}", value)
+    } else {
+        write!(writer, "null")
+    }
+}
+
 /// Properly escapes and writes a JSON string
 fn write_json_string<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
     write!(writer, "\"")?;
-- 
2.43.0


From 94f16dcc52cfa0cf13f4f7af7a53d0364c71ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 28/45] fix: msgpack: bounds checks, every integer encoding,
 nested values of any kind skipped, repeated fields and trailing bytes
 refused, bools written

---
 facet-msgpack/src/errors.rs       |   3 +
 facet-msgpack/src/from_msgpack.rs | 343 ++++++++++++------------------
 facet-msgpack/src/to_msgpack.rs   |   5 +
 3 files changed, 148 insertions(+), 203 deletions(-)

diff --git a/facet-msgpack/src/errors.rs b/facet-msgpack/src/errors.rs
index ef7ec0e..59e013a 100644
--- a/facet-msgpack/src/errors.rs
+++ b/facet-msgpack/src/errors.rs
@@ -14,6 +14,8 @@ pub enum Error {
     UnknownField(String),
     /// Required field is missing from the input
     MissingField(String),
+    /// Field was given more than once in the input
+    DuplicateField(String),
     /// Integer value is too large for the target type
     IntegerOverflow,
     /// Shape is not supported for deserialization
@@ -30,6 +32,7 @@ impl fmt::Display for Error {
             Error::InvalidData => write!(f, "Invalid MessagePack data"),
             Error::UnknownField(field) => write!(f, "Unknown field: {}", field),
             Error::MissingField(field) => write!(f, "Missing required field: {}", field),
+            Error::DuplicateField(field) => write!(f, "Duplicate field: {}", field),
             Error::IntegerOverflow => write!(f, "Integer value too large for target type"),
             Error::UnsupportedShape(shape) => {
                 write!(f, "Unsupported shape for deserialization: {}", shape)
diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..df31d6a 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -2,7 +2,7 @@ use crate::constants::*;
 use crate::errors::Error as DecodeError;
 
 use facet_core::{Def, Facet};
-use facet_reflect::{HeapValue, Wip};
+use facet_reflect::{HeapValue, ReflectError, Wip};
 use log::trace;
 
 /// Deserializes MessagePack-encoded data into a type that implements `Facet`.
@@ -85,10 +85,20 @@ pub fn from_slice_value<'mem>(
     msgpack: &'mem [u8],
 ) -> Result<HeapValue<'mem>, DecodeError> {
     let mut decoder = Decoder::new(msgpack);
-    decoder
-        .deserialize_value(wip)?
-        .build()
-        .map_err(|e| DecodeError::UnsupportedType(e.to_string()))
+    let wip = decoder.deserialize_value(wip)?;
+    if decoder.offset != decoder.input.len() {
+        // there's something after the value
+        return Err(DecodeError::InvalidData);
+    }
+    wip.build().map_err(reflect_error)
+}
+
+fn reflect_error(e: ReflectError) -> DecodeError {
+    DecodeError::UnsupportedType(e.to_string())
+}
+
+fn put<'mem, T: Facet + 'mem>(wip: Wip<'mem>, value: T) -> Result<Wip<'mem>, DecodeError> {
+    wip.put(value).map_err(reflect_error)
 }
 
 struct Decoder<'input> {
@@ -112,57 +122,67 @@ impl<'input> Decoder<'input> {
         Ok(value)
     }
 
-    /// Decodes a 16-bit unsigned integer in big-endian byte order.
+    /// Takes a given number of bytes from the input.
     /// This is a low-level method used by other decoders.
-    fn decode_u16(&mut self) -> Result<u16, DecodeError> {
-        if self.offset + 2 > self.input.len() {
+    fn decode_bytes(&mut self, len: usize) -> Result<&'input [u8], DecodeError> {
+        let rest = &self.input[self.offset..];
+        if len > rest.len() {
             return Err(DecodeError::InsufficientData);
         }
-        let value =
-            u16::from_be_bytes(self.input[self.offset..self.offset + 2].try_into().unwrap());
-        self.offset += 2;
-        Ok(value)
+        self.offset += len;
+        Ok(&rest[..len])
+    }
+
+    /// Decodes a 16-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_u16(&mut self) -> Result<u16, DecodeError> {
+        let bytes = self.decode_bytes(2)?;
+        Ok(u16::from_be_bytes(bytes.try_into().unwrap()))
     }
 
     /// Decodes a 32-bit unsigned integer in big-endian byte order.
     /// This is a low-level method used by other decoders.
     fn decode_u32(&mut self) -> Result<u32, DecodeError> {
-        if self.offset + 4 > self.input.len() {
-            return Err(DecodeError::InsufficientData);
-        }
-        let value =
-            u32::from_be_bytes(self.input[self.offset..self.offset + 4].try_into().unwrap());
-        self.offset += 4;
-        Ok(value)
+        let bytes = self.decode_bytes(4)?;
+        Ok(u32::from_be_bytes(bytes.try_into().unwrap()))
     }
 
-    /// Decodes a MessagePack-encoded unsigned 64-bit integer.
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
+        let bytes = self.decode_bytes(8)?;
+        Ok(u64::from_be_bytes(bytes.try_into().unwrap()))
+    }
+
+    /// Decodes a MessagePack-encoded integer, into any integer type it fits in.
     /// Handles the following MessagePack types:
     /// - positive fixint (0x00 - 0x7f): single-byte positive integer
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
     /// - uint8 (0xcc): 8-bit unsigned integer
     /// - uint16 (0xcd): 16-bit unsigned integer (big-endian)
     /// - uint32 (0xce): 32-bit unsigned integer (big-endian)
     /// - uint64 (0xcf): 64-bit unsigned integer (big-endian)
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
     ///
     /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
-    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
-        match self.decode_u8()? {
-            MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
-            MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
-            MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
-            }
-            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
-            _ => Err(DecodeError::UnexpectedType),
-        }
+    fn decode_int<T: TryFrom<i128>>(&mut self) -> Result<T, DecodeError> {
+        let value = match self.decode_u8()? {
+            MSGPACK_UINT8 => self.decode_u8()? as i128,
+            MSGPACK_UINT16 => self.decode_u16()? as i128,
+            MSGPACK_UINT32 => self.decode_u32()? as i128,
+            MSGPACK_UINT64 => self.decode_u64()? as i128,
+            MSGPACK_INT8 => self.decode_u8()? as i8 as i128,
+            MSGPACK_INT16 => self.decode_u16()? as i16 as i128,
+            MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
+            MSGPACK_INT64 => self.decode_u64()? as i64 as i128,
+            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
+            prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => prefix as i8 as i128,
+            _ => return Err(DecodeError::UnexpectedType),
+        };
+        T::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
     }
 
     /// Decodes a MessagePack-encoded string.
@@ -184,14 +204,7 @@ impl<'input> Decoder<'input> {
             _ => return Err(DecodeError::UnexpectedType),
         };
 
-        if self.offset + len > self.input.len() {
-            return Err(DecodeError::InsufficientData);
-        }
-
-        let value = String::from_utf8(self.input[self.offset..self.offset + len].to_vec())
-            .map_err(|_| DecodeError::InvalidData)?;
-        self.offset += len;
-        Ok(value)
+        String::from_utf8(self.decode_bytes(len)?.to_vec()).map_err(|_| DecodeError::InvalidData)
     }
 
     /// Decodes a MessagePack-encoded map length.
@@ -271,132 +284,61 @@ impl<'input> Decoder<'input> {
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
-        let prefix = self.decode_u8()?;
-
-        match prefix {
-            // String formats
-            prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
-                let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR8 => {
-                let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR16 => {
-                let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR32 => {
-                let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-
-            // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-            MSGPACK_MAP32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
-            }
-
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-            MSGPACK_ARRAY32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
-            }
-
-            _ => Err(DecodeError::UnexpectedType),
+        // How many values are left to skip, counting those in the maps and arrays we've entered
+        let mut remaining: u64 = 1;
+
+        while remaining > 0 {
+            remaining -= 1;
+
+            // What's after the prefix: a number of bytes, then a number of values
+            let (len, values) = match self.decode_u8()? {
+                // String formats
+                prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => ((prefix & 0x1f) as usize, 0),
+
+                // String and binary formats
+                MSGPACK_STR8 | MSGPACK_BIN8 => (self.decode_u8()? as usize, 0),
+                MSGPACK_STR16 | MSGPACK_BIN16 => (self.decode_u16()? as usize, 0),
+                MSGPACK_STR32 | MSGPACK_BIN32 => (self.decode_u32()? as usize, 0),
+
+                // Integer and float formats
+                MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => (0, 0),
+                prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => (0, 0),
+                MSGPACK_UINT8 | MSGPACK_INT8 => (1, 0),
+                MSGPACK_UINT16 | MSGPACK_INT16 => (2, 0),
+                MSGPACK_UINT32 | MSGPACK_INT32 | MSGPACK_FLOAT32 => (4, 0),
+                MSGPACK_UINT64 | MSGPACK_INT64 | MSGPACK_FLOAT64 => (8, 0),
+
+                // Boolean and nil
+                MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => (0, 0),
+
+                // Extension formats (there's a type before the data)
+                MSGPACK_FIXEXT1 => (1 + 1, 0),
+                MSGPACK_FIXEXT2 => (1 + 2, 0),
+                MSGPACK_FIXEXT4 => (1 + 4, 0),
+                MSGPACK_FIXEXT8 => (1 + 8, 0),
+                MSGPACK_FIXEXT16 => (1 + 16, 0),
+                MSGPACK_EXT8 => (1 + self.decode_u8()? as usize, 0),
+                MSGPACK_EXT16 => (1 + self.decode_u16()? as usize, 0),
+                MSGPACK_EXT32 => ((self.decode_u32()? as usize).saturating_add(1), 0),
+
+                // Map format: keys and values
+                prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => (0, 2 * (prefix & 0x0f) as u64),
+                MSGPACK_MAP16 => (0, 2 * self.decode_u16()? as u64),
+                MSGPACK_MAP32 => (0, 2 * self.decode_u32()? as u64),
+
+                // Array format
+                prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => (0, (prefix & 0x0f) as u64),
+                MSGPACK_ARRAY16 => (0, self.decode_u16()? as u64),
+                MSGPACK_ARRAY32 => (0, self.decode_u32()? as u64),
+
+                _ => return Err(DecodeError::InvalidData),
+            };
+
+            self.decode_bytes(len)?;
+            remaining = remaining.saturating_add(values);
         }
+
+        Ok(())
     }
 
     fn deserialize_value(&mut self, wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
@@ -408,44 +350,34 @@ impl<'input> Decoder<'input> {
                 trace!("Deserializing scalar");
                 if shape.is_type::<String>() {
                     let s = self.decode_string()?;
-                    wip.put(s).unwrap()
+                    put(wip, s)?
                 } else if shape.is_type::<u64>() {
-                    let n = self.decode_u64()?;
-                    wip.put(n).unwrap()
+                    let n = self.decode_int::<u64>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<u32>() {
-                    let n = self.decode_u64()?;
-                    if n > u32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u32).unwrap()
+                    let n = self.decode_int::<u32>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<u16>() {
-                    let n = self.decode_u64()?;
-                    if n > u16::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u16).unwrap()
+                    let n = self.decode_int::<u16>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<u8>() {
-                    let n = self.decode_u64()?;
-                    if n > u8::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u8).unwrap()
+                    let n = self.decode_int::<u8>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_int::<i64>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n = self.decode_int::<i32>()?;
+                    put(wip, n)?
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_int::<i16>()?;
+                    put(wip, n)?
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_int::<i8>()?;
+                    put(wip, n)?
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
-                    wip.put(b).unwrap()
+                    put(wip, b)?
                 } else {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
                 }
@@ -459,10 +391,15 @@ impl<'input> Decoder<'input> {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
+                            if wip.is_field_set(index).map_err(reflect_error)? {
+                                // given more than once
+                                return Err(DecodeError::DuplicateField(key));
+                            }
+                            let field = wip.field(index).map_err(reflect_error)?;
                             wip = self
-                                .deserialize_value(wip.field(index).unwrap())?
+                                .deserialize_value(field)?
                                 .pop()
-                                .unwrap();
+                                .map_err(reflect_error)?;
                         }
                         None => {
                             // Skip unknown field value
diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..b9bf773 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -1,3 +1,4 @@
+use crate::constants::*;
 use facet_core::{Def, Facet};
 
 use facet_reflect::Peek;
@@ -21,6 +22,10 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
             if pv.shape().is_type::<String>() {
                 let value = pv.get::<String>().unwrap();
                 write_str(writer, value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                let byte = if *value { MSGPACK_TRUE } else { MSGPACK_FALSE };
+                writer.write_all(&[byte])
             } else if pv.shape().is_type::<u64>() {
                 let value = pv.get::<u64>().unwrap();
                 write_u64(writer, *value)
-- 
2.43.0


From 56999236f91bfd3784c634e7c628e51d4594f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 29/45] fix: msgpack: a field given twice is refused even when
 the first one was incomplete

---
 facet-msgpack/src/from_msgpack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index df31d6a..d1072c9 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -382,17 +382,17 @@ impl<'input> Decoder<'input> {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
                 }
             }
-            Def::Struct(_) => {
+            Def::Struct(sd) => {
                 trace!("Deserializing struct");
                 let map_len = self.decode_map_len()?;
 
                 let mut wip = wip;
+                let mut given = vec![false; sd.fields.len()];
                 for _ in 0..map_len {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
-                            if wip.is_field_set(index).map_err(reflect_error)? {
-                                // given more than once
+                            if core::mem::replace(&mut given[index], true) {
                                 return Err(DecodeError::DuplicateField(key));
                             }
                             let field = wip.field(index).map_err(reflect_error)?;
-- 
2.43.0


From 2c92efe64879235050bef3521b84fa8a0b1bc415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 30/45] fix: facet-toml: finish options before going on with
 their parent

Reading a present or a missing option left a frame open, so that the rest of
the document was read into the wrong place.
---
 facet-toml/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..8431d1e 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -99,6 +99,7 @@ fn deserialize_as_struct<'a>(
                     wip = wip
                         .pop_some_push_none()
                         .map_err(|e| AnyErr(e.to_string()))?;
+                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -366,6 +367,9 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    // Finish the inner value
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From 0d5c77fcf97a8dc52faad1e5834d4bd399305383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 31/45] fix: facet-toml: enum variants take exactly their own
 data

A string naming a variant with data gave it its own name as data; a plain
value for a variant with several fields was read into each of them, one
frame deeper every time. Arrays of tables and smart pointers, which cannot
be read, panicked instead of giving an error.
---
 facet-toml/src/lib.rs | 56 +++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 8431d1e..b032b9b 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -117,7 +117,7 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => return Err("Expected an enum variant, got nothing".into()),
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -156,7 +156,11 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            let wip = build_unit_enum_from_variant_name(wip, variant_name)?;
+
+            trace!("Finished deserializing {}", "enum".blue());
+
+            return Ok(wip);
         }
 
         Item::Table(table) => {
@@ -178,7 +182,12 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_) => {
+            return Err(AnyErr(format!(
+                "Expected a table to parse into enum variant, got {}",
+                item.type_name()
+            )));
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -186,6 +195,21 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     Ok(wip)
 }
 
+/// A plain string names a variant without data.
+fn build_unit_enum_from_variant_name<'a>(
+    wip: Wip<'a>,
+    variant_name: &str,
+) -> Result<Wip<'a>, AnyErr> {
+    let wip = wip
+        .variant_named(variant_name)
+        .map_err(|e| AnyErr(e.to_string()))?;
+
+    match wip.selected_variant() {
+        Some(variant) if variant.data.kind == StructKind::Unit => Ok(wip),
+        _ => Err(format!("Variant '{variant_name}' needs data, got only its name").into()),
+    }
+}
+
 fn build_enum_from_variant_name<'a>(
     mut wip: Wip<'a>,
     variant_name: &str,
@@ -203,6 +227,15 @@ fn build_enum_from_variant_name<'a>(
         return Ok(wip);
     }
 
+    // A value that stands for all of the variant's data can only fill a single field
+    if !item.is_table_like() && variant.data.fields.len() != 1 {
+        return Err(format!(
+            "Expected table like structure for variant '{variant_name}', got {}",
+            item.type_name()
+        )
+        .into());
+    }
+
     // Push all fields
     for (index, field) in variant.data.fields.iter().enumerate() {
         wip = wip
@@ -226,13 +259,11 @@ fn build_enum_from_variant_name<'a>(
             };
 
             wip = deserialize_item(wip, field)?;
-
-            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
-        } else if item.is_value() {
-            wip = deserialize_item(wip, item)?;
         } else {
-            return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
+            wip = deserialize_item(wip, item)?;
         }
+
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
 
     Ok(wip)
@@ -375,12 +406,13 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
+fn deserialize_as_smartpointer<'a>(wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "smart pointer".blue());
 
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
+    Err(AnyErr(format!(
+        "Unsupported smart pointer: {}",
+        wip.shape()
+    )))
 }
 
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
-- 
2.43.0


From 066f755499ee9e1355a4db7ccf757664ba727f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 32/45] fix: facet-toml: read arrays of tables as lists

[[key]] sections are the other spelling of an array of inline tables.
---
 facet-toml/src/lib.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index b032b9b..1e1967f 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -10,7 +10,7 @@ use error::AnyErr;
 use facet_core::{Def, Facet, Struct, StructKind};
 use facet_reflect::{ScalarType, Wip};
 use log::trace;
-use toml_edit::{DocumentMut, Item, TomlError};
+use toml_edit::{DocumentMut, Item, TomlError, Value};
 use yansi::Paint as _;
 
 /// Deserializes a TOML string into a value of type `T` that implements `Facet`.
@@ -55,7 +55,7 @@ fn deserialize_as_struct<'a>(
     trace!("Deserializing {}", "struct".blue());
 
     // Parse as a the inner struct type if item is a single value and the struct is a unit struct
-    if item.is_value() && !item.is_inline_table() {
+    if !item.is_table_like() {
         // Only allow unit structs
         let shape = wip.shape();
         if let Def::Struct(def) = shape.def {
@@ -272,15 +272,20 @@ fn build_enum_from_variant_name<'a>(
 fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "list".blue());
 
-    // Get the TOML item as an array
-    let Some(item) = item.as_array() else {
-        return Err(AnyErr(format!(
-            "Item is not an array but a {}",
-            item.type_name()
-        )));
+    // Get the TOML items, from either an array or an array of tables
+    let items: Vec<Item> = match item {
+        // TODO: remove clone
+        Item::Value(Value::Array(array)) => array.iter().cloned().map(Item::Value).collect(),
+        Item::ArrayOfTables(array) => array.iter().cloned().map(Item::Table).collect(),
+        _ => {
+            return Err(AnyErr(format!(
+                "Item is not an array but a {}",
+                item.type_name()
+            )));
+        }
     };
 
-    if item.is_empty() {
+    if items.is_empty() {
         // Only put an empty list
         return wip
             .put_empty_list()
@@ -293,17 +298,13 @@ fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, Any
         .map_err(|e| format!("Can not start filling list: {e}"))?;
 
     // Loop over all items in the TOML list
-    for value in item.iter() {
+    for item in &items {
         // Start the field
         wip = wip
             .push()
             .map_err(|e| format!("Can not start field: {e}"))?;
 
-        wip = deserialize_item(
-            wip,
-            // TODO: remove clone
-            &Item::Value(value.clone()),
-        )?;
+        wip = deserialize_item(wip, item)?;
 
         // Finish the field
         wip = wip
-- 
2.43.0


From 5811bebfbcb0fbcd602cebf65dcc2838af11ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 33/45] fix: facet-toml: refuse numbers the target type cannot
 hold

A fractional float was cut off to an integer and a float beyond the range of
f32 became infinite.
---
 facet-toml/src/lib.rs       | 24 ++++++++++++------------
 facet-toml/src/to_scalar.rs | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 1e1967f..fa911b1 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -441,62 +441,62 @@ fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
         }
         ScalarType::F32 => {
             wip = wip
-                .put(to_scalar::number::<f32>(item)?)
+                .put(to_scalar::float::<f32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::F64 => {
             wip = wip
-                .put(to_scalar::number::<f64>(item)?)
+                .put(to_scalar::float::<f64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U8 => {
             wip = wip
-                .put(to_scalar::number::<u8>(item)?)
+                .put(to_scalar::integer::<u8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U16 => {
             wip = wip
-                .put(to_scalar::number::<u16>(item)?)
+                .put(to_scalar::integer::<u16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U32 => {
             wip = wip
-                .put(to_scalar::number::<u32>(item)?)
+                .put(to_scalar::integer::<u32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U64 => {
             wip = wip
-                .put(to_scalar::number::<u64>(item)?)
+                .put(to_scalar::integer::<u64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::USize => {
             wip = wip
-                .put(to_scalar::number::<usize>(item)?)
+                .put(to_scalar::integer::<usize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I8 => {
             wip = wip
-                .put(to_scalar::number::<i8>(item)?)
+                .put(to_scalar::integer::<i8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I16 => {
             wip = wip
-                .put(to_scalar::number::<i16>(item)?)
+                .put(to_scalar::integer::<i16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I32 => {
             wip = wip
-                .put(to_scalar::number::<i32>(item)?)
+                .put(to_scalar::integer::<i32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I64 => {
             wip = wip
-                .put(to_scalar::number::<i64>(item)?)
+                .put(to_scalar::integer::<i64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::ISize => {
             wip = wip
-                .put(to_scalar::number::<isize>(item)?)
+                .put(to_scalar::integer::<isize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         #[cfg(feature = "std")]
diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..eba7ddd 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -2,21 +2,36 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use num_traits::cast::NumCast;
+use num_traits::{cast::NumCast, float::FloatCore};
 use toml_edit::{Item, Value};
 
 use crate::AnyErr;
 
-/// Try to convert a TOML integer or float to a Rust number.
+/// Try to convert a TOML integer, or a float without a fractional part, to a Rust integer.
 ///
-/// Applies to all Rust scalars supported by the `num` crate.
-pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
-    let v = item
-        .as_value()
-        .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?;
+/// Applies to all Rust integers supported by the `num` crate.
+pub(crate) fn integer<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
+    let v = as_value(item)?;
+
+    match v {
+        Value::Float(r) => Ok(Some(*r.value())
+            .filter(|r| r.fract() == 0.0)
+            .and_then(T::from)
+            .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
+        Value::Integer(i) => Ok(T::from(*i.value())
+            .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
+        _ => Err(format!("Cannot convert {} to a number", v.type_name()).into()),
+    }
+}
+
+/// Try to convert a TOML integer or float to a Rust float.
+pub(crate) fn float<T: FloatCore>(item: &Item) -> Result<T, AnyErr> {
+    let v = as_value(item)?;
 
     match v {
+        // A finite number must not become infinite
         Value::Float(r) => Ok(T::from(*r.value())
+            .filter(|n| n.is_infinite() == r.value().is_infinite())
             .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
         Value::Integer(i) => Ok(T::from(*i.value())
             .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
@@ -24,6 +39,12 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     }
 }
 
+fn as_value(item: &Item) -> Result<&Value, AnyErr> {
+    Ok(item
+        .as_value()
+        .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?)
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From 100e6696f3bcac0290a7a636dd42281f8d00679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:42 +0000
Subject: [PATCH 34/45] fix: facet-yaml: refuse negative numbers for u64

They became huge positive ones.
---
 facet-yaml/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..c147404 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr("Failed to convert integer to u64".into()))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
-- 
2.43.0


From 1d0fb14f1880bc58cbab3894226aac5a8c3cdf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:49 +0000
Subject: [PATCH 35/45] fix: facet-yaml: give an error for types it cannot read

Lists, maps and enums panicked.
---
 facet-yaml/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index c147404..6b5fedc 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -94,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -115,7 +113,7 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
+        // Lists, maps and enums are not supported yet
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From d3da102d87ed132e84d3c66997fba1790bef6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 36/45] fix: facet-urlencoded: limit the nesting of keys

A key like a[a][a]... of some ten thousand levels overflowed the stack.
---
 facet-urlencoded/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..a61d7f0 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -73,6 +73,9 @@ pub fn from_str<T: Facet>(urlencoded: &str) -> Result<T, UrlEncodedError> {
     Ok(val.materialize::<T>()?)
 }
 
+/// How deeply the keys of form data may be nested.
+const MAX_NESTING: usize = 128;
+
 /// Deserializes a URL encoded form data string into an heap-allocated value.
 ///
 /// This is the lower-level function that works with `Wip` directly.
@@ -88,6 +91,12 @@ fn from_str_value<'mem>(
     // Process the input into a nested structure
     let mut nested_values = NestedValues::new();
     for (key, value) in pairs {
+        // Nested values are handled recursively
+        if key.matches('[').count() > MAX_NESTING {
+            return Err(UrlEncodedError::UnsupportedShape(format!(
+                "Key is nested more than {MAX_NESTING} levels deep"
+            )));
+        }
         nested_values.insert(&key, value.to_string());
     }
 
-- 
2.43.0


From 23fea71d89b3eb1434540603509c6762783f77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 37/45] fix: facet-urlencoded: process fields in a fixed order

The order came from a randomly seeded hash map, so which of several errors
was reported changed from run to run.
---
 facet-urlencoded/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index a61d7f0..98c59c9 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -120,16 +120,16 @@ fn initialize_nested_structures(nested: &mut NestedValues) {
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
-    flat: std::collections::HashMap<String, String>,
+    flat: std::collections::BTreeMap<String, String>,
     // Nested structures: key -> nested map
-    nested: std::collections::HashMap<String, NestedValues>,
+    nested: std::collections::BTreeMap<String, NestedValues>,
 }
 
 impl NestedValues {
     fn new() -> Self {
         Self {
-            flat: std::collections::HashMap::new(),
-            nested: std::collections::HashMap::new(),
+            flat: std::collections::BTreeMap::new(),
+            nested: std::collections::BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 1c33c2ea8da0cb9344bf2fc2f53c254419fb3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 38/45] fix: facet-args: give every positional argument its own
 field

All of them went to the first positional field, each replacing the one
before, and were dropped when there was none.
---
 facet-args/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..77ca090 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -63,16 +63,18 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 panic!("Expected struct definition");
             };
 
-            for (field_index, f) in sd.fields.iter().enumerate() {
-                if f.attributes
+            // The token goes to the first positional field that has no value yet
+            let Some(field_index) = sd.fields.iter().enumerate().position(|(field_index, f)| {
+                f.attributes
                     .iter()
                     .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-                {
-                    let field = wip.field(field_index).unwrap();
-                    wip = parse_field(field, token).unwrap();
-                    break;
-                }
-            }
+                    && !wip.is_field_set(field_index).unwrap()
+            }) else {
+                panic!("Unexpected positional argument: {}", token);
+            };
+
+            let field = wip.field(field_index).unwrap();
+            wip = parse_field(field, token).unwrap();
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From 2ff676511409a007367791c86d28dd5c84d6c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:48 +0000
Subject: [PATCH 39/45] fix: facet-args: refuse positional booleans that are
 neither true nor false

Anything but true was taken for false.
---
 facet-args/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index 77ca090..b5adb3a 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -14,8 +14,15 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
             if shape.is_type::<String>() {
                 wip.put(value.to_string())
             } else if shape.is_type::<bool>() {
-                log::trace!("Boolean field detected, setting to true");
-                wip.put(value.to_lowercase() == "true")
+                log::trace!("Boolean field detected");
+                match value.to_lowercase().as_str() {
+                    "true" => wip.put(true),
+                    "false" => wip.put(false),
+                    _ => Err(ReflectError::OperationFailed {
+                        shape,
+                        operation: "parsing field",
+                    }),
+                }
             } else {
                 wip.parse(value)
             }
-- 
2.43.0


From 5502f4908fee3d4330be7bcd390b0d941f2d66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 40/45] fix: facet-pretty: color values by their type, not by
 addresses

---
 facet-pretty/src/printer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..2e6bd1c 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -687,9 +687,10 @@ impl PrettyPrinter {
 
     /// Format a scalar value
     fn format_scalar(&self, value: Peek, f: &mut impl Write) -> fmt::Result {
-        // Generate a color for this shape
+        // Generate a color for this shape (from its identity: definitions hold addresses, which
+        // are different every time the program is run)
         let mut hasher = DefaultHasher::new();
-        value.shape().def.hash(&mut hasher);
+        value.shape().id.hash(&mut hasher);
         let hash = hasher.finish();
         let color = self.color_generator.generate_color(hash);
 
-- 
2.43.0


From 4d3623c0f0d0543c30ea49c6c602f97b2a3bb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 41/45] fix: facet-pretty: do not take zero-sized values for
 cycles

---
 facet-pretty/src/printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 2e6bd1c..f3482ac 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -145,7 +145,10 @@ impl PrettyPrinter {
                     }
 
                     // Check for cycles - if we've seen this value before at a different type_depth
-                    if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
+                    // (values without a size share addresses, and contain nothing)
+                    if item.value.shape().layout.size() == 0 {
+                        // Never part of a cycle
+                    } else if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
                         // If the current type_depth is significantly deeper than when we first saw this value,
                         // we have a true cycle, not just a transparent wrapper
                         if item.type_depth > ptr_type_depth + 1 {
-- 
2.43.0


From 2b945f3fe783764f50b345848e0631ad79e50520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 42/45] fix: facet-pretty: redact sensitive fields of enum
 variants

---
 facet-pretty/src/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index f3482ac..511ab00 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -525,6 +525,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            // Field value is sensitive, use write_redacted
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 436d6ddd630f34e124066257fb1ca4fa72e7344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 43/45] fix: facet-pretty: redact sensitive fields in values
 shown through Debug

---
 facet-pretty/src/printer.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 511ab00..d2379ee 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -9,7 +9,7 @@ use core::{
 use std::{collections::HashMap, hash::DefaultHasher};
 use yansi::Paint as _;
 
-use facet_core::{Def, Facet, FieldFlags, StructKind, TypeNameOpts};
+use facet_core::{Def, Facet, Field, FieldFlags, Shape, StructKind, TypeNameOpts};
 use facet_reflect::{Peek, ValueId};
 
 use crate::color::ColorGenerator;
@@ -369,6 +369,12 @@ impl PrettyPrinter {
                                 }
                             }
                         }
+                        _ if has_sensitive_fields(item.value.shape(), &mut Vec::new()) => {
+                            // These values are shown through their own Debug implementation,
+                            // which knows nothing about sensitive fields
+                            write!(f, "unsupported peek variant: ")?;
+                            self.write_redacted(f, "[REDACTED]")?;
+                        }
                         _ => {
                             write!(f, "unsupported peek variant: {:?}", item.value)?;
                         }
@@ -829,6 +835,32 @@ impl PrettyPrinter {
     }
 }
 
+/// Whether values of the given shape may hold fields that are marked as sensitive
+fn has_sensitive_fields(shape: &'static Shape, seen: &mut Vec<&'static Shape>) -> bool {
+    if seen.iter().any(|s| s.id == shape.id) {
+        return false;
+    }
+    seen.push(shape);
+    let mut any_field = |fields: &'static [Field]| {
+        fields.iter().any(|field| {
+            field.flags.contains(FieldFlags::SENSITIVE) || has_sensitive_fields(field.shape(), seen)
+        })
+    };
+    match shape.def {
+        Def::Struct(def) => any_field(def.fields),
+        Def::Enum(def) => def.variants.iter().any(|v| any_field(v.data.fields)),
+        Def::Option(def) => has_sensitive_fields(def.t(), seen),
+        Def::List(def) => has_sensitive_fields(def.t(), seen),
+        Def::Array(def) => has_sensitive_fields(def.t(), seen),
+        Def::Slice(def) => has_sensitive_fields(def.t(), seen),
+        Def::Map(def) => has_sensitive_fields(def.k, seen) || has_sensitive_fields(def.v, seen),
+        Def::SmartPointer(def) => def
+            .pointee
+            .is_some_and(|pointee| has_sensitive_fields(pointee, seen)),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From d0a97dba0a2626bfe1e4b88707d293931094dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 44/45] fix: facet-derive: size the tag of a C enum by its
 discriminants

---
 facet-derive-emit/src/process_enum.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..ea28410 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -232,10 +232,17 @@ fn process_c_style_enum(
     let shadow_discriminant_name = format!("__ShadowDiscriminant{enum_name}");
     let all_variant_names = variants
         .iter()
-        .map(|var_like| match &var_like.value.variant {
-            EnumVariantData::Unit(unit) => unit.name.to_string(),
-            EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
-            EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+        .map(|var_like| {
+            let name = match &var_like.value.variant {
+                EnumVariantData::Unit(unit) => unit.name.to_string(),
+                EnumVariantData::Tuple(tuple) => tuple.name.to_string(),
+                EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
+            };
+            // the values matter: without an explicit type, they determine its size
+            match &var_like.value.discriminant {
+                Some(x) => format!("{name} = {}", x.second),
+                None => name,
+            }
         })
         .collect::<Vec<_>>()
         .join(", ");
-- 
2.43.0


From 182c4e05996c1b59eaeb07fffdfc9f8e284c9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 45/45] fix: facet-json: read an integer with an exponent of
 zero

---
 facet-json/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 2817cea..ab87373 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -764,7 +764,7 @@ fn to_integer(number: &str) -> Cow<'_, str> {
         return Cow::Borrowed("0");
     }
     let exponent = match exponent.parse::<i64>() {
-        Ok(0) if frac.is_empty() => return Cow::Borrowed(number),
+        Ok(0) if frac.is_empty() => return Cow::Borrowed(&number[..sign.len() + int.len()]),
         Ok(exponent) => exponent,
         Err(_) => return Cow::Borrowed(number),
     };
-- 
2.43.0

