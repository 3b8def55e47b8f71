From b848bbae505814265991c1047a1897f9e043d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 01/47] fix: track ownership in Wip so that partial values are
 dropped exactly once

---
 facet-reflect/src/wip/enum_.rs |  13 +-
 facet-reflect/src/wip/mod.rs   | 986 +++++++++++----------------------
 2 files changed, 325 insertions(+), 674 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..c174de1 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -17,7 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.writable_frame()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -35,8 +35,9 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop the fields that were already initialized since we're selecting a new variant
+        self.deinit_current();
+        let frame = self.writable_frame()?;
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
@@ -84,8 +85,8 @@ impl Wip<'_> {
     ///
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or no variant with the given name exists.
-    pub fn variant_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+    pub fn variant_named(mut self, name: &str) -> Result<Self, ReflectError> {
+        let frame = self.writable_frame()?;
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..3e45bdc 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1,4 +1,4 @@
-use crate::{ReflectError, ValueId};
+use crate::{Peek, PeekEnum, ReflectError, ValueId};
 use crate::{debug, trace};
 #[cfg(feature = "log")]
 use alloc::string::ToString;
@@ -6,11 +6,10 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -135,29 +134,70 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
+    /// The places that make up this frame's value: the fields of a struct, or those of the
+    /// selected variant of an enum. Every other kind of value is tracked as a whole.
+    fn places(&self) -> &'static [Field] {
+        match self.shape.def {
+            Def::Struct(sd) => sd.fields,
+            Def::Enum(_) => match self.istate.variant.as_ref() {
+                Some(variant) => variant.data.fields,
+                None => &[],
+            },
+            _ => &[],
+        }
+    }
+
+    /// Drops whatever this frame holds, including what its (popped) children hold, and
+    /// leaves it uninitialized. Memory is not freed.
+    fn deinit(&mut self, istates: &mut FlatMap<ValueId, IState>) {
+        if self.istate.flags.contains(FrameFlags::MOVED) {
+            return;
+        }
+        let complete = self.is_fully_initialized();
+        let places = self.places();
+        let fields = self.istate.fields;
+        // forget about the contents first, so that a panicking `Drop` cannot run them twice
+        self.istate.variant = None;
+        ISet::clear(&mut self.istate.fields);
+
+        if complete {
+            self.evict_children(places, istates);
+            if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
                 trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
+                    "Invoking drop_in_place for shape {} at {:p}",
                     self.shape.green(),
                     self.data.as_byte_ptr()
                 );
-                drop_in_place(self.data.assume_init());
+                unsafe { drop_in_place(self.data.assume_init()) };
+            }
+            return;
+        }
+        for (i, field) in places.iter().enumerate() {
+            let id = self.place_id(field);
+            if let Some(istate) = istates.remove(&id) {
+                Frame::recompose(id, istate).deinit(istates);
+            } else if fields.has(i) {
+                if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
+                    unsafe { drop_in_place(self.data.field_init_at(field.offset)) };
+                }
+            }
+        }
+    }
+
+    /// Forgets the states of all popped children (their contents are not touched)
+    fn evict_children(&self, places: &'static [Field], istates: &mut FlatMap<ValueId, IState>) {
+        for field in places {
+            let id = self.place_id(field);
+            if let Some(istate) = istates.remove(&id) {
+                let child = Frame::recompose(id, istate);
+                child.evict_children(child.places(), istates);
             }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
         }
-        self.dealloc_if_needed();
+    }
+
+    fn place_id(&self, field: &Field) -> ValueId {
+        let ptr = unsafe { self.data.field_uninit_at(field.offset) };
+        ValueId::new(field.shape(), ptr.as_byte_ptr())
     }
 
     /// Marks the frame as fully initialized
@@ -166,7 +206,20 @@ impl Frame {
             Def::Struct(sd) => {
                 self.istate.fields = ISet::all(sd.fields);
             }
-            Def::Enum(_) => {
+            Def::Enum(def) => {
+                // the value itself tells which variant it is
+                let peek = PeekEnum {
+                    value: unsafe {
+                        Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                    },
+                    def,
+                };
+                let discriminant = peek.discriminant();
+                self.istate.variant = def
+                    .variants
+                    .iter()
+                    .find(|v| v.discriminant == discriminant)
+                    .copied();
                 if let Some(variant) = &self.istate.variant {
                     self.istate.fields = ISet::all(variant.data.fields);
                 }
@@ -326,19 +379,71 @@ impl<'a> Wip<'a> {
         // the stack, we still need to track them _somewhere_
         //
         // the root also relies on being tracked in the drop impl
-        if !frame.istate.flags.contains(FrameFlags::MOVED) {
-            self.istates.insert(frame.id(), frame.istate);
+        if frame.istate.flags.contains(FrameFlags::MOVED) {
+            return;
+        }
+        // zero-sized places have nothing to clean up, and any number of them may share one address
+        if frame.shape.layout.size() == 0 && frame.istate.mode != FrameMode::Root {
+            return;
         }
+        self.istates.insert(frame.id(), frame.istate);
     }
 
+    /// The contents of `frame` now live elsewhere: free its memory, forget about it
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // make sure neither this nor its children are tracked anymore — we don't want to have
+        // any metadata associated with it that gets restored by mistake
+        self.istates.remove(&frame.id());
+        frame.evict_children(frame.places(), &mut self.istates);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
         frame.istate.flags.insert(FrameFlags::MOVED);
-        // make sure this isn't tracked here anymore — we don't want to have
-        // any metadata associated with it that gets restored by mistake
-        self.istates.remove(&frame.id());
+    }
+
+    /// Throws away a frame that's not going to be part of the value: drop contents, free memory
+    fn discard(&mut self, frame: &mut Frame) {
+        frame.deinit(&mut self.istates);
+        frame.dealloc_if_needed();
+        frame.istate.flags.insert(FrameFlags::MOVED);
+    }
+
+    /// Drops whatever the current frame holds so that it can be given a new value
+    fn deinit_current(&mut self) {
+        // as of now, the places this is a part of aren't complete either
+        let mut child = self.frames.len();
+        while child >= 2 {
+            child -= 1;
+            match (
+                self.frames[child].istate.mode,
+                self.frames[child].field_index_in_parent,
+            ) {
+                (FrameMode::Field, Some(index)) => {
+                    self.frames[child - 1].istate.fields.unset(index)
+                }
+                _ => break,
+            }
+        }
+        if let Some(frame) = self.frames.last_mut() {
+            frame.deinit(&mut self.istates);
+        }
+    }
+
+    /// Returns the current frame if there is one and it can be written to
+    fn writable_frame(&mut self) -> Result<&mut Frame, ReflectError> {
+        match self.frames.last_mut() {
+            None => Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to operate on the current frame but there was no frame",
+            }),
+            Some(frame) if frame.istate.mode == FrameMode::OptionNone => {
+                Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "tried to operate on the contents of a `None`",
+                })
+            }
+            Some(frame) => Ok(frame),
+        }
     }
 
     /// Returns the shape of the current frame
@@ -376,214 +481,63 @@ impl<'a> Wip<'a> {
                 operation: "tried to build a value but there was no root frame tracked",
             });
         };
-
         let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
         let root_istate = self
             .istates
             .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
-
-        let root_frame = Frame::recompose(root_id, root_istate);
-        let root_shape = root_frame.shape;
-        let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
-
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
-
-        // 3. Initialize `to_check`
-        let mut to_check = alloc::vec![root_frame];
-
-        // 4. Traverse the tree
-        while let Some(frame) = to_check.pop() {
-            trace!(
-                "Checking frame: shape={} at {:p}, flags={:?}, mode={:?}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode,
-            );
-
-            // Skip moved frames
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, skipping initialization check".yellow()
-                );
-                continue;
-            }
-
-            // Check initialization for the current frame
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if !frame.is_fully_initialized() {
-                        // find the field that's not initialized
-                        for i in 0..sd.fields.len() {
-                            if !frame.istate.fields.has(i) {
-                                let field = &sd.fields[i];
-                                return Err(ReflectError::UninitializedField {
-                                    shape: frame.shape,
-                                    field_name: field.name,
-                                });
-                            }
-                        }
-                        // Should be unreachable
-                        unreachable!(
-                            "Enum variant not fully initialized but couldn't find which field"
-                        );
-                    }
-
-                    // If initialized, push children to check stack
-                    #[allow(clippy::unused_enumerate_index)]
-                    for (_i, field) in sd.fields.iter().enumerate() {
-                        let field_shape = field.shape();
-                        let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            debug!(
-                                "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
-                                _i.to_string().bright_cyan(),
-                                field.name.bright_blue(),
-                                frame.shape.blue(),
-                                field_shape.green(),
-                                field_ptr.as_byte_ptr()
-                            );
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            to_check.push(field_frame);
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        if !frame.istate.fields.are_all_set(variant.data.fields.len()) {
-                            // Find the uninitialized field
-                            for (i, field) in variant.data.fields.iter().enumerate() {
-                                if !frame.istate.fields.has(i) {
-                                    return Err(ReflectError::UninitializedEnumField {
-                                        shape: frame.shape,
-                                        variant_name: variant.name,
-                                        field_name: field.name,
-                                    });
-                                }
-                            }
-                            // Should be unreachable
-                            unreachable!(
-                                "Enum variant not fully initialized but couldn't find which field"
-                            );
-                        }
+            .expect("Root ID found but not present in istates, this is a bug");
+        let root = Frame::recompose(root_id, root_istate);
 
-                        // If initialized, push children to check stack
-                        #[allow(clippy::unused_enumerate_index)]
-                        for (_i, field) in variant.data.fields.iter().enumerate() {
-                            let field_shape = field.shape();
-                            // Enum fields are potentially at different offsets depending on the variant layout.
-                            // We assume the `frame.data` points to the start of the enum's data payload
-                            // (after the discriminant if applicable and handled by layout).
-                            let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                            let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
-                                debug!(
-                                    "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
-                                    _i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    variant.name.yellow(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let field_frame = Frame::recompose(field_id, field_istate);
-                                to_check.push(field_frame);
-                            }
-                        }
-                    } else {
-                        // No variant selected is an error during build
-                        return Err(ReflectError::NoVariantSelected { shape: frame.shape });
-                    }
-                }
-                // For types that manage their own contents (List, Map, Option, Scalar, etc.),
-                // we just need to check if the *container* itself is marked as initialized.
-                // The recursive check handles struct/enum *elements* within these containers if they exist.
-                Def::List(_)
-                | Def::Map(_)
-                | Def::Option(_)
-                | Def::Scalar(_)
-                | Def::SmartPointer(_)
-                | Def::Array(_)
-                | Def::Slice(_) => {
-                    if !frame.istate.fields.are_all_set(1) {
-                        // Check specific modes for better errors
-                        match frame.istate.mode {
-                            FrameMode::OptionNone => {
-                                // This should technically be marked initialized, but if not, treat as uninit Option
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
-                            }
-                            // Add more specific checks if needed, e.g., for lists/maps that started but weren't finished?
-                            _ => {
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
-                            }
-                        }
-                    }
-                    // No children to push onto `to_check` from the perspective of the *container* frame itself.
-                    // If a List contains Structs, those struct frames would have been pushed/popped
-                    // and their states tracked individually in `istates`, and checked when encountered via
-                    // `to_check` if they were fields of another struct/enum.
-                    // The `Drop` logic handles cleaning these contained items based on the container's drop_in_place.
-                    // For `build`, we trust that if the container is marked initialized, its contents are valid
-                    // according to its type's rules.
-                }
-                // Handle other Def variants if necessary
-                _ => {
-                    // Default: Check if initialized using the standard method
-                    if !frame.istate.fields.are_all_set(1) {
-                        return Err(ReflectError::UninitializedValue { shape: frame.shape });
-                    }
-                }
-            }
+        // 3. Check that everything's initialized, and that invariants are upheld
+        if let Err(e) = self.check(&root).and_then(|()| {
+            let data = PtrConst::new(root.data.as_byte_ptr());
+            check_invariants(unsafe { Peek::unchecked_new(data, root.shape) })
+        }) {
+            // Let `Drop` clean up
+            self.track(root);
+            return Err(e);
         }
 
-        // If we finished the loop, all reachable and non-moved frames are initialized.
-        debug!("All reachable frames checked and initialized.");
+        // 4. Transfer ownership of the root data to the HeapValue. Whatever's still tracked
+        // isn't part of it, `Drop` takes care of it.
+        root.evict_children(root.places(), &mut self.istates);
+        Ok(HeapValue {
+            guard: Some(Guard {
+                ptr: root.data.as_mut_byte_ptr(),
+                layout: root.shape.layout,
+            }),
+            shape: root.shape,
+            phantom: PhantomData,
+        })
+    }
 
-        // 5. Check invariants on the root
-        let data = unsafe { root_data_ptr.assume_init() };
-        if let Some(invariant_fn) = root_shape.vtable.invariants {
-            debug!(
-                "Checking invariants for root shape {} at {:p}",
-                root_shape.green(),
-                data.as_byte_ptr()
-            );
-            if !unsafe { invariant_fn(PtrConst::new(data.as_byte_ptr())) } {
-                return Err(ReflectError::InvariantViolation {
-                    invariant: "Custom validation function returned false",
+    /// Checks that a popped frame and all its popped children are initialized
+    fn check(&self, frame: &Frame) -> Result<(), ReflectError> {
+        if let (Def::Enum(_), None) = (frame.shape.def, &frame.istate.variant) {
+            // No variant selected is an error during build
+            return Err(ReflectError::NoVariantSelected { shape: frame.shape });
+        }
+        for (i, field) in frame.places().iter().enumerate() {
+            if !frame.istate.fields.has(i) {
+                return Err(match &frame.istate.variant {
+                    Some(variant) => ReflectError::UninitializedEnumField {
+                        shape: frame.shape,
+                        variant_name: variant.name,
+                        field_name: field.name,
+                    },
+                    None => ReflectError::UninitializedField {
+                        shape: frame.shape,
+                        field_name: field.name,
+                    },
                 });
             }
-        } else {
-            debug!(
-                "No invariants to check for root shape {}",
-                root_shape.blue()
-            );
         }
-
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
-
-        Ok(HeapValue {
-            guard: Some(guard),
-            shape: root_shape,
-            phantom: PhantomData,
-        })
+        // For types that manage their own contents (List, Map, Option, Scalar, etc.),
+        // we just need to check if the *container* itself is marked as initialized.
+        if !frame.is_fully_initialized() {
+            return Err(ReflectError::UninitializedValue { shape: frame.shape });
+        }
+        Ok(())
     }
 
     /// Selects a field of a struct or enum variant by index and pushes it onto the frame stack.
@@ -598,7 +552,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.writable_frame()?;
         let shape = frame.shape;
 
         let (field, field_offset) = match shape.def {
@@ -639,6 +593,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let initialized = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -675,6 +630,10 @@ impl<'a> Wip<'a> {
                 index.yellow(),
                 shape.blue(),
             );
+            if initialized {
+                // it was initialized along with its parent
+                unsafe { frame.mark_fully_initialized() };
+            }
         }
         self.frames.push(frame);
         Ok(self)
@@ -715,8 +674,8 @@ impl<'a> Wip<'a> {
     /// * `Ok(Self)` if the field was successfully selected and pushed.
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
-    pub fn field_named(self, name: &str) -> Result<Self, ReflectError> {
-        let frame = self.frames.last().unwrap();
+    pub fn field_named(mut self, name: &str) -> Result<Self, ReflectError> {
+        let frame = self.writable_frame()?;
         let shape = frame.shape;
 
         // For enums, ensure a variant is selected
@@ -753,9 +712,9 @@ impl<'a> Wip<'a> {
     {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
-        let res = self.put_shape(ptr_const, shape);
+        let wip = self.put_shape(ptr_const, shape)?;
         core::mem::forget(t); // avoid double drop; ownership moved into Wip
-        res
+        Ok(wip)
     }
 
     /// Checks if the current frame is of type `T`.
@@ -774,107 +733,38 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: src_shape,
-                operation: "tried to put a value but there was no frame to put into",
-            });
-        };
+        let frame = self.writable_frame()?;
+        let shape = frame.shape;
 
         // Check that the type matches
-        if frame.shape != src_shape {
+        if shape != src_shape {
             // Maybe we're putting into an Option<T>?
-            // Handle Option<Inner>
-            if let Def::Option(od) = frame.shape.def {
-                // Check if inner type matches
-                if od.t() == src_shape {
+            match shape.def {
+                Def::Option(od) if od.t() == src_shape => {
                     debug!("Putting into an Option<T>!");
-                    if frame.istate.fields.is_any_set() {
-                        let data = unsafe { frame.data.assume_init() };
-                        unsafe { (od.vtable.replace_with_fn)(data, Some(src)) };
-                    } else {
-                        let data = frame.data;
-                        unsafe { (od.vtable.init_some_fn)(data, src) };
-                    }
+                    self.deinit_current();
+                    let frame = self.writable_frame()?;
                     unsafe {
-                        frame.mark_fully_initialized();
-                    }
-
-                    let shape = frame.shape;
-                    let index = frame.field_index_in_parent;
-
-                    // mark the field as initialized
-                    self.mark_field_as_initialized(shape, index)?;
-
-                    debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
-
-                    return Ok(self);
-                }
-            }
-
-            return Err(ReflectError::WrongShape {
-                expected: frame.shape,
-                actual: src_shape,
-            });
-        }
-
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
+                        (od.vtable.init_some_fn)(frame.data, src);
                     }
                 }
                 _ => {
-                    // For scalar types, nothing to do if not fully initialized
+                    return Err(ReflectError::WrongShape {
+                        expected: shape,
+                        actual: src_shape,
+                    });
                 }
             }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
-
-        unsafe {
+        } else {
+            self.deinit_current();
+            let frame = self.writable_frame()?;
             // Copy the contents from src to destination
-            frame.data.copy_from(src, frame.shape);
-            frame.mark_fully_initialized();
+            unsafe {
+                frame.data.copy_from(src, frame.shape);
+            }
         }
 
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
+        self.mark_current_as_initialized();
         debug!("[{}] Just put a {} value", self.frames.len(), shape.green());
 
         Ok(self)
@@ -882,15 +772,8 @@ impl<'a> Wip<'a> {
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to parse value but there was no frame",
-            });
-        };
-
+        let frame = self.writable_frame()?;
         let shape = frame.shape;
-        let index = frame.field_index_in_parent;
 
         let Some(parse_fn) = frame.shape.vtable.parse else {
             return Err(ReflectError::OperationFailed {
@@ -898,15 +781,11 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
+        self.deinit_current();
+        let frame = self.writable_frame()?;
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
-                unsafe {
-                    frame.mark_fully_initialized();
-                }
-
-                // mark the field as initialized
-                self.mark_field_as_initialized(shape, index)?;
-
+                self.mark_current_as_initialized();
                 Ok(self)
             }
             Err(_) => Err(ReflectError::OperationFailed {
@@ -918,24 +797,13 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to put value from fn but there was no frame",
-            });
-        };
-
+        self.writable_frame()?;
+        self.deinit_current();
+        let frame = self.writable_frame()?;
         unsafe {
             default_in_place(frame.data);
-            frame.mark_fully_initialized();
         }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
+        self.mark_current_as_initialized();
         Ok(self)
     }
 
@@ -959,54 +827,28 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
-    /// Marks a field as initialized in the parent frame.
-    fn mark_field_as_initialized(
-        &mut self,
-        shape: &'static Shape,
-        index: Option<usize>,
-    ) -> Result<(), ReflectError> {
-        if let Some(index) = index {
+    /// Marks the current frame as fully initialized, and, if it's a field, as such in its parent.
+    fn mark_current_as_initialized(&mut self) {
+        let Some(frame) = self.frames.last_mut() else {
+            return;
+        };
+        unsafe {
+            frame.mark_fully_initialized();
+        }
+        if let (true, Some(index)) = (frame.is_fully_initialized(), frame.field_index_in_parent) {
             let parent_index = self.frames.len().saturating_sub(2);
-            #[cfg(feature = "log")]
-            let num_frames = self.frames.len();
-            let Some(parent) = self.frames.get_mut(parent_index) else {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but there was no parent frame",
-                });
-            };
-            #[cfg(feature = "log")]
-            let parent_shape = parent.shape;
-            trace!(
-                "[{}] {}.{} initialized with {}",
-                num_frames,
-                parent_shape.blue(),
-                index.yellow(),
-                shape.green()
-            );
-
-            if matches!(parent.shape.def, Def::Enum(_)) && parent.istate.variant.is_none() {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame was an enum and didn't have a variant chosen",
-                });
-            }
-
-            if parent.istate.fields.has(index) {
-                return Err(ReflectError::OperationFailed {
-                    shape,
-                    operation: "was supposed to mark a field as initialized, but the parent frame already had it marked as initialized",
-                });
-            }
-
-            parent.istate.fields.set(index);
+            self.frames[parent_index].istate.fields.set(index);
         }
-        Ok(())
     }
 
     /// Returns the shape of the element type for a list/array
     pub fn element_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to get the shape of an item but there was no frame",
+            });
+        };
         let shape = frame.shape;
 
         match shape.def {
@@ -1020,7 +862,12 @@ impl<'a> Wip<'a> {
 
     /// Returns the shape of the key type for a map
     pub fn key_shape(&self) -> Result<&'static Shape, ReflectError> {
-        let frame = self.frames.last().unwrap();
+        let Some(frame) = self.frames.last() else {
+            return Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to get the shape of an item but there was no frame",
+            });
+        };
         let shape = frame.shape;
 
         match shape.def {
@@ -1034,12 +881,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to create empty list but there was no frame",
-            });
-        };
+        let frame = self.writable_frame()?;
 
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
@@ -1058,28 +900,12 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        Ok(self)
+        self.put_from_fn(default_in_place)
     }
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to create empty map but there was no frame",
-            });
-        };
+        let frame = self.writable_frame()?;
 
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
@@ -1098,28 +924,12 @@ impl<'a> Wip<'a> {
             });
         };
 
-        unsafe {
-            default_in_place(frame.data);
-            frame.mark_fully_initialized();
-        }
-
-        let shape = frame.shape;
-        let index = frame.field_index_in_parent;
-
-        // Mark the field as initialized
-        self.mark_field_as_initialized(shape, index)?;
-
-        Ok(self)
+        self.put_from_fn(default_in_place)
     }
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin pushback but there was no frame",
-            });
-        };
+        let frame = self.writable_frame()?;
 
         if !matches!(frame.shape.def, Def::List(_)) {
             return Err(ReflectError::WasNotA {
@@ -1150,12 +960,7 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
-        let Some(frame) = self.frames.last_mut() else {
-            return Err(ReflectError::OperationFailed {
-                shape: <()>::SHAPE,
-                operation: "tried to begin map insertion but there was no frame",
-            });
-        };
+        let frame = self.writable_frame()?;
 
         if !matches!(frame.shape.def, Def::Map(_)) {
             return Err(ReflectError::WasNotA {
@@ -1190,7 +995,7 @@ impl<'a> Wip<'a> {
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a list
-        let frame = self.frames.last().unwrap();
+        let frame = self.writable_frame()?;
         let list_shape = frame.shape;
 
         if !matches!(list_shape.def, Def::List(_)) {
@@ -1237,7 +1042,7 @@ impl<'a> Wip<'a> {
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing an option
-        let frame = self.frames.last().unwrap();
+        let frame = self.writable_frame()?;
         let option_shape = frame.shape;
 
         // Get the option definition
@@ -1312,12 +1117,12 @@ impl<'a> Wip<'a> {
             });
         }
 
-        frame.dealloc_if_needed();
-
         // 3. Pop the frame (this discards, doesn't propagate up)
-        let _frame = self.frames.pop().expect("frame already checked");
+        let mut frame = self.frames.pop().expect("frame already checked");
+        self.discard(&mut frame);
 
         // 4. Set parent option (which we just popped into) to default (None)
+        self.deinit_current();
         let parent_frame = self
             .frames
             .last_mut()
@@ -1349,15 +1154,13 @@ impl<'a> Wip<'a> {
         // Now push a `None` frame
         let data = parent_frame.data;
 
-        let mut frame = Frame {
+        let frame = Frame {
             data,
             shape: od.t(),
-            field_index_in_parent: Some(0),
-            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
+            field_index_in_parent: None,
+            // there's nothing in there to keep track of
+            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::MOVED),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
 
         self.frames.push(frame);
 
@@ -1370,7 +1173,7 @@ impl<'a> Wip<'a> {
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
         // Make sure we're initializing a map
-        let frame = self.frames.last().unwrap();
+        let frame = self.writable_frame()?;
         let map_shape = frame.shape;
 
         if !matches!(map_shape.def, Def::Map(_)) {
@@ -1571,6 +1374,8 @@ impl<'a> Wip<'a> {
                             panic!("Expected list or array, got {}", frame.shape);
                         }
                     }
+                } else {
+                    self.discard(&mut frame);
                 }
             }
 
@@ -1584,7 +1389,7 @@ impl<'a> Wip<'a> {
                 let mut key_frame = self.frames.remove(key_frame_index);
 
                 // Make sure the key is fully initialized
-                if !key_frame.istate.fields.is_any_set() {
+                if !key_frame.is_fully_initialized() {
                     panic!("key is not initialized when popping value frame");
                 }
 
@@ -1632,6 +1437,7 @@ impl<'a> Wip<'a> {
                     // Get parent frame
                     #[cfg(feature = "log")]
                     let frames_len = self.frames.len();
+                    self.deinit_current();
                     let parent_frame = self.frames.last_mut().unwrap();
                     let parent_shape = parent_frame.shape;
 
@@ -1664,18 +1470,14 @@ impl<'a> Wip<'a> {
                     }
                 } else {
                     trace!("Popping OptionSome (not fully init'd)");
+                    self.discard(&mut frame);
                 }
             }
 
-            // Map keys are just tracked, they don't need special handling when popped
-            // FIXME: that's not true, we need to deallocate them at least??
-            FrameMode::MapKey => {}
-
-            // Field frame
-            FrameMode::Field => {}
+            // Keys that are popped without a value, and incomplete values, go nowhere
+            FrameMode::MapKey | FrameMode::MapValue { .. } => self.discard(&mut frame),
 
-            // Uninitialized special frames
-            _ => {}
+            FrameMode::Field | FrameMode::Root | FrameMode::OptionNone => {}
         }
 
         Some(frame)
@@ -1685,67 +1487,7 @@ impl<'a> Wip<'a> {
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
     pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        match frame.shape.def {
-            Def::Struct(sd) => {
-                for f in sd.fields {
-                    let id = ValueId {
-                        shape: f.shape(),
-                        ptr: unsafe { frame.data.field_uninit_at(f.offset) }.as_byte_ptr(),
-                    };
-                    if let Some(istate) = self.istates.remove(&id) {
-                        let frame = Frame::recompose(id, istate);
-                        self.evict_tree(frame);
-                    } else {
-                        trace!("No istate found for field {}", f.name);
-                    }
-                }
-            }
-            Def::Enum(_ed) => {
-                // Check if a variant is selected in the istate
-                if let Some(variant) = &frame.istate.variant {
-                    trace!(
-                        "Evicting enum {} variant '{}' fields",
-                        frame.shape.blue(),
-                        variant.name.yellow()
-                    );
-                    // Iterate over the fields of the selected variant
-                    for field in variant.data.fields {
-                        // Calculate the pointer to the field within the enum's data payload
-                        let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
-                        let field_shape = field.shape();
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                        // Try to remove the field's state from istates
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            trace!(
-                                "Evicting field '{}' (shape {}) of enum variant '{}'",
-                                field.name.bright_blue(),
-                                field_shape.green(),
-                                variant.name.yellow()
-                            );
-                            // Recompose the frame for the field
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            // Recursively evict the field's subtree
-                            self.evict_tree(field_frame);
-                        } else {
-                            trace!(
-                                "Field '{}' (shape {}) of enum variant '{}' not found in istates, skipping eviction",
-                                field.name.red(),
-                                field_shape.red(),
-                                variant.name.yellow()
-                            );
-                        }
-                    }
-                } else {
-                    // No variant selected, nothing to evict within the enum
-                    trace!(
-                        "Enum {} has no variant selected, no fields to evict.",
-                        frame.shape.blue()
-                    );
-                }
-            }
-            _ => {}
-        }
+        frame.evict_children(frame.places(), &mut self.istates);
         frame
     }
 
@@ -1858,162 +1600,70 @@ impl Drop for Wip<'_> {
     fn drop(&mut self) {
         trace!("🧹🧹🧹 WIP is dropping");
 
-        while let Some(frame) = self.frames.pop() {
-            self.track(frame);
+        while let Some(mut frame) = self.frames.pop() {
+            // Every allocation has a frame of its own: the root, and the list elements, map entries
+            // and option payloads that weren't moved into their container yet. All other frames are
+            // places within one of these.
+            if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
+                self.discard(&mut frame);
+            } else {
+                self.track(frame);
+            }
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
-            trace!(
-                "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode.yellow(),
-                if frame.is_fully_initialized() {
-                    "✅"
-                } else {
-                    "❌"
-                }
-            );
+        // The root may have been popped already; anything else that's still tracked is a place
+        // within some frame that was cleaned up just now.
+        let root_id = self
+            .istates
+            .iter()
+            .find(|(_, istate)| istate.flags.contains(FrameFlags::ALLOCATED))
+            .map(|(id, _)| *id);
+        if let Some(root_id) = root_id {
+            let istate = self.istates.remove(&root_id).unwrap();
+            let mut root = Frame::recompose(root_id, istate);
+            self.discard(&mut root);
+        }
+    }
+}
 
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
+/// Checks the invariants of a value and of everything it's made of
+fn check_invariants(peek: Peek<'_>) -> Result<(), ReflectError> {
+    if let Some(invariant_fn) = peek.shape.vtable.invariants {
+        debug!("Checking invariants for {}", peek.shape.green());
+        if !unsafe { invariant_fn(peek.data) } {
+            return Err(ReflectError::InvariantViolation {
+                invariant: "Custom validation function returned false",
+            });
+        }
+    }
+    match peek.shape.def {
+        Def::Struct(_) => {
+            for (_, field) in peek.into_struct()?.fields() {
+                check_invariants(field)?;
             }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
+        }
+        Def::Enum(_) => {
+            for (_, field) in peek.into_enum()?.fields() {
+                check_invariants(field)?;
             }
         }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
+        Def::Option(_) => {
+            if let Some(value) = peek.into_option()?.value() {
+                check_invariants(value)?;
+            }
+        }
+        Def::List(_) => {
+            for item in peek.into_list()?.iter() {
+                check_invariants(item)?;
+            }
+        }
+        Def::Map(_) => {
+            for (key, value) in peek.into_map()?.iter() {
+                check_invariants(key)?;
+                check_invariants(value)?;
             }
         }
+        _ => {}
     }
+    Ok(())
 }
-- 
2.43.0


From 9d4033b7bc463d42b89b14dcc14e7055f2aed678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 02/47] fix: ISet::are_all_set overflowed for values with 64
 fields

---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From a03a2f805730d1777c016a7376daef24d51a783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 03/47] fix: a Peek must not outlive the HeapValue it was taken
 from

---
 facet-reflect/src/wip/heap_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/heap_value.rs b/facet-reflect/src/wip/heap_value.rs
index 31f67b5..3df6446 100644
--- a/facet-reflect/src/wip/heap_value.rs
+++ b/facet-reflect/src/wip/heap_value.rs
@@ -26,7 +26,7 @@ impl Drop for HeapValue<'_> {
 
 impl<'a> HeapValue<'a> {
     /// Returns a peek that allows exploring the heap value.
-    pub fn peek(&self) -> Peek<'a> {
+    pub fn peek(&self) -> Peek<'_> {
         unsafe { Peek::unchecked_new(PtrConst::new(self.guard.as_ref().unwrap().ptr), self.shape) }
     }
 
-- 
2.43.0


From bd84934312f1dfd971ef893688fc82af4f338673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 04/47] fix: Wip::put_peek and JSON's struct-level default
 duplicated values they did not own

---
 facet-json/src/deserialize.rs | 23 +---------
 facet-reflect/src/wip/mod.rs  | 80 +++++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 25 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..1bed20f 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -578,28 +578,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 "Default struct has missing fields, the `default` impl but it does not implement Default"
                             )
                         }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
-                            .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
-                        let peek = default_struct_val.peek().into_struct().unwrap();
-
-                        // For every missing field, take it from the peek and copy it into the wip
-                        if let Def::Struct(sd) = wip.shape().def {
-                            for i in 0..sd.fields.len() {
-                                if !wip.is_field_set(i).unwrap() {
-                                    let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
-                                }
-                            }
-                        }
+                        wip = wip.put_default_in_unset_fields().unwrap();
                     }
 
                     if frame_count == 1 {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 3e45bdc..d6b2599 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -340,12 +340,32 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
-    pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
+    /// Puts a clone of the value from a Peek into the current frame.
+    pub fn put_peek<'mem>(mut self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let frame = self.writable_frame()?;
+        let shape = frame.shape;
+        if shape != peek.shape {
+            return Err(ReflectError::WrongShape {
+                expected: shape,
+                actual: peek.shape,
+            });
+        }
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Clone",
+            });
+        };
+        self.deinit_current();
+        let frame = self.writable_frame()?;
+        unsafe {
+            clone_into(peek.data, frame.data);
+        }
+        self.mark_current_as_initialized();
+        Ok(self)
     }
 
     /// Returns the number of frames on the stack
@@ -827,6 +847,60 @@ impl<'a> Wip<'a> {
         self.put_from_fn(default_in_place)
     }
 
+    /// Gives every field of the current struct that isn't set the value it has in the
+    /// struct's own `Default`.
+    pub fn put_default_in_unset_fields(mut self) -> Result<Self, ReflectError> {
+        let depth = self.frames.len();
+        let frame = self.writable_frame()?;
+        let shape = frame.shape;
+        let Def::Struct(sd) = shape.def else {
+            return Err(ReflectError::WasNotA {
+                expected: "struct",
+                actual: shape,
+            });
+        };
+        let Some(default_in_place) = shape.vtable.default_in_place else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "type does not implement Default",
+            });
+        };
+
+        let mut default = Frame {
+            data: shape.allocate(),
+            shape,
+            field_index_in_parent: None,
+            istate: IState::new(depth, FrameMode::Root, FrameFlags::ALLOCATED),
+        };
+        unsafe {
+            default_in_place(default.data);
+            default.mark_fully_initialized();
+        }
+        let data = frame.data;
+        for (i, field) in sd.fields.iter().enumerate() {
+            if self.frames[depth - 1].istate.fields.has(i) {
+                continue;
+            }
+            let id = ValueId::new(
+                field.shape(),
+                unsafe { data.field_uninit_at(field.offset) }.as_byte_ptr(),
+            );
+            if let Some(istate) = self.istates.remove(&id) {
+                Frame::recompose(id, istate).deinit(&mut self.istates);
+            }
+            unsafe {
+                let src = default.data.field_init_at(field.offset).as_byte_ptr();
+                data.field_uninit_at(field.offset)
+                    .copy_from(PtrConst::new(src), field.shape());
+            }
+            self.frames[depth - 1].istate.fields.set(i);
+            default.istate.fields.unset(i);
+        }
+        // drops the fields that weren't needed
+        self.discard(&mut default);
+        Ok(self)
+    }
+
     /// Marks the current frame as fully initialized, and, if it's a field, as such in its parent.
     fn mark_current_as_initialized(&mut self) {
         let Some(frame) = self.frames.last_mut() else {
-- 
2.43.0


From 4fd1ecd200a12f369776d1e722345c53cd9e1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 05/47] fix: vtables of NonZero, ConstTypeId, PhantomData,
 paths and RandomState named another type than their own

---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs | 12 +++++++++---
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..dd3969f 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(
+                f,
+                "ConstTypeId"
+            )))
             .build()
     };
 }
@@ -45,7 +48,10 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(
+                core::marker::PhantomData<T>,
+                |f, _opts| write!(f, "PhantomData")
+            ))
             .build()
     };
 }
@@ -160,7 +166,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 0b89de1cbdde5a37ba92b9b36dd47e60fe5340f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 06/47] fix: HashMap shape assumed RandomState whatever its
 hasher, and hashed in iteration order

---
 facet-core/src/impls_std/hashmap.rs | 81 +++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..1d755a0 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,13 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{
+    alloc::Layout,
+    hash::{Hash, Hasher},
+    mem::MaybeUninit,
+};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{DefaultHasher, RandomState};
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -19,12 +23,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + core::hash::BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -62,11 +66,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -85,13 +91,36 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V, S>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map: HashMap<K, V, S> =
+                                HashMap::with_capacity_and_hasher(src.len(), S::default());
+                            for (key, val) in src {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                (k_clone)(
+                                    PtrConst::new(key as *const _),
+                                    PtrUninit::from_maybe_uninit(&mut k),
+                                );
+                                let k = k.assume_init();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                (v_clone)(
+                                    PtrConst::new(val as *const _),
+                                    PtrUninit::from_maybe_uninit(&mut v),
+                                );
+                                map.insert(k, v.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -108,18 +137,23 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // equal maps may well iterate in different orders
+                            let mut sum = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry = DefaultHasher::new();
+                                k.hash(&mut entry);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&raw mut entry),
+                                    |entry, bytes| entry.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                sum = sum.wrapping_add(entry.finish());
                             }
+                            sum.hash(&mut hasher);
                         });
                     }
 
@@ -138,25 +172,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -165,7 +199,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
@@ -204,7 +238,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
-- 
2.43.0


From f1239e97643c75ab3f63b3b1553e9cd1b2211eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 07/47] fix: clone_into of Vec, BTreeMap and slices, markers of
 slices, array items, Weak vtable

---
 facet-core/src/impls_alloc/btreemap.rs | 31 ++++++++++++++++++++++----
 facet-core/src/impls_alloc/smartptr.rs |  4 ++--
 facet-core/src/impls_alloc/vec.rs      | 19 +++++++++++++---
 facet-core/src/impls_core/array.rs     |  2 +-
 facet-core/src/impls_core/slice.rs     | 16 +++++++++++--
 facet-core/src/spez/mod.rs             |  4 ++--
 6 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..0c268bc 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,31 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<BTreeMap<K, V>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut map: BTreeMap<K, V> = BTreeMap::new();
+                            for (key, val) in src {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                (k_clone)(
+                                    PtrConst::new(key as *const _),
+                                    PtrUninit::from_maybe_uninit(&mut k),
+                                );
+                                let k = k.assume_init();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                (v_clone)(
+                                    PtrConst::new(val as *const _),
+                                    PtrUninit::from_maybe_uninit(&mut v),
+                                );
+                                map.insert(k, v.assume_init());
+                            }
+                            dst.put(map)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..b71e8a6 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::{alloc::Layout, hash::Hash as _};
+use core::{alloc::Layout, hash::Hash as _, mem::MaybeUninit};
 
 use alloc::vec::Vec;
 
@@ -30,8 +30,21 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let t_clone = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut vec = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                let mut clone = MaybeUninit::<T>::uninit();
+                                (t_clone)(PtrConst::new(item), PtrUninit::from_maybe_uninit(&mut clone));
+                                vec.push(clone.assume_init());
+                            }
+                            dst.put(vec)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..6413e1d 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.as_ptr::<T>().add(index))
                                 })
                                 .build()
                         },
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..596dae0 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -52,12 +52,24 @@ where
                                 write!(f, "&[⋯]")
                             }
                         })
-                        .marker_traits(T::SHAPE.vtable.marker_traits)
+                        .marker_traits({
+                            let t = T::SHAPE.vtable.marker_traits;
+                            // a reference is always `Copy` and `Unpin`, it is both `Send`
+                            // and `Sync` if its referent is `Sync`
+                            let mut traits = MarkerTraits::COPY
+                                .union(MarkerTraits::UNPIN)
+                                .union(t.intersection(MarkerTraits::EQ));
+                            if t.contains(MarkerTraits::SYNC) {
+                                traits =
+                                    traits.union(MarkerTraits::SEND).union(MarkerTraits::SYNC);
+                            }
+                            traits
+                        })
                         .default_in_place(|ptr| unsafe { ptr.put(&[] as &[T]) })
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..eeb6196 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,9 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From 315cb074abe85973ccf17163d09a1181d310c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 08/47] fix: tuples had no drop_in_place, and offered debug and
 eq from the wrong element operations

---
 facet-core/src/impls_core/tuple.rs | 265 ++++++++++++++++++++---------
 facet-dev/src/tuples.rs            |  38 +++--
 2 files changed, 214 insertions(+), 89 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..8e1cc57 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -74,7 +75,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -122,6 +125,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -206,6 +212,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -325,6 +334,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -465,6 +478,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -642,6 +666,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -842,6 +878,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1065,6 +1114,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1311,6 +1374,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1582,6 +1660,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1888,6 +1982,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2202,42 +2313,15 @@ where
         }
 
         Shape::builder()
-            .id(ConstTypeId::of::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
-            .layout(Layout::new::<(
-                T0,
-                T1,
-                T2,
-                T3,
-                T4,
-                T5,
-                T6,
-                T7,
-                T8,
-                T9,
-                T10,
-                T11,
-            )>())
+            .id(ConstTypeId::of::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
+            .layout(Layout::new::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>())
             .vtable(
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
-                        .marker_traits({
-                            T0::SHAPE
-                                .vtable
-                                .marker_traits
+                        .drop_in_place(|value| unsafe { value.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
+                        .marker_traits(                        {
+                            T0::SHAPE.vtable.marker_traits
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                                 .intersection(T3::SHAPE.vtable.marker_traits)
@@ -2249,96 +2333,119 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                                 .intersection(T11::SHAPE.vtable.marker_traits)
-                        });
+                    });
 
-                    if Characteristic::Eq.all(&[
-                        T0::SHAPE,
-                        T1::SHAPE,
-                        T2::SHAPE,
-                        T3::SHAPE,
-                        T4::SHAPE,
-                        T5::SHAPE,
-                        T6::SHAPE,
-                        T7::SHAPE,
-                        T8::SHAPE,
-                        T9::SHAPE,
-                        T10::SHAPE,
-                        T11::SHAPE,
+                    if Characteristic::Debug.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
                     ]) {
                         builder = builder.debug(|value, f| {
-                            let value = unsafe {
-                                value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
                             write!(f, "(")?;
                             unsafe {
                                 let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ", ")?;
                             unsafe {
                                 let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
+                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
+                                    PtrConst::new(ptr),
+                                    f,
+                                )
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE, T4::SHAPE, T5::SHAPE, T6::SHAPE, T7::SHAPE, T8::SHAPE, T9::SHAPE, T10::SHAPE, T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
-                            let a = unsafe {
-                                a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
-                            let b = unsafe {
-                                b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
-                            };
+                            let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
+                            let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
 
                             // Compare element 0
                             unsafe {
@@ -2502,7 +2609,7 @@ where
                                 field!(8, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(9, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
                                 field!(10, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
-                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),),
+                                field!(11, (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,),)
                             ]
                         },
                     )
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..84bf0c5 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,14 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!(
+            "                        .drop_in_place(|value| unsafe {{ value.drop_in_place::<{}>() }})\n",
+            if n == 1 {
+                "(T0,)".to_string()
+            } else {
+                format!("({})", type_params)
+            }
+        );
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
@@ -157,15 +165,22 @@ pub fn generate() -> String {
         }
 
         // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
-        if n <= 5 {
-            w!("{}", shape_list);
-        } else {
-            w!("\n");
-            w!("                        {},\n", shape_list);
-            w!("                    ");
-        }
-        w!("]) {{\n");
+        let begin_if = |s: &mut String, characteristic: &str| {
+            write!(
+                s,
+                "                    if Characteristic::{characteristic}.all(&["
+            )
+            .unwrap();
+            if n <= 5 {
+                write!(s, "{}", shape_list).unwrap();
+            } else {
+                writeln!(s).unwrap();
+                writeln!(s, "                        {},", shape_list).unwrap();
+                write!(s, "                    ").unwrap();
+            }
+            writeln!(s, "]) {{").unwrap();
+        };
+        begin_if(&mut s, "Debug");
 
         // debug implementation
         w!("                        builder = builder.debug(|value, f| {{\n");
@@ -199,7 +214,10 @@ pub fn generate() -> String {
         }
 
         w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        begin_if(&mut s, "PartialEq");
 
         // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
-- 
2.43.0


From 1daa429b505a4e8675d53977f19bdbdd24c37124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 09/47] fix: JSON reader panicked on values that do not fit the
 type instead of reporting them

---
 facet-json/src/deserialize.rs       | 77 ++++++++++++++++-------------
 facet-json/src/deserialize/error.rs |  5 ++
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 1bed20f..b98b0bf 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,4 +1,4 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
@@ -65,6 +65,24 @@ pub fn from_slice_wip<'input, 'a>(
             return err!($kind)
         };
     }
+    // Applies a builder operation: the builder is gone if it fails, so remember where it was
+    macro_rules! reflect {
+        (|$w:ident| $op:expr) => {{
+            let path = wip.path();
+            let $w = wip;
+            match $op {
+                Ok(it) => it,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::ReflectError(e),
+                        input,
+                        pos,
+                        path,
+                    ));
+                }
+            }
+        }};
+    }
 
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -127,7 +145,7 @@ pub fn from_slice_wip<'input, 'a>(
             Some(expect) => expect,
             None => {
                 if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
+                    return Ok(reflect!(|wip| wip.build()));
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
@@ -150,7 +168,7 @@ pub fn from_slice_wip<'input, 'a>(
             }
             Expect::Value(why) => {
                 if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
+                    wip = reflect!(|wip| wip.push_some());
                     stack.push(Expect::PopOption);
                 }
 
@@ -183,7 +201,7 @@ pub fn from_slice_wip<'input, 'a>(
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        wip = reflect!(|wip| wip.begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -195,7 +213,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(|wip| wip.push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
@@ -266,9 +284,9 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    wip = reflect!(|wip| wip.put::<String>(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    wip = reflect!(|wip| wip.parse(&value));
                                 }
                                 finished_value = Some(why);
                             }
@@ -295,7 +313,7 @@ pub fn from_slice_wip<'input, 'a>(
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                        wip = reflect!(|wip| wip.field_named(field.name));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -359,7 +377,7 @@ pub fn from_slice_wip<'input, 'a>(
                                         value.blue(),
                                         wip.shape()
                                     );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    wip = reflect!(|wip| wip.field_named(&value));
                                 }
                             }
                         }
@@ -382,7 +400,7 @@ pub fn from_slice_wip<'input, 'a>(
 
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
                         if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                            wip = reflect!(|wip| wip.try_put_f64(number));
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
                             let shape = wip.shape();
@@ -407,7 +425,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        wip = reflect!(|wip| wip.put::<bool>(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -424,7 +442,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        wip = reflect!(|wip| wip.put::<bool>(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -446,7 +464,7 @@ pub fn from_slice_wip<'input, 'a>(
                             pos += 4;
 
                             // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            wip = reflect!(|wip| wip.pop_some_push_none());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -473,7 +491,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                wip = reflect!(|wip| wip.push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -499,7 +517,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 // we finished the array, neat
                                 if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
+                                    wip = reflect!(|wip| wip.pop());
                                 }
                             }
                             _ => {
@@ -545,22 +563,16 @@ pub fn from_slice_wip<'input, 'a>(
                                     {
                                         match attr {
                                             Some(fun) => {
-                                                wip = wip
+                                                wip = reflect!(|wip| wip
                                                     .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                    .and_then(|wip| wip.put_from_fn(*fun))
+                                                    .and_then(|wip| wip.pop()));
                                             }
                                             None => {
-                                                wip = wip
+                                                wip = reflect!(|wip| wip
                                                     .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                    .and_then(|wip| wip.put_default())
+                                                    .and_then(|wip| wip.pop()));
                                             }
                                         }
                                     } else {
@@ -573,18 +585,13 @@ pub fn from_slice_wip<'input, 'a>(
 
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
-                        wip = wip.put_default_in_unset_fields().unwrap();
+                        wip = reflect!(|wip| wip.put_default_in_unset_fields());
                     }
 
                     if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
+                        return Ok(reflect!(|wip| wip.build()));
                     } else {
-                        wip = wip.pop().unwrap();
+                        wip = reflect!(|wip| wip.pop());
                     }
                 }
             }
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..69e4eb1 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -3,6 +3,8 @@ use alloc::format;
 #[cfg(feature = "alloc")]
 use alloc::string::String;
 
+use facet_reflect::ReflectError;
+
 #[cfg(feature = "rich-diagnostics")]
 use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 #[cfg(feature = "rich-diagnostics")]
@@ -44,6 +46,7 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::NumberOutOfRange(n) => format!("Number out of range: {}", n),
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
+            JsonErrorKind::ReflectError(e) => format!("{}", e),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
         }
     }
@@ -64,6 +67,8 @@ pub enum JsonErrorKind {
     StringAsNumber(String),
     /// An unexpected field name was encountered in the input.
     UnknownField(String),
+    /// The value does not fit the type it is read into.
+    ReflectError(ReflectError),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
 }
-- 
2.43.0


From 757c16268af560d728983196d6622277fdf9d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 10/47] fix: JSON reader ignored trailing input and mishandled
 options, blanks in empty containers and keys

---
 facet-json/src/deserialize.rs | 49 ++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index b98b0bf..4960df3 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -130,21 +130,15 @@ pub fn from_slice_wip<'input, 'a>(
     stack.push(Expect::Value(WhyValue::TopLevel));
 
     loop {
-        // skip over whitespace
-        while let Some(c) = input.get(pos).copied() {
-            match c {
-                b' ' | b'\t' | b'\n' | b'\r' => {
-                    pos += 1;
-                }
-                _ => break,
-            }
-        }
+        skip_whitespace(&mut pos, input);
 
         let frame_count = wip.frames_count();
         let expect = match stack.pop() {
             Some(expect) => expect,
             None => {
-                if frame_count == 1 {
+                if let Some(c) = input.get(pos).copied() {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                } else if frame_count == 1 {
                     return Ok(reflect!(|wip| wip.build()));
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
@@ -154,8 +148,11 @@ pub fn from_slice_wip<'input, 'a>(
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // closing an option takes no input
+            None if expect == Expect::PopOption => 0,
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
@@ -167,7 +164,11 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
+                if why == WhyValue::ObjectKey {
+                    if c != b'"' {
+                        bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                    }
+                } else if let Def::Option(_) = wip.shape().def {
                     wip = reflect!(|wip| wip.push_some());
                     stack.push(Expect::PopOption);
                 }
@@ -175,7 +176,11 @@ pub fn from_slice_wip<'input, 'a>(
                 match c {
                     b'{' => {
                         trace!("Object starting");
+                        if !matches!(wip.shape().def, Def::Struct(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        }
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -196,12 +201,14 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'[' => {
+                        wip = reflect!(|wip| wip.begin_pushback());
+
                         pos += 1;
+                        skip_whitespace(&mut pos, input);
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = reflect!(|wip| wip.begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -465,7 +472,8 @@ pub fn from_slice_wip<'input, 'a>(
 
                             // ok but we already pushed some! luckily wip has the method for us
                             wip = reflect!(|wip| wip.pop_some_push_none());
-                            finished_value = Some(why);
+                            // there's nothing in there: what remains is to pop the option itself
+                            wip = reflect!(|wip| wip.pop());
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
                         }
@@ -588,9 +596,8 @@ pub fn from_slice_wip<'input, 'a>(
                         wip = reflect!(|wip| wip.put_default_in_unset_fields());
                     }
 
-                    if frame_count == 1 {
-                        return Ok(reflect!(|wip| wip.build()));
-                    } else {
+                    // the root frame stays until the end of the input
+                    if wip.frames_count() > 1 {
                         wip = reflect!(|wip| wip.pop());
                     }
                 }
@@ -599,6 +606,12 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+fn skip_whitespace(pos: &mut usize, input: &[u8]) {
+    while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos).copied() {
+        *pos += 1;
+    }
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From 0222e6f98dd699f789609d071a38e947223b02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 11/47] fix: JSON reader did not decode escape sequences and
 took raw control characters

---
 facet-json/src/deserialize.rs | 77 +++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 9 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 4960df3..be33aa8 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -230,6 +230,7 @@ pub fn from_slice_wip<'input, 'a>(
                         let start = pos;
                         // Our value is a string: collect bytes first
                         let mut bytes = Vec::new();
+                        let mut escaped = false;
                         loop {
                             let Some(c) = input.get(pos).copied() else {
                                 bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
@@ -240,18 +241,24 @@ pub fn from_slice_wip<'input, 'a>(
                                 }
                                 b'\\' => {
                                     // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
+                                    if !escaped {
+                                        escaped = true;
+                                        bytes.extend(&input[start..pos]);
+                                    }
+                                    pos += 1;
+                                    match parse_escape(&mut pos, input) {
+                                        Ok(c) => {
+                                            bytes.extend(c.encode_utf8(&mut [0; 4]).as_bytes())
                                         }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
+                                        Err(kind) => bail!(kind),
                                     }
                                 }
+                                0..0x20 => {
+                                    // control characters must be escaped
+                                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                                }
                                 _ => {
-                                    if !bytes.is_empty() {
+                                    if escaped {
                                         bytes.push(c);
                                     }
                                     pos += 1;
@@ -261,7 +268,7 @@ pub fn from_slice_wip<'input, 'a>(
                         let end = pos;
                         pos += 1;
 
-                        let value = if bytes.is_empty() {
+                        let value = if !escaped {
                             match core::str::from_utf8(&input[start..end]) {
                                 Ok(it) => alloc::borrow::Cow::Borrowed(it),
                                 Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
@@ -612,6 +619,58 @@ fn skip_whitespace(pos: &mut usize, input: &[u8]) {
     }
 }
 
+/// Parses what follows the backslash of an escape sequence.
+fn parse_escape(pos: &mut usize, input: &[u8]) -> Result<char, JsonErrorKind> {
+    let Some(c) = input.get(*pos).copied() else {
+        return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+    };
+    let unescaped = match c {
+        b'"' | b'\\' | b'/' => c as char,
+        b'b' => '\u{8}',
+        b'f' => '\u{c}',
+        b'n' => '\n',
+        b'r' => '\r',
+        b't' => '\t',
+        b'u' => {
+            let mut code = parse_hex4(*pos + 1, input)?;
+            let mut len = 4;
+            if (0xD800..0xDC00).contains(&code) && input[*pos + 5..].starts_with(b"\\u") {
+                // the first half of a surrogate pair
+                let low = parse_hex4(*pos + 7, input)?;
+                if (0xDC00..0xE000).contains(&low) {
+                    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                    len = 10;
+                }
+            }
+            let Some(c) = char::from_u32(code) else {
+                return Err(JsonErrorKind::InvalidUtf8(format!(
+                    "Lone surrogate: {code:#x}"
+                )));
+            };
+            *pos += len;
+            c
+        }
+        c => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+    };
+    *pos += 1;
+    Ok(unescaped)
+}
+
+/// Parses the four hex digits of a `\u` escape sequence.
+fn parse_hex4(pos: usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
+    let mut code = 0;
+    for i in pos..pos + 4 {
+        let Some(c) = input.get(i).copied() else {
+            return Err(JsonErrorKind::UnexpectedEof("incomplete \\u escape"));
+        };
+        let Some(digit) = (c as char).to_digit(16) else {
+            return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+        };
+        code = code * 16 + digit;
+    }
+    Ok(code)
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
-- 
2.43.0


From d5cbac7a2a11e8165db2825c1d6452233a0b03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 12/47] fix: JSON reader read integers through f64, refused
 exponents and panicked on malformed numbers

---
 facet-json/src/deserialize.rs | 152 +++++++++++++++++++++-------------
 1 file changed, 95 insertions(+), 57 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index be33aa8..0a8c4be 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -397,24 +397,31 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
+                        let start = pos;
+                        if let Err(kind) = skip_over_number(&mut pos, input) {
+                            bail!(kind);
                         }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
-                        trace!("Parsed {:?}", number.yellow());
-
-                        // Prefer try_put_f64 only if actually supported (can_put_f64)
-                        if wip.can_put_f64() {
-                            wip = reflect!(|wip| wip.try_put_f64(number));
+                        let text = core::str::from_utf8(&input[start..pos]).unwrap();
+                        let number = text.parse::<f64>().unwrap();
+                        trace!("Parsed {:?}", text.yellow());
+
+                        if wip.current_is_type::<f64>() {
+                            if !number.is_finite() {
+                                bail!(JsonErrorKind::NumberOutOfRange(number));
+                            }
+                            wip = reflect!(|wip| wip.put(number));
+                        } else if wip.current_is_type::<f32>() {
+                            let single = text.parse::<f32>().unwrap();
+                            if !single.is_finite() {
+                                bail!(JsonErrorKind::NumberOutOfRange(number));
+                            }
+                            wip = reflect!(|wip| wip.put(single));
+                        } else if wip.can_put_f64() {
+                            // An f64 doesn't hold every integer: go by the digits
+                            let Some(digits) = integer_digits(text) else {
+                                bail!(JsonErrorKind::NumberOutOfRange(number));
+                            };
+                            wip = reflect!(|wip| wip.parse(&digits));
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
                             let shape = wip.shape();
@@ -671,6 +678,76 @@ fn parse_hex4(pos: usize, input: &[u8]) -> Result<u32, JsonErrorKind> {
     Ok(code)
 }
 
+/// Skips a number: -?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?
+fn skip_over_number(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    let skip_digits = |pos: &mut usize| {
+        let start = *pos;
+        while let Some(b'0'..=b'9') = input.get(*pos) {
+            *pos += 1;
+        }
+        if *pos > start {
+            Ok(())
+        } else {
+            Err(match input.get(*pos) {
+                Some(c) => JsonErrorKind::UnexpectedCharacter(*c as char),
+                None => JsonErrorKind::UnexpectedEof("expected a digit"),
+            })
+        }
+    };
+
+    if input.get(*pos) == Some(&b'-') {
+        *pos += 1;
+    }
+    if input.get(*pos) == Some(&b'0') {
+        *pos += 1;
+    } else {
+        skip_digits(pos)?;
+    }
+    if input.get(*pos) == Some(&b'.') {
+        *pos += 1;
+        skip_digits(pos)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
+            *pos += 1;
+        }
+        skip_digits(pos)?;
+    }
+    Ok(())
+}
+
+/// Writes a JSON number without fraction and exponent, or returns `None` if it isn't an integer
+/// (or one of more digits than any integer type has).
+fn integer_digits(number: &str) -> Option<String> {
+    const MAX_DIGITS: i64 = 40;
+
+    let (sign, number) = match number.strip_prefix('-') {
+        Some(rest) => ("-", rest),
+        None => ("", number),
+    };
+    let (mantissa, exponent) = number.split_once(['e', 'E']).unwrap_or((number, "0"));
+    let (integer, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+
+    // The value is 0.digits * 10^point
+    let all = [integer, fraction].concat();
+    let digits = all.trim_start_matches('0');
+    if digits.is_empty() {
+        return Some("0".to_string());
+    }
+    let leading_zeros = all.len() - digits.len();
+    let digits = digits.trim_end_matches('0');
+    let point = exponent
+        .parse::<i64>()
+        .ok()?
+        .checked_add(integer.len() as i64 - leading_zeros as i64)?;
+    if point < digits.len() as i64 || point > MAX_DIGITS {
+        return None;
+    }
+    let zeros = "0".repeat(point as usize - digits.len());
+    Some([sign, digits, &zeros].concat())
+}
+
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
@@ -815,46 +892,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
         }
         b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
-                *pos += 1;
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
-                *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                }
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
-                }
-            }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
-                    *pos += 1;
-                }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
-                }
-            }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
+            skip_over_number(pos, input)?;
         }
         _ => {
             return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
-- 
2.43.0


From 0110bc88bef154a2d1ef1593019723a43536f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 13/47] fix: try_put_f64 truncated fractions, saturated at the
 bounds and refused negative non-zero numbers

---
 facet-reflect/src/wip/put_f64.rs | 110 +++++++++++++++++++------------
 1 file changed, 69 insertions(+), 41 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..e781bcd 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -5,6 +5,14 @@ use core::num::{
 };
 use facet_core::{Def, ScalarAffinity};
 
+/// Returns the integer `number` stands for, or `None` if it has a fractional part or is too large
+/// for any of the integer types handled here.
+fn exact_integer(number: f64) -> Option<i128> {
+    let integer = number as i128;
+    // `as` truncates and saturates: going back tells whether anything was lost
+    (number.abs() < 1e38 && integer as f64 == number).then_some(integer)
+}
+
 impl Wip<'_> {
     /// Returns true if the current frame can accept a f64 into a supported numeric type.
     pub fn can_put_f64(&self) -> bool {
@@ -45,8 +53,8 @@ impl Wip<'_> {
 
         // Match on the concrete Rust type
         if shape.is_type::<u8>() {
-            if (0.0..=u8::MAX as f64).contains(&number) {
-                self.put(number as u8)
+            if let Some(value) = exact_integer(number).and_then(|n| u8::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -54,8 +62,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u16>() {
-            if (0.0..=u16::MAX as f64).contains(&number) {
-                self.put(number as u16)
+            if let Some(value) = exact_integer(number).and_then(|n| u16::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -63,8 +71,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u32>() {
-            if (0.0..=u32::MAX as f64).contains(&number) {
-                self.put(number as u32)
+            if let Some(value) = exact_integer(number).and_then(|n| u32::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -72,8 +80,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
-                self.put(number as u64)
+            if let Some(value) = exact_integer(number).and_then(|n| u64::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -81,8 +89,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
-                self.put(number as usize)
+            if let Some(value) = exact_integer(number).and_then(|n| usize::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -90,8 +98,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i8>() {
-            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) {
-                self.put(number as i8)
+            if let Some(value) = exact_integer(number).and_then(|n| i8::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -99,8 +107,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i16>() {
-            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) {
-                self.put(number as i16)
+            if let Some(value) = exact_integer(number).and_then(|n| i16::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -108,8 +116,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i32>() {
-            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {
-                self.put(number as i32)
+            if let Some(value) = exact_integer(number).and_then(|n| i32::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -117,8 +125,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
-                self.put(number as i64)
+            if let Some(value) = exact_integer(number).and_then(|n| i64::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -126,8 +134,8 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
-                self.put(number as isize)
+            if let Some(value) = exact_integer(number).and_then(|n| isize::try_from(n).ok()) {
+                self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
                     shape,
@@ -135,7 +143,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<f32>() {
-            if (f32::MIN as f64..=f32::MAX as f64).contains(&number) {
+            if !number.is_finite() || (number as f32).is_finite() {
                 self.put(number as f32)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -146,8 +154,10 @@ impl Wip<'_> {
         } else if shape.is_type::<f64>() {
             self.put(number)
         } else if shape.is_type::<NonZeroU8>() {
-            if (1.0..=u8::MAX as f64).contains(&number) {
-                let value = NonZeroU8::new(number as u8).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| u8::try_from(n).ok())
+                .and_then(NonZeroU8::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -156,8 +166,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU16>() {
-            if (1.0..=u16::MAX as f64).contains(&number) {
-                let value = NonZeroU16::new(number as u16).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| u16::try_from(n).ok())
+                .and_then(NonZeroU16::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -166,8 +178,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU32>() {
-            if (1.0..=u32::MAX as f64).contains(&number) {
-                let value = NonZeroU32::new(number as u32).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| u32::try_from(n).ok())
+                .and_then(NonZeroU32::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -176,8 +190,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
-                let value = NonZeroU64::new(number as u64).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| u64::try_from(n).ok())
+                .and_then(NonZeroU64::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -186,8 +202,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
-                let value = NonZeroUsize::new(number as usize).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| usize::try_from(n).ok())
+                .and_then(NonZeroUsize::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -196,8 +214,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
-                let value = NonZeroI8::new(number as i8).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| i8::try_from(n).ok())
+                .and_then(NonZeroI8::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -206,8 +226,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
-                let value = NonZeroI16::new(number as i16).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| i16::try_from(n).ok())
+                .and_then(NonZeroI16::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -216,8 +238,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
-                let value = NonZeroI32::new(number as i32).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| i32::try_from(n).ok())
+                .and_then(NonZeroI32::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -226,8 +250,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
-                let value = NonZeroI64::new(number as i64).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| i64::try_from(n).ok())
+                .and_then(NonZeroI64::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -236,8 +262,10 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
-                let value = NonZeroIsize::new(number as isize).unwrap();
+            if let Some(value) = exact_integer(number)
+                .and_then(|n| isize::try_from(n).ok())
+                .and_then(NonZeroIsize::new)
+            {
                 self.put(value)
             } else {
                 Err(ReflectError::OperationFailed {
-- 
2.43.0


From c155633b353440bf5354043e3fd0fc6ede280231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 14/47] fix: JSON reader let malformed ignored values through
 and overflowed the stack on deep nesting

---
 facet-json/src/deserialize.rs       | 77 ++++++++++++++++++-----------
 facet-json/src/deserialize/error.rs |  3 ++
 2 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 0a8c4be..8d150b8 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -174,6 +174,9 @@ pub fn from_slice_wip<'input, 'a>(
                 }
 
                 match c {
+                    b'{' | b'[' if frame_count > MAX_DEPTH => {
+                        bail!(JsonErrorKind::TooDeep);
+                    }
                     b'{' => {
                         trace!("Object starting");
                         if !matches!(wip.shape().def, Def::Struct(_)) {
@@ -371,14 +374,16 @@ pub fn from_slice_wip<'input, 'a>(
                                             Some(Expect::Value(WhyValue::ObjectValue))
                                         ));
                                         // skip over value
-                                        skip_over_value(&mut pos, input).map_err(|e| {
-                                            JsonParseErrorWithContext::new(
-                                                e,
-                                                input,
-                                                pos,
-                                                wip.path(),
-                                            )
-                                        })?;
+                                        skip_over_value(&mut pos, input, stack.len()).map_err(
+                                            |e| {
+                                                JsonParseErrorWithContext::new(
+                                                    e,
+                                                    input,
+                                                    pos,
+                                                    wip.path(),
+                                                )
+                                            },
+                                        )?;
                                         trace!(
                                             "immediately after skip over value, we're at pos {}, char is {}",
                                             pos,
@@ -620,6 +625,9 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// How deep values may be nested: recursive types are built, checked and dropped recursively
+const MAX_DEPTH: usize = 512;
+
 fn skip_whitespace(pos: &mut usize, input: &[u8]) {
     while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(*pos).copied() {
         *pos += 1;
@@ -748,8 +756,11 @@ fn integer_digits(number: &str) -> Option<String> {
     Some([sign, digits, &zeros].concat())
 }
 
-fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+fn skip_over_value(pos: &mut usize, input: &[u8], depth: usize) -> Result<(), JsonErrorKind> {
     let bytes = input;
+    if depth > MAX_DEPTH {
+        return Err(JsonErrorKind::TooDeep);
+    }
 
     // Helper for skipping whitespace
     let skip_whitespace = |pos: &mut usize| {
@@ -780,7 +791,10 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
             loop {
                 // Skip key
-                skip_over_value(pos, input)?;
+                if *pos < bytes.len() && bytes[*pos] != b'"' {
+                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+                }
+                skip_over_value(pos, input, depth + 1)?;
                 skip_whitespace(pos);
                 // Expect colon between key and value
                 if *pos >= bytes.len() || bytes[*pos] != b':' {
@@ -791,7 +805,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                 *pos += 1;
                 skip_whitespace(pos);
                 // Skip value
-                skip_over_value(pos, input)?;
+                skip_over_value(pos, input, depth + 1)?;
                 skip_whitespace(pos);
                 if *pos >= bytes.len() {
                     return Err(JsonErrorKind::UnexpectedEof(
@@ -819,7 +833,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
                 return Ok(());
             }
             loop {
-                skip_over_value(pos, input)?;
+                skip_over_value(pos, input, depth + 1)?;
                 skip_whitespace(pos);
                 if *pos >= bytes.len() {
                     return Err(JsonErrorKind::UnexpectedEof(
@@ -841,31 +855,36 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         b'"' => {
             // Skip a string, with escape processing
             *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
+            let start = *pos;
+            loop {
+                match bytes.get(*pos).copied() {
+                    Some(b'\\') => {
                         *pos += 1;
+                        parse_escape(pos, input)?;
+                    }
+                    Some(b'"') => {
                         break;
                     }
-                    _ => {
+                    Some(c @ 0..0x20) => {
+                        return Err(JsonErrorKind::UnexpectedCharacter(c as char));
+                    }
+                    Some(_) => {
                         *pos += 1;
                     }
+                    None => {
+                        return Err(JsonErrorKind::UnexpectedEof(
+                            "while skipping over value: string ended unexpectedly",
+                        ));
+                    }
                 }
             }
-            if *pos > bytes.len() {
-                return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
-                ));
+            if let Err(e) = core::str::from_utf8(&bytes[start..*pos]) {
+                return Err(JsonErrorKind::InvalidUtf8(format!(
+                    "Invalid UTF-8 sequence: {}",
+                    e
+                )));
             }
+            *pos += 1;
         }
         b't' => {
             // Expect "true"
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 69e4eb1..ab3b223 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -46,6 +46,7 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::NumberOutOfRange(n) => format!("Number out of range: {}", n),
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
+            JsonErrorKind::TooDeep => String::from("Values are nested too deeply"),
             JsonErrorKind::ReflectError(e) => format!("{}", e),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
         }
@@ -67,6 +68,8 @@ pub enum JsonErrorKind {
     StringAsNumber(String),
     /// An unexpected field name was encountered in the input.
     UnknownField(String),
+    /// Arrays and objects are nested too deeply.
+    TooDeep,
     /// The value does not fit the type it is read into.
     ReflectError(ReflectError),
     /// A string that could not be built into valid UTF-8 Unicode
-- 
2.43.0


From 81a026af6bd5b0a46df020209caaee28d2dea8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 15/47] fix: JSON reader took a renamed field by its old name,
 and a struct's default over its field's

---
 facet-json/src/deserialize.rs | 65 ++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 8d150b8..f5b278a 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -313,19 +313,15 @@ pub fn from_slice_wip<'input, 'a>(
 
                                 if let Def::Struct(struct_def) = shape.def {
                                     let field = struct_def.fields.iter().find(|f| {
-                                        // Check original name
-                                        if f.name == value {
-                                            return true;
-                                        }
-
-                                        // Check rename attribute
-                                        f.attributes.iter().any(|attr| {
+                                        // A renamed field only goes by its new name
+                                        let rename = f.attributes.iter().find_map(|attr| {
                                             if let &FieldAttribute::Rename(rename) = attr {
-                                                rename == value
+                                                Some(rename)
                                             } else {
-                                                false
+                                                None
                                             }
-                                        })
+                                        });
+                                        rename.unwrap_or(f.name) == value
                                     });
 
                                     if let Some(field) = field {
@@ -577,34 +573,31 @@ pub fn from_slice_wip<'input, 'a>(
                     if let Def::Struct(sd) = wip.shape().def {
                         for i in 0..sd.fields.len() {
                             if !wip.is_field_set(i).unwrap() {
-                                let missing_field: &'static str = sd.fields[i].name;
-                                if struct_has_default {
-                                    has_missing_fields = true;
-                                } else {
-                                    let field = sd.fields[i];
-                                    if let Some(attr) =
-                                        field.attributes.iter().find_map(|attr| match attr {
-                                            FieldAttribute::Default(d) => Some(d),
-                                            _ => None,
-                                        })
-                                    {
-                                        match attr {
-                                            Some(fun) => {
-                                                wip = reflect!(|wip| wip
-                                                    .field(i)
-                                                    .and_then(|wip| wip.put_from_fn(*fun))
-                                                    .and_then(|wip| wip.pop()));
-                                            }
-                                            None => {
-                                                wip = reflect!(|wip| wip
-                                                    .field(i)
-                                                    .and_then(|wip| wip.put_default())
-                                                    .and_then(|wip| wip.pop()));
-                                            }
+                                let field = sd.fields[i];
+                                if let Some(attr) =
+                                    field.attributes.iter().find_map(|attr| match attr {
+                                        FieldAttribute::Default(d) => Some(d),
+                                        _ => None,
+                                    })
+                                {
+                                    match attr {
+                                        Some(fun) => {
+                                            wip = reflect!(|wip| wip
+                                                .field(i)
+                                                .and_then(|wip| wip.put_from_fn(*fun))
+                                                .and_then(|wip| wip.pop()));
+                                        }
+                                        None => {
+                                            wip = reflect!(|wip| wip
+                                                .field(i)
+                                                .and_then(|wip| wip.put_default())
+                                                .and_then(|wip| wip.pop()));
                                         }
-                                    } else {
-                                        bail!(JsonErrorKind::MissingField(missing_field));
                                     }
+                                } else if struct_has_default {
+                                    has_missing_fields = true;
+                                } else {
+                                    bail!(JsonErrorKind::MissingField(field.name));
                                 }
                             }
                         }
-- 
2.43.0


From d8d9cfd6691bf7162c0247063f73f77c078c27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 16/47] fix: JSON errors could not be shown when their span
 left the input or split a character

---
 facet-json/src/deserialize/error.rs | 35 +++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index ab3b223..5e3be80 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -93,23 +93,34 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
 impl core::fmt::Display for JsonParseErrorWithContext<'_> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         let Ok(input_str) = core::str::from_utf8(self.input) else {
-            return write!(f, "(JSON input was invalid UTF-8)");
+            return write!(
+                f,
+                "{} at byte {} in path {} (JSON input was invalid UTF-8)",
+                self.message(),
+                self.pos,
+                self.path
+            );
         };
 
         let source_id = "json";
 
-        let (span_start, span_end) = match &self.kind {
-            JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
-            JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
-            _ => {
-                let span_end = if self.pos < self.input.len() {
-                    self.pos + 1
-                } else {
-                    self.input.len()
-                };
-                (self.pos, span_end)
-            }
+        let (mut span_start, mut span_end) = match &self.kind {
+            JsonErrorKind::StringAsNumber(s) => (self.pos.saturating_sub(s.len()), self.pos),
+            JsonErrorKind::UnknownField(f) => (
+                self.pos.saturating_sub(f.len() + 1),
+                self.pos.saturating_sub(1),
+            ),
+            _ => (self.pos, self.pos.saturating_add(1)),
         };
+        // The span must lie within the input, and not split a character
+        span_end = span_end.min(input_str.len());
+        span_start = span_start.min(span_end);
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
 
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
-- 
2.43.0


From 1d887b84dc0848726cc05b7f2a20261456f4d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 17/47] fix: JSON writer wrote NaN and unescaped map keys, and
 lost field names of enum variants

---
 facet-json/src/serialize.rs | 62 +++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..30db664 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -128,10 +128,10 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        write_json_float(writer, value, value.is_finite())
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        write_json_float(writer, value, value.is_finite())
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -140,6 +140,21 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// The name a field goes by in JSON: its own unless it's renamed
+fn serialized_name(field: &Field) -> &'static str {
+    field
+        .attributes
+        .iter()
+        .find_map(|attr| {
+            if let FieldAttribute::Rename(name) = attr {
+                Some(*name)
+            } else {
+                None
+            }
+        })
+        .unwrap_or(field.name)
+}
+
 /// Serializes a struct to JSON
 fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
     let struct_peek = peek
@@ -155,21 +170,8 @@ fn serialize_struct<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
         }
         first = false;
 
-        // Check for rename attribute
-        let field_name = field
-            .attributes
-            .iter()
-            .find_map(|attr| {
-                if let FieldAttribute::Rename(name) = attr {
-                    Some(*name)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(field.name);
-
         // Write field name
-        write_json_string(writer, field_name)?;
+        write_json_string(writer, serialized_name(field))?;
         write!(writer, ":")?;
 
         // Write field value
@@ -228,7 +230,7 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &key.to_string())?;
                 }
             }
             _ => {
@@ -270,19 +272,14 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write!(writer, ":")?;
 
         // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
+        let is_struct = variant.data.kind == StructKind::Struct;
+        if variant.data.fields.len() == 1 && !is_struct {
             let field = enum_peek.field(0).ok_or_else(|| {
                 io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
             })?;
             serialize(&field, writer)?;
         } else {
             // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
             if is_struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
@@ -295,7 +292,7 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                             format!("Failed to access enum field {}", i),
                         )
                     })?;
-                    let field_name = variant.data.fields[i].name;
+                    let field_name = serialized_name(&variant.data.fields[i]);
 
                     if !first {
                         write!(writer, ",")?;
@@ -353,6 +350,19 @@ fn serialize_option<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     }
 }
 
+/// Writes a float, or `null` if it's one that JSON has no notation for
+fn write_json_float<W: Write>(
+    writer: &mut W,
+    value: &dyn core::fmt::Display,
+    is_finite: bool,
+) -> io::Result<()> {
+    if is_finite {
+        write!(writer, "{}", value)
+    } else {
+        write!(writer, "null")
+    }
+}
+
 /// Properly escapes and writes a JSON string
 fn write_json_string<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
     write!(writer, "\"")?;
-- 
2.43.0


From 78ad5a2d7cd6a575fbdb4236200ecfd6a7f9bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 18/47] fix: derive kept the backslashes of escapes in rename
 literals

---
 facet-derive-emit/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..96b6e13 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,15 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
+                            let value = attr_str[equal_pos + 1..].trim();
+                            // A literal goes as it is, whatever it escapes
+                            let value = if value.ends_with(['"', '#']) {
+                                value.to_string()
+                            } else {
+                                format!("{value:?}")
+                            };
                             attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                                .push(format!(r#"::facet::FieldAttribute::Rename({value})"#));
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0


From 568debb04932718e64230857ef4c1b80a0976c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 19/47] fix: MessagePack reader refused signed ints, could not
 skip floats, bins and fixints, and overflowed the stack on nested unknown
 values

---
 facet-msgpack/src/from_msgpack.rs | 274 ++++++++++++++++++++----------
 1 file changed, 186 insertions(+), 88 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..361937b 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -96,6 +96,14 @@ struct Decoder<'input> {
     offset: usize,
 }
 
+/// Is this the prefix of a format that holds a signed integer?
+fn is_signed_int(prefix: u8) -> bool {
+    matches!(
+        prefix,
+        MSGPACK_INT8 | MSGPACK_INT16 | MSGPACK_INT32 | MSGPACK_INT64
+    ) || (MSGPACK_NEGFIXINT_MIN..=MSGPACK_NEGFIXINT_MAX).contains(&(prefix as i8))
+}
+
 impl<'input> Decoder<'input> {
     fn new(input: &'input [u8]) -> Self {
         Decoder { input, offset: 0 }
@@ -161,10 +169,49 @@ impl<'input> Decoder<'input> {
                 Ok(value)
             }
             prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
+            // A signed format may hold any value, including one an unsigned type can represent
+            prefix if is_signed_int(prefix) => {
+                let value = self.decode_signed(prefix)?;
+                u64::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
+            }
             _ => Err(DecodeError::UnexpectedType),
         }
     }
 
+    /// Decodes a MessagePack-encoded integer, in any of the formats of the int family,
+    /// as a signed 64-bit integer.
+    ///
+    /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
+    fn decode_i64(&mut self) -> Result<i64, DecodeError> {
+        match self.input.get(self.offset) {
+            Some(&prefix) if is_signed_int(prefix) => {
+                self.offset += 1;
+                self.decode_signed(prefix)
+            }
+            _ => i64::try_from(self.decode_u64()?).map_err(|_| DecodeError::IntegerOverflow),
+        }
+    }
+
+    /// Decodes what follows the prefix of one of the signed formats:
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
+    fn decode_signed(&mut self, prefix: u8) -> Result<i64, DecodeError> {
+        match prefix {
+            MSGPACK_INT8 => Ok(self.decode_u8()? as i8 as i64),
+            MSGPACK_INT16 => Ok(self.decode_u16()? as i16 as i64),
+            MSGPACK_INT32 => Ok(self.decode_u32()? as i32 as i64),
+            MSGPACK_INT64 => {
+                let high = self.decode_u32()? as u64;
+                let low = self.decode_u32()? as u64;
+                Ok(((high << 32) | low) as i64)
+            }
+            _ => Ok(prefix as i8 as i64),
+        }
+    }
+
     /// Decodes a MessagePack-encoded string.
     /// Handles the following MessagePack types:
     /// - fixstr (0xa0 - 0xbf): string up to 31 bytes
@@ -271,130 +318,179 @@ impl<'input> Decoder<'input> {
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
+        // How many values are left to skip: a container adds its elements, so that
+        // its nesting depth is not limited by the stack.
+        let mut remaining: u64 = 1;
+        while remaining > 0 {
+            remaining -= 1;
+            remaining += self.skip_one()?;
+        }
+        Ok(())
+    }
+
+    /// Skips over `len` bytes of input.
+    fn skip_bytes(&mut self, len: usize) -> Result<(), DecodeError> {
+        if len > self.input.len() - self.offset {
+            return Err(DecodeError::InsufficientData);
+        }
+        self.offset += len;
+        Ok(())
+    }
+
+    /// Skips a scalar, or the header of a container.
+    /// Returns how many values (keys included) that container holds.
+    fn skip_one(&mut self) -> Result<u64, DecodeError> {
         let prefix = self.decode_u8()?;
 
         match prefix {
             // String formats
             prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
                 let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
             MSGPACK_STR8 => {
                 let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
             MSGPACK_STR16 => {
                 let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
             MSGPACK_STR32 => {
                 let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
 
             // Integer formats
             MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
+                self.skip_bytes(1)?;
+                Ok(0)
             }
             MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
+                self.skip_bytes(2)?;
+                Ok(0)
             }
             MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
+                self.skip_bytes(4)?;
+                Ok(0)
             }
             MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
+                self.skip_bytes(8)?;
+                Ok(0)
             }
             MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
+                self.skip_bytes(1)?;
+                Ok(0)
             }
             MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
+                self.skip_bytes(2)?;
+                Ok(0)
             }
             MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
+                self.skip_bytes(4)?;
+                Ok(0)
             }
             MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
+                self.skip_bytes(8)?;
+                Ok(0)
+            }
+            // Fixed integers are their prefix
+            MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(0),
+            prefix if is_signed_int(prefix) => Ok(0),
+
+            // Float formats
+            MSGPACK_FLOAT32 => {
+                self.skip_bytes(4)?;
+                Ok(0)
+            }
+            MSGPACK_FLOAT64 => {
+                self.skip_bytes(8)?;
+                Ok(0)
             }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
 
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
+            // Binary formats
+            MSGPACK_BIN8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(len)?;
+                Ok(0)
             }
-            MSGPACK_MAP16 => {
+            MSGPACK_BIN16 => {
                 let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
-            MSGPACK_MAP32 => {
+            MSGPACK_BIN32 => {
                 let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
-                }
-                Ok(())
+                self.skip_bytes(len)?;
+                Ok(0)
             }
 
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
+            // Extension formats: a type byte, then the data
+            MSGPACK_FIXEXT1 => {
+                self.skip_bytes(1 + 1)?;
+                Ok(0)
             }
-            MSGPACK_ARRAY16 => {
+            MSGPACK_FIXEXT2 => {
+                self.skip_bytes(1 + 2)?;
+                Ok(0)
+            }
+            MSGPACK_FIXEXT4 => {
+                self.skip_bytes(1 + 4)?;
+                Ok(0)
+            }
+            MSGPACK_FIXEXT8 => {
+                self.skip_bytes(1 + 8)?;
+                Ok(0)
+            }
+            MSGPACK_FIXEXT16 => {
+                self.skip_bytes(1 + 16)?;
+                Ok(0)
+            }
+            MSGPACK_EXT8 => {
+                let len = self.decode_u8()? as usize;
+                self.skip_bytes(1)?;
+                self.skip_bytes(len)?;
+                Ok(0)
+            }
+            MSGPACK_EXT16 => {
                 let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
+                self.skip_bytes(1)?;
+                self.skip_bytes(len)?;
+                Ok(0)
             }
-            MSGPACK_ARRAY32 => {
+            MSGPACK_EXT32 => {
                 let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
-                }
-                Ok(())
+                self.skip_bytes(1)?;
+                self.skip_bytes(len)?;
+                Ok(0)
+            }
+
+            // Boolean and nil
+            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(0),
+
+            // Map format
+            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
+                let len = (prefix & 0x0f) as u64;
+                Ok(len * 2) // Keys and values
+            }
+            MSGPACK_MAP16 => {
+                let len = self.decode_u16()? as u64;
+                Ok(len * 2) // Keys and values
+            }
+            MSGPACK_MAP32 => {
+                let len = self.decode_u32()? as u64;
+                Ok(len * 2) // Keys and values
             }
 
+            // Array format
+            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => Ok((prefix & 0x0f) as u64),
+            MSGPACK_ARRAY16 => Ok(self.decode_u16()? as u64),
+            MSGPACK_ARRAY32 => Ok(self.decode_u32()? as u64),
+
             _ => Err(DecodeError::UnexpectedType),
         }
     }
@@ -431,18 +527,20 @@ impl<'input> Decoder<'input> {
                     }
                     wip.put(n as u8).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_i64()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n = self.decode_i64()?;
+                    let n = i32::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_i64()?;
+                    let n = i16::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_i64()?;
+                    let n = i8::try_from(n).map_err(|_| DecodeError::IntegerOverflow)?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
-- 
2.43.0


From f5e5fcd7f2945627f710911689675a475320194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 20/47] fix: MessagePack writer panicked on bool

---
 facet-msgpack/src/to_msgpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..a903224 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -47,6 +47,9 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
                     .get::<i8>()
                     .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
                 write_i8(writer, *value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                write_bool(writer, *value)
             } else {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
@@ -105,6 +108,10 @@ fn write_str<W: Write>(writer: &mut W, s: &str) -> io::Result<()> {
     writer.write_all(bytes)
 }
 
+fn write_bool<W: Write>(writer: &mut W, b: bool) -> io::Result<()> {
+    writer.write_all(&[if b { 0xc3 } else { 0xc2 }])
+}
+
 fn write_u8<W: Write>(writer: &mut W, n: u8) -> io::Result<()> {
     match n {
         0..=127 => {
-- 
2.43.0


From 8fd10bf3415401d5c565b94777e4dca544779885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 21/47] fix: hash of arrays and slices includes the length, as
 natively; debug text of 1-tuples has its comma

---
 facet-core/src/impls_core/array.rs | 4 +++-
 facet-core/src/impls_core/slice.rs | 5 ++++-
 facet-core/src/impls_core/tuple.rs | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 6413e1d..f431a5a 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
@@ -145,6 +145,8 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            // like the native implementation, which hashes a slice
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 596dae0..ed62976 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -155,6 +155,9 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 8e1cc57..3bf3b90 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -73,7 +73,7 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
                     }
 
-- 
2.43.0


From 29755c9d0d0f525b28a8bf194d0c27e22f7821c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 22/47] fix: Peek compared values and looked up map keys of
 another type as if they were its own

---
 facet-reflect/src/peek/map.rs   | 14 ++++++++++++--
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..4538791 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -70,7 +70,12 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Check if the map contains a key
-    pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+    ///
+    /// A key of another type than the map's keys is never contained.
+    pub fn contains_key<K: facet_core::Facet>(&self, key: &K) -> bool {
+        if self.def.k != K::SHAPE {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
@@ -78,7 +83,12 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Get a value from the map for the given key
-    pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+    ///
+    /// Returns `None` for a key of another type than the map's keys.
+    pub fn get<K: facet_core::Facet>(&self, key: &K) -> Option<Peek<'mem>> {
+        if self.def.k != K::SHAPE {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..1f6822d 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if the values have different types, or if equality comparison is not
+    /// supported for this scalar type
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if the values have different types, or if comparison is not supported for
+    /// this scalar type
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 5c1fcb500bc29692f00ff35c1ece65815ef75412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 23/47] fix: Wip::put_shape, Wip::put_from_fn, PeekList::new
 and PeekMap::new trusted their caller without being unsafe

---
 facet-json/src/deserialize.rs  | 24 +++-----------
 facet-reflect/src/peek/list.rs |  6 +++-
 facet-reflect/src/peek/map.rs  |  6 +++-
 facet-reflect/src/wip/mod.rs   | 60 ++++++++++++++++++++++++++++++----
 4 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index f5b278a..b2e3ec2 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -574,26 +574,12 @@ pub fn from_slice_wip<'input, 'a>(
                         for i in 0..sd.fields.len() {
                             if !wip.is_field_set(i).unwrap() {
                                 let field = sd.fields[i];
-                                if let Some(attr) =
-                                    field.attributes.iter().find_map(|attr| match attr {
-                                        FieldAttribute::Default(d) => Some(d),
-                                        _ => None,
-                                    })
+                                if field
+                                    .attributes
+                                    .iter()
+                                    .any(|attr| matches!(attr, FieldAttribute::Default(_)))
                                 {
-                                    match attr {
-                                        Some(fun) => {
-                                            wip = reflect!(|wip| wip
-                                                .field(i)
-                                                .and_then(|wip| wip.put_from_fn(*fun))
-                                                .and_then(|wip| wip.pop()));
-                                        }
-                                        None => {
-                                            wip = reflect!(|wip| wip
-                                                .field(i)
-                                                .and_then(|wip| wip.put_default())
-                                                .and_then(|wip| wip.pop()));
-                                        }
-                                    }
+                                    wip = reflect!(|wip| wip.put_field_default(i));
                                 } else if struct_has_default {
                                     has_missing_fields = true;
                                 } else {
diff --git a/facet-reflect/src/peek/list.rs b/facet-reflect/src/peek/list.rs
index e15c1b1..603e8f3 100644
--- a/facet-reflect/src/peek/list.rs
+++ b/facet-reflect/src/peek/list.rs
@@ -46,7 +46,11 @@ pub struct PeekList<'mem> {
 
 impl<'mem> PeekList<'mem> {
     /// Creates a new peek list
-    pub fn new(value: Peek<'mem>, def: ListDef) -> Self {
+    ///
+    /// # Safety
+    ///
+    /// `def` must be the definition of the list type that `value` is of.
+    pub unsafe fn new(value: Peek<'mem>, def: ListDef) -> Self {
         Self { value, def }
     }
 
diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index 4538791..a94ad3c 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -55,7 +55,11 @@ pub struct PeekMap<'mem> {
 
 impl<'mem> PeekMap<'mem> {
     /// Constructor
-    pub fn new(value: Peek<'mem>, def: MapDef) -> Self {
+    ///
+    /// # Safety
+    ///
+    /// `def` must be the definition of the map type that `value` is of.
+    pub unsafe fn new(value: Peek<'mem>, def: MapDef) -> Self {
         Self { value, def }
     }
 
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index d6b2599..159f2c7 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -9,7 +9,8 @@ use alloc::format;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
-    Def, DefaultInPlaceFn, Facet, Field, FieldError, PtrConst, PtrMut, PtrUninit, Shape, Variant,
+    Def, DefaultInPlaceFn, Facet, Field, FieldAttribute, FieldError, PtrConst, PtrMut, PtrUninit,
+    Shape, Variant,
 };
 use flat_map::FlatMap;
 
@@ -732,7 +733,8 @@ impl<'a> Wip<'a> {
     {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
-        let wip = self.put_shape(ptr_const, shape)?;
+        // SAFETY: the pointer is to a `T`, which isn't used again if it was moved from
+        let wip = unsafe { self.put_shape(ptr_const, shape) }?;
         core::mem::forget(t); // avoid double drop; ownership moved into Wip
         Ok(wip)
     }
@@ -745,7 +747,12 @@ impl<'a> Wip<'a> {
     }
 
     /// Puts a value from a `PtrConst` with the given shape into the current frame.
-    pub fn put_shape<'val>(
+    ///
+    /// # Safety
+    ///
+    /// `src` must point to a valid value of the type that `src_shape` describes. If this
+    /// succeeds the value has been moved out, and must not be used or dropped again.
+    pub unsafe fn put_shape<'val>(
         mut self,
         src: PtrConst<'val>,
         src_shape: &'static Shape,
@@ -816,7 +823,14 @@ impl<'a> Wip<'a> {
     }
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
-    pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
+    ///
+    /// # Safety
+    ///
+    /// The function must initialize the place with a value of the current frame's type.
+    pub unsafe fn put_from_fn(
+        mut self,
+        default_in_place: DefaultInPlaceFn,
+    ) -> Result<Self, ReflectError> {
         self.writable_frame()?;
         self.deinit_current();
         let frame = self.writable_frame()?;
@@ -844,7 +858,37 @@ impl<'a> Wip<'a> {
             });
         };
 
-        self.put_from_fn(default_in_place)
+        // SAFETY: the function is the one of the frame's own shape
+        unsafe { self.put_from_fn(default_in_place) }
+    }
+
+    /// Gives a field of the current struct the default that its attributes declare: the
+    /// value of `#[facet(default = "function")]`, or its type's own for `#[facet(default)]`.
+    pub fn put_field_default(self, index: usize) -> Result<Self, ReflectError> {
+        let shape = self.shape();
+        let wip = self.field(index)?;
+        let declared = match shape.def {
+            Def::Struct(sd) => sd.fields[index]
+                .attributes
+                .iter()
+                .find_map(|attr| match attr {
+                    FieldAttribute::Default(d) => Some(*d),
+                    _ => None,
+                }),
+            _ => None,
+        };
+        let wip = match declared {
+            // SAFETY: the function belongs to the field's own definition
+            Some(Some(default_in_place)) => unsafe { wip.put_from_fn(default_in_place) }?,
+            Some(None) => wip.put_default()?,
+            None => {
+                return Err(ReflectError::OperationFailed {
+                    shape,
+                    operation: "field declares no default",
+                });
+            }
+        };
+        wip.pop()
     }
 
     /// Gives every field of the current struct that isn't set the value it has in the
@@ -974,7 +1018,8 @@ impl<'a> Wip<'a> {
             });
         };
 
-        self.put_from_fn(default_in_place)
+        // SAFETY: the function is the one of the frame's own shape
+        unsafe { self.put_from_fn(default_in_place) }
     }
 
     /// Creates an empty map without pushing any entries
@@ -998,7 +1043,8 @@ impl<'a> Wip<'a> {
             });
         };
 
-        self.put_from_fn(default_in_place)
+        // SAFETY: the function is the one of the frame's own shape
+        unsafe { self.put_from_fn(default_in_place) }
     }
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
-- 
2.43.0


From 8ae4eedadfe98b6b3cb00c9e59d7ffe0f7029576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 24/47] fix: builder panicked (and then aborted) on types with
 more than 64 fields

---
 facet-reflect/src/wip/iset.rs | 67 +++++++++++++++++++++--------------
 facet-reflect/src/wip/mod.rs  |  3 +-
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e4ef47c..b7562d1 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -1,12 +1,18 @@
+use alloc::vec::Vec;
 use facet_core::Field;
 
-/// Keeps track of which fields were initialized, up to 64 fields
-#[derive(Clone, Copy, Default, Debug)]
-pub struct ISet(pub(crate) u64);
+/// Keeps track of which fields were initialized
+///
+/// The first 64 fields are tracked inline, any others on the heap.
+#[derive(Clone, Default, Debug)]
+pub struct ISet {
+    low: u64,
+    high: Vec<u64>,
+}
 
 impl ISet {
     /// The maximum index that can be tracked.
-    pub const MAX_INDEX: usize = 63;
+    pub const MAX_INDEX: usize = usize::MAX;
 
     /// Creates a new ISet with all (given) fields set.
     pub fn all(fields: &[Field]) -> Self {
@@ -17,50 +23,59 @@ impl ISet {
         iset
     }
 
+    /// The 64 bits that hold the given index, if they were allocated
+    fn word(&self, index: usize) -> u64 {
+        match index / 64 {
+            0 => self.low,
+            n => self.high.get(n - 1).copied().unwrap_or(0),
+        }
+    }
+
     /// Sets the bit at the given index.
     pub fn set(&mut self, index: usize) {
-        if index >= 64 {
-            panic!("ISet can only track up to 64 fields. Index {index} is out of bounds.");
-        }
-        self.0 |= 1 << index;
+        let word = match index / 64 {
+            0 => &mut self.low,
+            n => {
+                if self.high.len() < n {
+                    self.high.resize(n, 0);
+                }
+                &mut self.high[n - 1]
+            }
+        };
+        *word |= 1 << (index % 64);
     }
 
     /// Unsets the bit at the given index.
     pub fn unset(&mut self, index: usize) {
-        if index >= 64 {
-            panic!("ISet can only track up to 64 fields. Index {index} is out of bounds.");
+        let word = match index / 64 {
+            0 => Some(&mut self.low),
+            n => self.high.get_mut(n - 1),
+        };
+        if let Some(word) = word {
+            *word &= !(1 << (index % 64));
         }
-        self.0 &= !(1 << index);
     }
 
     /// Checks if the bit at the given index is set.
     pub fn has(&self, index: usize) -> bool {
-        if index >= 64 {
-            panic!("ISet can only track up to 64 fields. Index {index} is out of bounds.");
-        }
-        (self.0 & (1 << index)) != 0
+        (self.word(index) & (1 << (index % 64))) != 0
     }
 
     /// Checks if all bits up to the given count are set.
     pub fn are_all_set(&self, count: usize) -> bool {
-        if count > 64 {
-            panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
-        }
-        let mask = if count == 64 {
-            u64::MAX
-        } else {
-            (1 << count) - 1
-        };
-        self.0 & mask == mask
+        let full_words = (0..count / 64).all(|i| self.word(i * 64) == u64::MAX);
+        let mask = (1 << (count % 64)) - 1;
+        full_words && self.word(count) & mask == mask
     }
 
     /// Checks if any bit in the ISet is set.
     pub fn is_any_set(&self) -> bool {
-        self.0 != 0
+        self.low != 0 || self.high.iter().any(|word| *word != 0)
     }
 
     /// Clears all bits in the ISet.
     pub fn clear(&mut self) {
-        self.0 = 0;
+        self.low = 0;
+        self.high.clear();
     }
 }
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 159f2c7..7ec6bb6 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -156,10 +156,9 @@ impl Frame {
         }
         let complete = self.is_fully_initialized();
         let places = self.places();
-        let fields = self.istate.fields;
         // forget about the contents first, so that a panicking `Drop` cannot run them twice
         self.istate.variant = None;
-        ISet::clear(&mut self.istate.fields);
+        let fields = core::mem::take(&mut self.istate.fields);
 
         if complete {
             self.evict_children(places, istates);
-- 
2.43.0


From 2ed1047a5785d357474d60b1da64015e901351fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 25/47] fix: derive ignored the container attributes and the
 invariants of enums

---
 facet-derive-emit/src/lib.rs            | 41 +++++++++++++++++++++
 facet-derive-emit/src/process_enum.rs   | 27 +++++++++++---
 facet-derive-emit/src/process_struct.rs | 48 +------------------------
 3 files changed, 65 insertions(+), 51 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 96b6e13..34906ba 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -330,6 +330,47 @@ fn build_container_attributes(attributes: &[Attribute]) -> String {
     }
 }
 
+/// Sets the invariants of a `vtable` being built, if any were declared
+fn build_invariants(attributes: &[Attribute], type_name: &str, generics_use: &str) -> String {
+    let tests = attributes
+        .iter()
+        .filter_map(|attr| match &attr.body.content {
+            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
+                FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
+                _ => None,
+            },
+            _ => None,
+        })
+        .map(|invariant| {
+            let invariant_name = invariant.value.as_str();
+            format!(
+                r#"
+                    if !value.{invariant_name}() {{
+                        return false;
+                    }}
+                    "#
+            )
+        })
+        .collect::<Vec<_>>()
+        .join("\n");
+
+    if tests.is_empty() {
+        return String::new();
+    }
+
+    format!(
+        r#"
+            unsafe fn invariants<'mem>(value: ::facet::PtrConst<'mem>) -> bool {{
+                let value = value.get::<{type_name}<{generics_use}>>();
+                {tests}
+                true
+            }}
+
+            vtable.invariants = Some(invariants);
+            "#
+    )
+}
+
 fn get_discriminant_value(lit: &Literal) -> i64 {
     let s = lit.to_string();
     get_discriminant_value_from_str(&s)
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..a8032f3 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -164,6 +164,27 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
         String::new()
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
+    let set_attributes = build_container_attributes(&parsed.attributes);
+    let set_invariants = build_invariants(&parsed.attributes, &enum_name, &generics_use);
+    let vtable = if set_invariants.is_empty() {
+        format!(
+            r#"::facet::value_vtable!(
+                Self,
+                |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
+            )"#
+        )
+    } else {
+        format!(
+            r#"&const {{
+                let mut vtable = ::facet::value_vtable_inner!(
+                    Self,
+                    |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
+                );
+                {set_invariants}
+                vtable
+            }}"#
+        )
+    };
 
     // Generate the impl
     let output = format!(
@@ -185,10 +206,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
             .id(::facet::ConstTypeId::of::<Self>())
             .layout(::core::alloc::Layout::new::<Self>())
             {type_params}
-            .vtable(::facet::value_vtable!(
-                Self,
-                |f, _opts| ::core::fmt::Write::write_str(f, "{enum_name}")
-            ))
+            .vtable({vtable})
             .def(::facet::Def::Enum(::facet::EnumDef::builder()
                 // Use variant expressions that just reference the shadow structs
                 // which are now defined above
@@ -196,6 +214,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
diff --git a/facet-derive-emit/src/process_struct.rs b/facet-derive-emit/src/process_struct.rs
index e5c0d5e..37012a8 100644
--- a/facet-derive-emit/src/process_struct.rs
+++ b/facet-derive-emit/src/process_struct.rs
@@ -79,53 +79,7 @@ pub(crate) fn process_struct(parsed: Struct) -> TokenStream {
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
 
-    let mut invariant_maybe = "".to_string();
-    let invariant_attrs = parsed
-        .attributes
-        .iter()
-        .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
-                FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
-                _ => None,
-            },
-            _ => None,
-        })
-        .collect::<Vec<_>>();
-
-    if !invariant_attrs.is_empty() {
-        let tests = invariant_attrs
-            .iter()
-            .map(|invariant| {
-                let invariant_name = invariant.value.as_str();
-                format!(
-                    r#"
-                    if !value.{invariant_name}() {{
-                        return false;
-                    }}
-                    "#
-                )
-            })
-            .collect::<Vec<_>>()
-            .join("\n");
-
-        let invariant_fn = format!(
-            r#"
-            unsafe fn invariants<'mem>(value: ::facet::PtrConst<'mem>) -> bool {{
-                let value = value.get::<{struct_name}<{generics_use}>>();
-                {tests}
-                true
-            }}
-            "#
-        );
-
-        invariant_maybe = format!(
-            r#"
-            {invariant_fn}
-
-            vtable.invariants = Some(invariants);
-            "#
-        );
-    }
+    let invariant_maybe = build_invariants(&parsed.attributes, &struct_name, &generics_use);
 
     // Generate the impl
     let output = format!(
-- 
2.43.0


From 43908e099ee5e7288dc82cdf96dda849e81c127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 26/47] fix: derive kept the r# of raw identifiers in names,
 and took Self in a variant for its shadow struct

---
 facet-derive-emit/src/lib.rs          | 28 ++++++++++++++++++++++++++-
 facet-derive-emit/src/process_enum.rs | 19 +++++++++++-------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 34906ba..114a8e6 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -114,6 +114,31 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     }
 }
 
+/// The name an identifier stands for: `r#type` is called `type`
+pub(crate) fn without_raw_prefix(ident: &str) -> &str {
+    ident.strip_prefix("r#").unwrap_or(ident)
+}
+
+/// The type of a variant's field, as it has to be written inside of a shadow struct:
+/// `Self` would be the shadow struct there.
+pub(crate) fn shadow_field_type(typ: &str, enum_name: &str, generics_use: &str) -> String {
+    let is_ident = |c: char| c.is_alphanumeric() || c == '_';
+    let mut out = String::new();
+    let mut rest = typ;
+    while let Some(pos) = rest.find("Self") {
+        let (before, after) = (&rest[..pos], &rest[pos + 4..]);
+        out.push_str(before);
+        if before.ends_with(is_ident) || after.starts_with(is_ident) {
+            out.push_str("Self");
+        } else {
+            out.push_str(&format!("{enum_name}<{generics_use}>"));
+        }
+        rest = after;
+    }
+    out.push_str(rest);
+    out
+}
+
 /// Generates field definitions for a struct
 ///
 /// `base_field_offset` applies a shift to the field offset, which is useful for
@@ -214,9 +239,10 @@ pub(crate) fn gen_struct_field(
         .unwrap_or_default();
 
     // Generate each field definition
+    let shown_name = without_raw_prefix(field_name);
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{shown_name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index a8032f3..78f2b24 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -275,7 +275,8 @@ fn process_c_style_enum(
         })
         .map(|variant_name| {
             format!(
-                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{variant_name}>"
+                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{}>",
+                without_raw_prefix(&variant_name)
             )
         })
         .collect::<Vec<_>>()
@@ -304,7 +305,7 @@ fn process_c_style_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = without_raw_prefix(&unit.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -324,7 +325,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = without_raw_prefix(&tuple.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -339,6 +340,7 @@ fn process_c_style_enum(
                     .enumerate()
                     .map(|(idx, field)| {
                         let typ = VerbatimDisplay(&field.value.typ).to_string();
+                        let typ = shadow_field_type(&typ, enum_name, generics_use);
                         format!("_{}: {}", idx, typ)
                     })
                     .collect::<Vec<String>>()
@@ -389,7 +391,7 @@ fn process_c_style_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = without_raw_prefix(&struct_var.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
@@ -404,6 +406,7 @@ fn process_c_style_enum(
                     .map(|field| {
                         let name = field.value.name.to_string();
                         let typ = VerbatimDisplay(&field.value.typ).to_string();
+                        let typ = shadow_field_type(&typ, enum_name, generics_use);
                         format!("{}: {}", name, typ)
                     })
                     .collect::<Vec<String>>()
@@ -494,7 +497,7 @@ fn process_primitive_enum(
         }
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
-                let variant_name = unit.name.to_string();
+                let variant_name = without_raw_prefix(&unit.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 variant_expressions.push(format!(
@@ -507,7 +510,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Tuple(tuple) => {
-                let variant_name = tuple.name.to_string();
+                let variant_name = without_raw_prefix(&tuple.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -522,6 +525,7 @@ fn process_primitive_enum(
                     .enumerate()
                     .map(|(idx, field)| {
                         let typ = VerbatimDisplay(&field.value.typ).to_string();
+                        let typ = shadow_field_type(&typ, enum_name, generics_use);
                         format!("_{}: {}", idx, typ)
                     })
                     .collect::<Vec<String>>()
@@ -570,7 +574,7 @@ fn process_primitive_enum(
                 ));
             }
             EnumVariantData::Struct(struct_var) => {
-                let variant_name = struct_var.name.to_string();
+                let variant_name = without_raw_prefix(&struct_var.name.to_string()).to_string();
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
@@ -585,6 +589,7 @@ fn process_primitive_enum(
                     .map(|field| {
                         let name = field.value.name.to_string();
                         let typ = VerbatimDisplay(&field.value.typ).to_string();
+                        let typ = shadow_field_type(&typ, enum_name, generics_use);
                         format!("{}: {}", name, typ)
                     })
                     .collect::<Vec<String>>()
-- 
2.43.0


From c5d103c7fbb0ab1be9e833f75916e5910a76db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 27/47] fix: debug text of tuples, options, lists and maps
 ignored the alternate form

---
 facet-core/src/impls_alloc/btreemap.rs |  19 +-
 facet-core/src/impls_alloc/vec.rs      |  17 +-
 facet-core/src/impls_core/array.rs     |  18 +-
 facet-core/src/impls_core/option.rs    |  16 +-
 facet-core/src/impls_core/slice.rs     |  17 +-
 facet-core/src/impls_core/tuple.rs     | 872 ++++++++++++-------------
 facet-core/src/impls_std/hashmap.rs    |  19 +-
 facet-core/src/types/value.rs          |  29 +
 facet-dev/src/tuples.rs                |  24 +-
 9 files changed, 499 insertions(+), 532 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 0c268bc..8e7bc48 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -6,8 +6,8 @@ use alloc::{
 };
 
 use crate::{
-    ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    PtrUninit, Shape, ValueVTable,
+    ConstTypeId, DebugPart, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst,
+    PtrMut, PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -65,16 +65,11 @@ where
                             let value = value.get::<BTreeMap<K, V>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
-                            write!(f, "{{")?;
-                            for (i, (key, val)) in value.iter().enumerate() {
-                                if i > 0 {
-                                    write!(f, ", ")?;
-                                }
-                                (k_debug)(PtrConst::new(key as *const _), f)?;
-                                write!(f, ": ")?;
-                                (v_debug)(PtrConst::new(val as *const _), f)?;
-                            }
-                            write!(f, "}}")
+                            f.debug_map()
+                                .entries(value.iter().map(|(key, val)| {
+                                    (DebugPart::new(key, k_debug), DebugPart::new(val, v_debug))
+                                }))
+                                .finish()
                         })
                     }
 
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index b71e8a6..30dab1d 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -49,19 +49,10 @@ where
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<Vec<T>>() };
-                            write!(f, "[")?;
-                            for (i, item) in value.iter().enumerate() {
-                                if i > 0 {
-                                    write!(f, ", ")?;
-                                }
-                                unsafe {
-                                    (T::SHAPE.vtable.debug.unwrap_unchecked())(
-                                        PtrConst::new(item),
-                                        f,
-                                    )?;
-                                }
-                            }
-                            write!(f, "]")
+                            let debug = unsafe { T::SHAPE.vtable.debug.unwrap_unchecked() };
+                            f.debug_list()
+                                .entries(value.iter().map(|item| unsafe { DebugPart::new(item, debug) }))
+                                .finish()
                         });
                     }
 
diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index f431a5a..fe3231a 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -52,20 +52,10 @@ where
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<[T; L]>() };
-                            write!(f, "[")?;
-
-                            for (idx, value) in value.iter().enumerate() {
-                                unsafe {
-                                    (T::SHAPE.vtable.debug.unwrap_unchecked())(
-                                        PtrConst::new(value),
-                                        f,
-                                    )?
-                                };
-                                if idx != L - 1 {
-                                    write!(f, ", ")?;
-                                }
-                            }
-                            write!(f, "]")
+                            let debug = unsafe { T::SHAPE.vtable.debug.unwrap_unchecked() };
+                            f.debug_list()
+                                .entries(value.iter().map(|item| unsafe { DebugPart::new(item, debug) }))
+                                .finish()
                         });
                     }
                     if T::SHAPE.vtable.eq.is_some() {
diff --git a/facet-core/src/impls_core/option.rs b/facet-core/src/impls_core/option.rs
index 56aa84b..9fb4654 100644
--- a/facet-core/src/impls_core/option.rs
+++ b/facet-core/src/impls_core/option.rs
@@ -1,7 +1,7 @@
 use core::{alloc::Layout, mem::MaybeUninit};
 
 use crate::{
-    ConstTypeId, Def, Facet, OptionDef, OptionVTable, PtrConst, PtrUninit, Shape,
+    ConstTypeId, DebugPart, Def, Facet, OptionDef, OptionVTable, PtrConst, PtrUninit, Shape,
     value_vtable_inner,
 };
 
@@ -61,18 +61,12 @@ unsafe impl<T: Facet> Facet for Option<T> {
                         vtable.debug = Some(|this, f| {
                             let this = unsafe { this.get::<Self>() };
                             if let Some(value) = &this {
-                                write!(f, "Some(")?;
-                                unsafe {
-                                    (T::SHAPE.vtable.debug.unwrap_unchecked())(
-                                        PtrConst::new(value),
-                                        f,
-                                    )?;
-                                }
-                                write!(f, ")")?;
+                                let debug = unsafe { T::SHAPE.vtable.debug.unwrap_unchecked() };
+                                let value = unsafe { DebugPart::new(value, debug) };
+                                f.debug_tuple("Some").field(&value).finish()
                             } else {
-                                write!(f, "None")?;
+                                f.write_str("None")
                             }
-                            Ok(())
                         });
                     }
 
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index ed62976..79dfd71 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -75,19 +75,10 @@ where
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<&[T]>() };
-                            write!(f, "[")?;
-                            for (i, item) in value.iter().enumerate() {
-                                if i > 0 {
-                                    write!(f, ", ")?;
-                                }
-                                unsafe {
-                                    (T::SHAPE.vtable.debug.unwrap_unchecked())(
-                                        PtrConst::new(item as *const _),
-                                        f,
-                                    )?;
-                                }
-                            }
-                            write!(f, "]")
+                            let debug = unsafe { T::SHAPE.vtable.debug.unwrap_unchecked() };
+                            f.debug_list()
+                                .entries(value.iter().map(|item| unsafe { DebugPart::new(item, debug) }))
+                                .finish()
                         });
                     }
 
diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 3bf3b90..f717032 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -4,7 +4,7 @@
 use core::{alloc::Layout, fmt};
 
 use crate::{
-    Characteristic, ConstTypeId, Def, Facet, Field, FieldFlags, PtrConst, Shape, Struct,
+    Characteristic, ConstTypeId, DebugPart, Def, Facet, Field, FieldFlags, PtrConst, Shape, Struct,
     TypeNameOpts, ValueVTable,
 };
 
@@ -68,12 +68,14 @@ where
                     if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ",)")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -136,17 +138,20 @@ where
                     if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -224,22 +229,26 @@ where
                     if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -347,27 +356,32 @@ where
                     if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -500,32 +514,38 @@ where
                     ]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3, T4)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -690,37 +710,44 @@ where
                     ]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -904,42 +931,50 @@ where
                     ]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.6,
+                                        T6::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -1142,47 +1177,56 @@ where
                     ]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.6,
+                                        T6::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.7,
+                                        T7::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -1405,52 +1449,62 @@ where
                         builder = builder.debug(|value, f| {
                             let value =
                                 unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.6,
+                                        T6::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.7,
+                                        T7::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.8,
+                                        T8::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -1693,57 +1747,68 @@ where
                         builder = builder.debug(|value, f| {
                             let value =
                                 unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.6,
+                                        T6::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.7,
+                                        T7::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.8,
+                                        T8::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.9,
+                                        T9::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -2018,62 +2083,74 @@ where
                             let value = unsafe {
                                 value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
                             };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.0,
+                                        T0::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.1,
+                                        T1::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.2,
+                                        T2::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.3,
+                                        T3::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.4,
+                                        T4::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.5,
+                                        T5::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.6,
+                                        T6::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.7,
+                                        T7::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.8,
+                                        T8::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.9,
+                                        T9::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .field(&unsafe {
+                                    DebugPart::new(
+                                        &value.10,
+                                        T10::SHAPE.vtable.debug.unwrap_unchecked(),
+                                    )
+                                })
+                                .finish()
                         });
                     }
 
@@ -2340,103 +2417,20 @@ where
                     ]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() };
-                            write!(f, "(")?;
-                            unsafe {
-                                let ptr = &value.0 as *const T0;
-                                (T0::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.1 as *const T1;
-                                (T1::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.2 as *const T2;
-                                (T2::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.3 as *const T3;
-                                (T3::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.4 as *const T4;
-                                (T4::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.5 as *const T5;
-                                (T5::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.6 as *const T6;
-                                (T6::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.7 as *const T7;
-                                (T7::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.8 as *const T8;
-                                (T8::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.9 as *const T9;
-                                (T9::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.10 as *const T10;
-                                (T10::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ", ")?;
-                            unsafe {
-                                let ptr = &value.11 as *const T11;
-                                (T11::SHAPE.vtable.debug.unwrap_unchecked())(
-                                    PtrConst::new(ptr),
-                                    f,
-                                )
-                            }?;
-                            write!(f, ")")
+                            f.debug_tuple("")
+                                .field(&unsafe { DebugPart::new(&value.0, T0::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.1, T1::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.2, T2::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.3, T3::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.4, T4::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.5, T5::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.6, T6::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.7, T7::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.8, T8::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.9, T9::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.10, T10::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .field(&unsafe { DebugPart::new(&value.11, T11::SHAPE.vtable.debug.unwrap_unchecked()) })
+                                .finish()
                         });
                     }
 
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 1d755a0..4bf262e 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -10,8 +10,8 @@ use std::hash::{DefaultHasher, RandomState};
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
-    ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
-    ScalarDef, Shape, TypeParam, ValueVTable, value_vtable,
+    ConstTypeId, DebugPart, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits,
+    ScalarAffinity, ScalarDef, Shape, TypeParam, ValueVTable, value_vtable,
 };
 
 struct HashMapIterator<'mem, K> {
@@ -75,16 +75,11 @@ where
                             let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
-                            write!(f, "{{")?;
-                            for (i, (key, val)) in value.iter().enumerate() {
-                                if i > 0 {
-                                    write!(f, ", ")?;
-                                }
-                                (k_debug)(PtrConst::new(key as *const _), f)?;
-                                write!(f, ": ")?;
-                                (v_debug)(PtrConst::new(val as *const _), f)?;
-                            }
-                            write!(f, "}}")
+                            f.debug_map()
+                                .entries(value.iter().map(|(key, val)| {
+                                    (DebugPart::new(key, k_debug), DebugPart::new(val, v_debug))
+                                }))
+                                .finish()
                         });
                     }
 
diff --git a/facet-core/src/types/value.rs b/facet-core/src/types/value.rs
index a44ac3b..6cbba4b 100644
--- a/facet-core/src/types/value.rs
+++ b/facet-core/src/types/value.rs
@@ -297,6 +297,35 @@ pub type DisplayFn =
 pub type DebugFn =
     for<'mem> unsafe fn(value: PtrConst<'mem>, f: &mut core::fmt::Formatter) -> core::fmt::Result;
 
+/// A part of a value, shown by the debug function of its own shape
+///
+/// Handing these to [`core::fmt::Formatter::debug_list`] and friends makes containers honor the
+/// formatting options (`{:#?}`) as their native implementation does.
+pub(crate) struct DebugPart<'mem> {
+    value: PtrConst<'mem>,
+    debug: DebugFn,
+}
+
+impl<'mem> DebugPart<'mem> {
+    /// Shows `value` with `debug`
+    ///
+    /// # Safety
+    ///
+    /// `debug` must be the debug function of `T`'s shape.
+    pub(crate) unsafe fn new<T>(value: &'mem T, debug: DebugFn) -> Self {
+        Self {
+            value: PtrConst::new(value),
+            debug,
+        }
+    }
+}
+
+impl core::fmt::Debug for DebugPart<'_> {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        unsafe { (self.debug)(self.value, f) }
+    }
+}
+
 /// VTable for common operations that can be performed on any shape
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 #[repr(C)]
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 84bf0c5..14df793 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -16,7 +16,9 @@ pub fn generate() -> String {
 
     w!("use core::{{alloc::Layout, fmt}};\n\n");
     w!("use crate::{{\n");
-    w!("    Characteristic, ConstTypeId, Def, Facet, Field, FieldFlags, PtrConst, Shape,\n");
+    w!(
+        "    Characteristic, ConstTypeId, DebugPart, Def, Facet, Field, FieldFlags, PtrConst, Shape,\n"
+    );
     w!("    Struct, TypeNameOpts, ValueVTable,\n");
     w!("}};
 \n");
@@ -192,28 +194,14 @@ pub fn generate() -> String {
                 type_params
             );
         }
-        w!("                            write!(f, \"(\")?;\n");
-
+        w!("                            f.debug_tuple(\"\")\n");
         for i in 0..n {
-            if i > 0 {
-                w!("                            write!(f, \", \")?;\n");
-            }
-            w!("                            unsafe {{\n");
             w!(
-                "                                let ptr = &value.{0} as *const T{0};\n",
+                "                                .field(&unsafe {{ DebugPart::new(&value.{0}, T{0}::SHAPE.vtable.debug.unwrap_unchecked()) }})\n",
                 i
             );
-            w!(
-                "                                (T{0}::SHAPE.vtable.debug.unwrap_unchecked())(\n",
-                i
-            );
-            w!("                                    PtrConst::new(ptr),\n");
-            w!("                                    f,\n");
-            w!("                                )\n");
-            w!("                            }}?;\n");
         }
-
-        w!("                            write!(f, \")\")\n");
+        w!("                                .finish()\n");
         w!("                        }});\n");
         w!("                    }}\n\n");
 
-- 
2.43.0


From e30c333a54f1d3bd4d5a36e924f502cfc7b07f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 28/47] fix: the pretty-printer showed sensitive fields of enum
 variants

---
 facet-pretty/src/printer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..849a7cf 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -522,6 +522,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Sensitive fields of variants are redacted like those of structs
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 7e9355a436ef699d7c27259ab11640df0c7030fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 29/47] fix: the pretty-printer showed sensitive fields held by
 arrays and smart pointers

---
 facet-pretty/src/printer.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 849a7cf..1b89631 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -9,7 +9,7 @@ use core::{
 use std::{collections::HashMap, hash::DefaultHasher};
 use yansi::Paint as _;
 
-use facet_core::{Def, Facet, FieldFlags, StructKind, TypeNameOpts};
+use facet_core::{Def, Facet, Field, FieldFlags, Shape, StructKind, TypeNameOpts};
 use facet_reflect::{Peek, ValueId};
 
 use crate::color::ColorGenerator;
@@ -366,6 +366,12 @@ impl PrettyPrinter {
                                 }
                             }
                         }
+                        _ if may_hold_sensitive(item.value.shape(), &mut Vec::new()) => {
+                            // The type's own `Debug` knows nothing about sensitive fields
+                            self.write_type_name(f, &item.value)?;
+                            self.write_punctuation(f, " ")?;
+                            self.write_redacted(f, "[REDACTED]")?;
+                        }
                         _ => {
                             write!(f, "unsupported peek variant: {:?}", item.value)?;
                         }
@@ -825,6 +831,30 @@ impl PrettyPrinter {
     }
 }
 
+/// Can a value of this shape hold a sensitive field somewhere inside?
+fn may_hold_sensitive(shape: &'static Shape, seen: &mut Vec<&'static Shape>) -> bool {
+    if seen.contains(&shape) {
+        return false;
+    }
+    seen.push(shape);
+    let fields = |fields: &'static [Field], seen: &mut Vec<&'static Shape>| {
+        fields.iter().any(|field| {
+            field.flags.contains(FieldFlags::SENSITIVE) || may_hold_sensitive(field.shape(), seen)
+        })
+    };
+    match shape.def {
+        Def::Struct(def) => fields(def.fields, seen),
+        Def::Enum(def) => def.variants.iter().any(|v| fields(v.data.fields, seen)),
+        Def::Map(def) => may_hold_sensitive(def.k, seen) || may_hold_sensitive(def.v, seen),
+        Def::List(def) => may_hold_sensitive(def.t(), seen),
+        Def::Array(def) => may_hold_sensitive(def.t(), seen),
+        Def::Slice(def) => may_hold_sensitive(def.t(), seen),
+        Def::Option(def) => may_hold_sensitive(def.t(), seen),
+        Def::SmartPointer(def) => def.pointee.is_some_and(|p| may_hold_sensitive(p, seen)),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 74455871bd7138b679e2871308a672c7019115c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 30/47] fix: the pretty-printer opened a bracket at the depth
 limit and never closed it

---
 facet-pretty/src/printer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 1b89631..3b0c03b 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -140,6 +140,7 @@ impl PrettyPrinter {
                         if item.format_depth > max_depth {
                             self.write_punctuation(f, "[")?;
                             write!(f, "...")?;
+                            self.write_punctuation(f, "]")?;
                             continue;
                         }
                     }
-- 
2.43.0


From a266debc09bb89144b6ec74858baccd2d857e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 31/47] fix: the pretty-printer took zero-sized values for
 cycles

---
 facet-pretty/src/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 3b0c03b..adbd4cd 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -146,7 +146,9 @@ impl PrettyPrinter {
                     }
 
                     // Check for cycles - if we've seen this value before at a different type_depth
-                    if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
+                    // (zero-sized values share their addresses, and cannot hold anything)
+                    if item.value.shape().layout.size() == 0 {
+                    } else if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
                         // If the current type_depth is significantly deeper than when we first saw this value,
                         // we have a true cycle, not just a transparent wrapper
                         if item.type_depth > ptr_type_depth + 1 {
-- 
2.43.0


From 11e4b49656126544d96ad9b726f724d325cdbe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 32/47] fix: the pretty-printer did not indent what follows the
 docs of a nested type

---
 facet-pretty/src/printer.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index adbd4cd..e090cc5 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -220,7 +220,12 @@ impl PrettyPrinter {
                             if !doc_comments.is_empty() {
                                 for line in doc_comments {
                                     self.write_comment(f, &format!("///{}", line))?;
-                                    writeln!(f)?;
+                                    write!(
+                                        f,
+                                        "\n{:width$}",
+                                        "",
+                                        width = item.format_depth * self.indent_size
+                                    )?;
                                 }
                             }
 
@@ -297,13 +302,23 @@ impl PrettyPrinter {
                             // Display doc comments before the type name
                             for line in doc_comments {
                                 self.write_comment(f, &format!("///{}", line))?;
-                                writeln!(f)?;
+                                write!(
+                                    f,
+                                    "\n{:width$}",
+                                    "",
+                                    width = item.format_depth * self.indent_size
+                                )?;
                             }
 
                             // Show variant docs
                             for line in variant.doc {
                                 self.write_comment(f, &format!("///{}", line))?;
-                                writeln!(f)?;
+                                write!(
+                                    f,
+                                    "\n{:width$}",
+                                    "",
+                                    width = item.format_depth * self.indent_size
+                                )?;
                             }
 
                             // Print the enum name and separator
-- 
2.43.0


From d0c75538b21652e740142015a7f26e4f2811ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 33/47] fix: the pretty-printer indented byte lists by a fixed
 width and left their colours on

---
 facet-pretty/src/printer.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index e090cc5..f085e49 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -260,7 +260,6 @@ impl PrettyPrinter {
                                 // Push back the item with the next state to continue processing list items
                                 item.state = StackState::ProcessBytesItem { item_index: 0 };
                                 writeln!(f)?;
-                                write!(f, " ")?;
 
                                 // TODO: write all the bytes here instead?
                             } else {
@@ -635,21 +634,18 @@ impl PrettyPrinter {
                         continue;
                     }
 
-                    // On the first byte, write the opening byte sequence indicator
-                    if item_index == 0 {
-                        write!(f, " ")?;
-                    }
-
                     // Only display 16 bytes per line
-                    if item_index > 0 && item_index % 16 == 0 {
-                        writeln!(f)?;
+                    if item_index % 16 == 0 {
+                        if item_index > 0 {
+                            writeln!(f)?;
+                        }
                         write!(
                             f,
                             "{:width$}",
                             "",
                             width = item.format_depth * self.indent_size
                         )?;
-                    } else if item_index > 0 {
+                    } else {
                         write!(f, " ")?;
                     }
 
@@ -673,7 +669,9 @@ impl PrettyPrinter {
                     write!(f, "{:02x}", *byte)?;
 
                     // Reset color if needed
-                    // Reset color already handled by stylize
+                    if self.use_colors {
+                        write!(f, "\x1b[0m")?;
+                    }
 
                     // Push back current item to continue after formatting byte
                     item.state = StackState::ProcessBytesItem {
-- 
2.43.0


From 4e698a252e91e2820385f5c9c548ee4fd93d5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 34/47] fix: the pretty-printer panicked where indentation
 exceeds the limit of formatting widths

---
 facet-pretty/src/printer.rs | 135 ++++++++++--------------------------
 1 file changed, 35 insertions(+), 100 deletions(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index f085e49..52b2ea7 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -220,12 +220,8 @@ impl PrettyPrinter {
                             if !doc_comments.is_empty() {
                                 for line in doc_comments {
                                     self.write_comment(f, &format!("///{}", line))?;
-                                    write!(
-                                        f,
-                                        "\n{:width$}",
-                                        "",
-                                        width = item.format_depth * self.indent_size
-                                    )?;
+                                    writeln!(f)?;
+                                    self.write_indent(f, item.format_depth)?;
                                 }
                             }
 
@@ -301,23 +297,15 @@ impl PrettyPrinter {
                             // Display doc comments before the type name
                             for line in doc_comments {
                                 self.write_comment(f, &format!("///{}", line))?;
-                                write!(
-                                    f,
-                                    "\n{:width$}",
-                                    "",
-                                    width = item.format_depth * self.indent_size
-                                )?;
+                                writeln!(f)?;
+                                self.write_indent(f, item.format_depth)?;
                             }
 
                             // Show variant docs
                             for line in variant.doc {
                                 self.write_comment(f, &format!("///{}", line))?;
-                                write!(
-                                    f,
-                                    "\n{:width$}",
-                                    "",
-                                    width = item.format_depth * self.indent_size
-                                )?;
+                                writeln!(f)?;
+                                self.write_indent(f, item.format_depth)?;
                             }
 
                             // Print the enum name and separator
@@ -400,13 +388,8 @@ impl PrettyPrinter {
                         let peek_struct = item.value.into_struct().unwrap();
                         if field_index >= struct_.fields.len() {
                             // All fields processed, write closing brace
-                            write!(
-                                f,
-                                "{:width$}{}",
-                                "",
-                                self.style_punctuation("}"),
-                                width = (item.format_depth - 1) * self.indent_size
-                            )?;
+                            self.write_indent(f, item.format_depth - 1)?;
+                            self.write_punctuation(f, "}")?;
                             continue;
                         }
 
@@ -422,24 +405,14 @@ impl PrettyPrinter {
                             // Hard-code consistent indentation for doc comments
                             for line in field.doc {
                                 // Use exactly the same indentation as fields (2 spaces)
-                                write!(
-                                    f,
-                                    "{:width$}",
-                                    "",
-                                    width = item.format_depth * self.indent_size
-                                )?;
+                                self.write_indent(f, item.format_depth)?;
                                 self.write_comment(f, &format!("///{}", line))?;
                                 writeln!(f)?;
                             }
                         }
 
                         // Field name
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = item.format_depth * self.indent_size
-                        )?;
+                        self.write_indent(f, item.format_depth)?;
                         self.write_field_name(f, field.name)?;
                         self.write_punctuation(f, ": ")?;
 
@@ -487,23 +460,13 @@ impl PrettyPrinter {
                             match variant.data.kind {
                                 StructKind::Tuple => {
                                     // Close tuple variant with )
-                                    write!(
-                                        f,
-                                        "{:width$}{}",
-                                        "",
-                                        self.style_punctuation(")"),
-                                        width = (item.format_depth - 1) * self.indent_size
-                                    )?;
+                                    self.write_indent(f, item.format_depth - 1)?;
+                                    self.write_punctuation(f, ")")?;
                                 }
                                 StructKind::Struct => {
                                     // Close struct variant with }
-                                    write!(
-                                        f,
-                                        "{:width$}{}",
-                                        "",
-                                        self.style_punctuation("}"),
-                                        width = (item.format_depth - 1) * self.indent_size
-                                    )?;
+                                    self.write_indent(f, item.format_depth - 1)?;
+                                    self.write_punctuation(f, "}")?;
                                 }
                                 _ => {}
                             }
@@ -515,22 +478,13 @@ impl PrettyPrinter {
 
                         // Add field doc comments if available
                         // Only add new line if not the first field
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = item.format_depth * self.indent_size
-                        )?;
+                        self.write_indent(f, item.format_depth)?;
 
                         if !field.doc.is_empty() {
                             for line in field.doc {
                                 self.write_comment(f, &format!("///{}", line))?;
-                                write!(
-                                    f,
-                                    "\n{:width$}",
-                                    "",
-                                    width = item.format_depth * self.indent_size
-                                )?;
+                                writeln!(f)?;
+                                self.write_indent(f, item.format_depth)?;
                             }
                         }
 
@@ -578,23 +532,13 @@ impl PrettyPrinter {
                     let list = item.value.into_list().unwrap();
                     if item_index >= list.len() {
                         // All items processed, write closing bracket
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = (item.format_depth - 1) * self.indent_size
-                        )?;
+                        self.write_indent(f, item.format_depth - 1)?;
                         self.write_punctuation(f, "]")?;
                         continue;
                     }
 
                     // Indent
-                    write!(
-                        f,
-                        "{:width$}",
-                        "",
-                        width = item.format_depth * self.indent_size
-                    )?;
+                    self.write_indent(f, item.format_depth)?;
 
                     // Push back current item to continue after formatting list item
                     item.state = StackState::ProcessListItem {
@@ -625,12 +569,7 @@ impl PrettyPrinter {
                     let list = item.value.into_list().unwrap();
                     if item_index >= list.len() {
                         // All items processed, write closing bracket
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = (item.format_depth - 1) * self.indent_size
-                        )?;
+                        self.write_indent(f, item.format_depth - 1)?;
                         continue;
                     }
 
@@ -639,12 +578,7 @@ impl PrettyPrinter {
                         if item_index > 0 {
                             writeln!(f)?;
                         }
-                        write!(
-                            f,
-                            "{:width$}",
-                            "",
-                            width = item.format_depth * self.indent_size
-                        )?;
+                        self.write_indent(f, item.format_depth)?;
                     } else {
                         write!(f, " ")?;
                     }
@@ -683,23 +617,13 @@ impl PrettyPrinter {
                     // TODO: Implement proper map iteration when available in facet
 
                     // Indent
-                    write!(
-                        f,
-                        "{:width$}",
-                        "",
-                        width = item.format_depth * self.indent_size
-                    )?;
+                    self.write_indent(f, item.format_depth)?;
                     write!(f, "{}", self.style_comment("/* Map contents */"))?;
                     writeln!(f)?;
 
                     // Closing brace with proper indentation
-                    write!(
-                        f,
-                        "{:width$}{}",
-                        "",
-                        self.style_punctuation("}"),
-                        width = (item.format_depth - 1) * self.indent_size
-                    )?;
+                    self.write_indent(f, item.format_depth - 1)?;
+                    self.write_punctuation(f, "}")?;
                 }
                 StackState::Finish => {
                     // Add comma and newline for struct fields and list items
@@ -716,6 +640,16 @@ impl PrettyPrinter {
         Ok(())
     }
 
+    /// Write the indentation of the given depth (which may be more than a formatting width can be)
+    fn write_indent<W: fmt::Write>(&self, f: &mut W, depth: usize) -> fmt::Result {
+        for _ in 0..depth {
+            for _ in 0..self.indent_size {
+                f.write_char(' ')?;
+            }
+        }
+        Ok(())
+    }
+
     /// Format a scalar value
     fn format_scalar(&self, value: Peek, f: &mut impl Write) -> fmt::Result {
         // Generate a color for this shape
@@ -806,6 +740,7 @@ impl PrettyPrinter {
     }
 
     /// Style punctuation and return it as a string
+    #[allow(dead_code)]
     fn style_punctuation(&self, text: &str) -> String {
         let mut result = String::new();
         self.write_punctuation(&mut result, text).unwrap();
-- 
2.43.0


From 252323da5d2050ba599418f4edf0c1de18e746d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 35/47] fix: TOML reader truncated floats read as integers, and
 took floats out of range for infinities

---
 facet-toml/src/to_scalar.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..5ab14d8 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -16,14 +16,31 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
         .ok_or_else(|| format!("Expected value, got: {}", item.type_name()))?;
 
     match v {
-        Value::Float(r) => Ok(T::from(*r.value())
-            .ok_or_else(|| format!("Cannot convert float to {}", std::any::type_name::<T>()))?),
+        Value::Float(r) => {
+            let r = *r.value();
+            // An integer takes a float only for the very number it is, and a narrower float only
+            // one within its range
+            T::from(r)
+                .filter(|n| match (is_integer::<T>(), n.to_f64()) {
+                    (true, Some(n)) => n == r,
+                    (false, Some(n)) => n.is_finite() || !r.is_finite(),
+                    (_, None) => false,
+                })
+                .ok_or_else(|| {
+                    format!("Cannot convert float to {}", std::any::type_name::<T>()).into()
+                })
+        }
         Value::Integer(i) => Ok(T::from(*i.value())
             .ok_or_else(|| format!("Cannot convert integer to {}", std::any::type_name::<T>()))?),
         _ => Err(format!("Cannot convert {} to a number", v.type_name()).into()),
     }
 }
 
+/// Whether the number type has no fractions.
+fn is_integer<T: NumCast>() -> bool {
+    T::from(0.5).is_some_and(|half| half.to_f64() == Some(0.0))
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From 860cb1a99895619437a381530c05883369f6041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 36/47] fix: TOML reader lost its place after options and
 variants of one field, panicked on some documents, and took no arrays of
 tables

---
 facet-toml/src/lib.rs | 91 +++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..82d4ea3 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -10,7 +10,7 @@ use error::AnyErr;
 use facet_core::{Def, Facet, Struct, StructKind};
 use facet_reflect::{ScalarType, Wip};
 use log::trace;
-use toml_edit::{DocumentMut, Item, TomlError};
+use toml_edit::{DocumentMut, Item, TomlError, Value};
 use yansi::Paint as _;
 
 /// Deserializes a TOML string into a value of type `T` that implements `Facet`.
@@ -55,7 +55,7 @@ fn deserialize_as_struct<'a>(
     trace!("Deserializing {}", "struct".blue());
 
     // Parse as a the inner struct type if item is a single value and the struct is a unit struct
-    if item.is_value() && !item.is_inline_table() {
+    if (item.is_value() && !item.is_inline_table()) || item.is_array_of_tables() {
         // Only allow unit structs
         let shape = wip.shape();
         if let Def::Struct(def) = shape.def {
@@ -94,11 +94,7 @@ fn deserialize_as_struct<'a>(
             Some(field_item) => wip = deserialize_item(wip, field_item)?,
             None => {
                 if let Def::Option(..) = field.shape().def {
-                    // TODO: how to push none
-                    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
-                    wip = wip
-                        .pop_some_push_none()
-                        .map_err(|e| AnyErr(e.to_string()))?;
+                    wip = put_none(wip)?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -112,11 +108,19 @@ fn deserialize_as_struct<'a>(
     Ok(wip)
 }
 
+/// Fill an option for which the TOML has no value
+fn put_none(wip: Wip<'_>) -> Result<Wip<'_>, AnyErr> {
+    // TODO: how to push none
+    wip.push_some()
+        .and_then(Wip::pop_some_push_none)
+        .map_err(|e| AnyErr(e.to_string()))
+}
+
 fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => return Err("Expected an enum variant, got nothing".into()),
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -155,7 +159,16 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            let wip = wip
+                .variant_named(variant_name)
+                .map_err(|e| AnyErr(e.to_string()))?;
+            // A bare name has nothing to fill fields with
+            match wip.selected_variant() {
+                Some(variant) if variant.data.fields.is_empty() => wip,
+                _ => {
+                    return Err(AnyErr(format!("Variant '{variant_name}' needs fields")));
+                }
+            }
         }
 
         Item::Table(table) => {
@@ -177,7 +190,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_array_of_tables) => {
+            return Err("Cannot parse enum from array of tables".into());
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -220,18 +235,24 @@ fn build_enum_from_variant_name<'a>(
             };
 
             // Try to get the TOML field matching the Rust name
-            let Some(field) = item.get(field_name) else {
-                return Err(format!("TOML field '{}' not found", field_name).into());
+            wip = match item.get(field_name) {
+                Some(item) => deserialize_item(wip, item)?,
+                None if matches!(field.shape().def, Def::Option(..)) => put_none(wip)?,
+                None => return Err(format!("TOML field '{}' not found", field_name).into()),
             };
-
-            wip = deserialize_item(wip, field)?;
-
-            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
-        } else if item.is_value() {
+        } else if item.is_value() || item.is_array_of_tables() {
+            // A single value can only be meant for a single field
+            if variant.data.fields.len() > 1 {
+                return Err(AnyErr(
+                    "Failed trying to parse a single value as a variant with multiple fields"
+                        .into(),
+                ));
+            }
             wip = deserialize_item(wip, item)?;
         } else {
             return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
 
     Ok(wip)
@@ -240,15 +261,20 @@ fn build_enum_from_variant_name<'a>(
 fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "list".blue());
 
-    // Get the TOML item as an array
-    let Some(item) = item.as_array() else {
-        return Err(AnyErr(format!(
-            "Item is not an array but a {}",
-            item.type_name()
-        )));
+    // Get the TOML item as an array, either written inline or as an array of tables
+    // TODO: remove clone
+    let items: Vec<Item> = match item {
+        Item::Value(Value::Array(array)) => array.iter().cloned().map(Item::Value).collect(),
+        Item::ArrayOfTables(tables) => tables.iter().cloned().map(Item::Table).collect(),
+        _ => {
+            return Err(AnyErr(format!(
+                "Item is not an array but a {}",
+                item.type_name()
+            )));
+        }
     };
 
-    if item.is_empty() {
+    if items.is_empty() {
         // Only put an empty list
         return wip
             .put_empty_list()
@@ -261,17 +287,13 @@ fn deserialize_as_list<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, Any
         .map_err(|e| format!("Can not start filling list: {e}"))?;
 
     // Loop over all items in the TOML list
-    for value in item.iter() {
+    for item in &items {
         // Start the field
         wip = wip
             .push()
             .map_err(|e| format!("Can not start field: {e}"))?;
 
-        wip = deserialize_item(
-            wip,
-            // TODO: remove clone
-            &Item::Value(value.clone()),
-        )?;
+        wip = deserialize_item(wip, item)?;
 
         // Finish the field
         wip = wip
@@ -366,17 +388,18 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    // Leave the frame of the inner value
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
+fn deserialize_as_smartpointer<'a>(wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "smart pointer".blue());
 
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
+    Err(AnyErr(format!("Unsupported type: {}", wip.shape())))
 }
 
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
-- 
2.43.0


From 36eaf9c24781d6b32ad67463e14fa49e7512657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 37/47] fix: YAML reader wrapped negative numbers around, and
 panicked on lists, maps and enums

---
 facet-yaml/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..a694e31 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr(format!("Number {i} is out of range for u64")))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
@@ -92,8 +94,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -113,8 +113,8 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
-        _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
+        // TODO: lists, maps, enums
+        _ => return Err(AnyErr(format!("Unsupported type: {}", shape))),
     }
     Ok(wip)
 }
-- 
2.43.0


From 342bdf4179f6715c83546d24e997417f7178d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 38/47] fix: URL-encoded reader took malformed brackets for
 nested keys, overflowed the stack on many, and gave changing errors

---
 facet-urlencoded/src/lib.rs | 63 ++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..9d2f79a 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -111,44 +111,55 @@ fn initialize_nested_structures(nested: &mut NestedValues) {
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
-    flat: std::collections::HashMap<String, String>,
+    flat: std::collections::BTreeMap<String, String>,
     // Nested structures: key -> nested map
-    nested: std::collections::HashMap<String, NestedValues>,
+    nested: std::collections::BTreeMap<String, NestedValues>,
+}
+
+/// How many brackets a key can have. Keys with more than that don't name any field.
+const MAX_DEPTH: usize = 128;
+
+/// Splits a key in bracket notation, like `user[address][city]`, into the keys of the
+/// structures it goes through (`user`, `address`) and the key in the last one (`city`).
+///
+/// Returns `None` if the key isn't of exactly that form.
+fn split_brackets(key: &str) -> Option<(Vec<&str>, &str)> {
+    let (mut last_key, mut rest) = key.split_at(key.find('[')?);
+    let mut parent_keys = Vec::new();
+    while !rest.is_empty() {
+        let (nested_key, remainder) = rest.strip_prefix('[')?.split_once(']')?;
+        if nested_key.contains('[') || parent_keys.len() == MAX_DEPTH {
+            return None;
+        }
+        parent_keys.push(last_key);
+        (last_key, rest) = (nested_key, remainder);
+    }
+    if parent_keys[0].contains(']') {
+        return None;
+    }
+    Some((parent_keys, last_key))
 }
 
 impl NestedValues {
     fn new() -> Self {
         Self {
-            flat: std::collections::HashMap::new(),
-            nested: std::collections::HashMap::new(),
+            flat: std::collections::BTreeMap::new(),
+            nested: std::collections::BTreeMap::new(),
         }
     }
 
     fn insert(&mut self, key: &str, value: String) {
         // For bracket notation like user[name] or user[address][city]
-        if let Some(open_bracket) = key.find('[') {
-            if let Some(close_bracket) = key.find(']') {
-                if open_bracket < close_bracket {
-                    let parent_key = &key[0..open_bracket];
-                    let nested_key = &key[(open_bracket + 1)..close_bracket];
-                    let remainder = &key[(close_bracket + 1)..];
-
-                    let nested = self
-                        .nested
-                        .entry(parent_key.to_string())
-                        .or_insert_with(NestedValues::new);
-
-                    if remainder.is_empty() {
-                        // Simple case: user[name]=value
-                        nested.flat.insert(nested_key.to_string(), value);
-                    } else {
-                        // Handle deeply nested case like user[address][city]=value
-                        let new_key = format!("{}{}", nested_key, remainder);
-                        nested.insert(&new_key, value);
-                    }
-                    return;
-                }
+        if let Some((parent_keys, last_key)) = split_brackets(key) {
+            let mut nested = self;
+            for parent_key in parent_keys {
+                nested = nested
+                    .nested
+                    .entry(parent_key.to_string())
+                    .or_insert_with(NestedValues::new);
             }
+            nested.flat.insert(last_key.to_string(), value);
+            return;
         }
 
         // If we get here, it's a flat key-value pair
-- 
2.43.0


From 5a8a12b1a1ff3768bcfc8789245ec55d0f6789f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 39/47] fix: arguments: positional values overwrote the first,
 absent flags were missing, short options were taken for values

---
 facet-args/src/lib.rs | 90 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..b58218f 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -4,7 +4,7 @@
 #![forbid(unsafe_code)]
 #![doc = include_str!("../README.md")]
 
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, Field, FieldAttribute, Shape};
 use facet_reflect::{ReflectError, Wip};
 
 fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectError> {
@@ -30,23 +30,69 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
     .pop()
 }
 
+/// The fields of the struct arguments are parsed into
+fn fields_of(shape: &Shape) -> &'static [Field] {
+    let Def::Struct(sd) = shape.def else {
+        panic!("Expected struct definition");
+    };
+    sd.fields
+}
+
+fn is_positional(field: &Field) -> bool {
+    field
+        .attributes
+        .iter()
+        .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
+}
+
+/// The letter of `short = 'v'`
+fn short_name(field: &Field) -> Option<char> {
+    field.attributes.iter().find_map(|a| {
+        let FieldAttribute::Arbitrary(a) = a else {
+            return None;
+        };
+        a.split(',').find_map(|a| {
+            let letter = a.trim().strip_prefix("short")?.trim_start();
+            let letter = letter.strip_prefix('=')?.trim_start();
+            letter.strip_prefix('\'')?.chars().next()
+        })
+    })
+}
+
+/// Finds the field of a named argument, like `--verbose`, or of a short one, like `-v`
+fn named_field(shape: &Shape, token: &str) -> Option<usize> {
+    if let Some(key) = token.strip_prefix("--") {
+        log::trace!("Found named argument: {}", key);
+        return match fields_of(shape).iter().position(|f| f.name == key) {
+            Some(index) => Some(index),
+            None => panic!("Unknown argument: {}", key),
+        };
+    }
+    let mut letters = token.strip_prefix('-')?.chars();
+    match (letters.next(), letters.next()) {
+        (Some(letter), None) => {
+            log::trace!("Found short argument: {}", letter);
+            fields_of(shape)
+                .iter()
+                .position(|f| short_name(f) == Some(letter))
+        }
+        _ => None,
+    }
+}
+
 /// Parses command-line arguments
 pub fn from_slice<T: Facet>(s: &[&str]) -> T {
     log::trace!("Entering from_slice function");
     let mut s = s;
     let mut wip = Wip::alloc::<T>();
     log::trace!("Allocated Poke for type T");
+    let mut positionals_seen = 0;
 
     while let Some(token) = s.first() {
         log::trace!("Processing token: {}", token);
         s = &s[1..];
 
-        if let Some(key) = token.strip_prefix("--") {
-            log::trace!("Found named argument: {}", key);
-            let field_index = match wip.field_index(key) {
-                Some(index) => index,
-                None => panic!("Unknown argument: {}", key),
-            };
+        if let Some(field_index) = named_field(wip.shape(), token) {
             let field = wip.field(field_index).unwrap();
 
             if field.shape().is_type::<bool>() {
@@ -59,20 +105,26 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
             }
         } else {
             log::trace!("Encountered positional argument: {}", token);
-            let Def::Struct(sd) = wip.shape().def else {
-                panic!("Expected struct definition");
+            let mut positionals = fields_of(wip.shape())
+                .iter()
+                .enumerate()
+                .filter(|(_, f)| is_positional(f));
+            let Some((field_index, _)) = positionals.nth(positionals_seen) else {
+                panic!("Unexpected positional argument: {}", token);
             };
+            positionals_seen += 1;
+            let field = wip.field(field_index).unwrap();
+            wip = parse_field(field, token).unwrap();
+        }
+    }
 
-            for (field_index, f) in sd.fields.iter().enumerate() {
-                if f.attributes
-                    .iter()
-                    .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-                {
-                    let field = wip.field(field_index).unwrap();
-                    wip = parse_field(field, token).unwrap();
-                    break;
-                }
-            }
+    // Flags which weren't given are false
+    for (field_index, f) in fields_of(wip.shape()).iter().enumerate() {
+        if f.shape().is_type::<bool>()
+            && !is_positional(f)
+            && !wip.is_field_set(field_index).unwrap()
+        {
+            wip = parse_field(wip.field(field_index).unwrap(), "false").unwrap();
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From 3f114c201a70dbb2b54f8599497618dbfd3f4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 40/47] fix: a TOML document that omits an optional field
 leaves the place right for the next one

---
 facet-toml/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 82d4ea3..f325de6 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -113,6 +113,8 @@ fn put_none(wip: Wip<'_>) -> Result<Wip<'_>, AnyErr> {
     // TODO: how to push none
     wip.push_some()
         .and_then(Wip::pop_some_push_none)
+        // What is left is the frame of the none itself
+        .and_then(Wip::pop)
         .map_err(|e| AnyErr(e.to_string()))
 }
 
-- 
2.43.0


From d9190460b9d943cd90f163d19d68ff0536aade80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 41/47] fix: YAML that nests too deep for the loader is refused
 instead of overflowing the stack

---
 facet-yaml/src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index a694e31..b61f6e7 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -3,7 +3,7 @@
 
 use facet_core::{Def, Facet};
 use facet_reflect::Wip;
-use yaml_rust2::{Yaml, YamlLoader};
+use yaml_rust2::{Event, Yaml, YamlLoader, parser::Parser};
 
 /// Deserializes a YAML string into a value of type `T` that implements `Facet`.
 pub fn from_str<T: Facet>(yaml: &str) -> Result<T, AnyErr> {
@@ -69,7 +69,31 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
     }
 }
 
+/// How deep a document may nest: the loader recurses for each level.
+const MAX_DEPTH: usize = 128;
+
+/// Refuses a document that nests too deep. Anything else that's wrong with it is left to the loader.
+fn check_depth(yaml: &str) -> Result<(), AnyErr> {
+    let mut parser = Parser::new_from_str(yaml);
+    let mut depth = 0usize;
+    while let Ok((event, _)) = parser.next_token() {
+        match event {
+            Event::StreamEnd => break,
+            Event::SequenceStart(..) | Event::MappingStart(..) => {
+                depth += 1;
+                if depth > MAX_DEPTH {
+                    return Err("YAML document nests too deep".into());
+                }
+            }
+            Event::SequenceEnd | Event::MappingEnd => depth -= 1,
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn from_str_value<'a>(wip: Wip<'a>, yaml: &str) -> Result<Wip<'a>, AnyErr> {
+    check_depth(yaml)?;
     let docs = YamlLoader::load_from_str(yaml).map_err(|e| e.to_string())?;
     if docs.len() != 1 {
         return Err("Expected exactly one YAML document".into());
-- 
2.43.0


From 3c3d3ad3e3fc237bcd6a27b4437a023d2e49d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 42/47] fix: Peek crossed threads whatever it referred to

PtrConst is Send and Sync so that shapes can hold sample values, and Peek
inherited that: safe code could reach an Arc<Cell<_>> from two threads.
---
 facet-reflect/src/peek/enum_.rs   |  2 ++
 facet-reflect/src/peek/list.rs    |  1 +
 facet-reflect/src/peek/map.rs     |  3 +++
 facet-reflect/src/peek/option.rs  |  1 +
 facet-reflect/src/peek/struct_.rs |  1 +
 facet-reflect/src/peek/value.rs   | 11 ++++++++++-
 6 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/peek/enum_.rs b/facet-reflect/src/peek/enum_.rs
index 445bdf3..707edc2 100644
--- a/facet-reflect/src/peek/enum_.rs
+++ b/facet-reflect/src/peek/enum_.rs
@@ -138,6 +138,7 @@ impl<'mem> PeekEnum<'mem> {
         Some(crate::Peek {
             data: field_data,
             shape: field.shape(),
+            not_send: core::marker::PhantomData,
         })
     }
 
@@ -169,6 +170,7 @@ impl<'mem> PeekEnum<'mem> {
             let peek = crate::Peek {
                 data: field_data,
                 shape: field.shape(),
+                not_send: core::marker::PhantomData,
             };
             (field, peek)
         })
diff --git a/facet-reflect/src/peek/list.rs b/facet-reflect/src/peek/list.rs
index 603e8f3..5f49952 100644
--- a/facet-reflect/src/peek/list.rs
+++ b/facet-reflect/src/peek/list.rs
@@ -77,6 +77,7 @@ impl<'mem> PeekList<'mem> {
         Some(Peek {
             data: item_ptr,
             shape: self.def.t(),
+            not_send: core::marker::PhantomData,
         })
     }
 
diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a94ad3c..2d6a732 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -19,10 +19,12 @@ impl<'mem> Iterator for PeekMapIter<'mem> {
                     Peek {
                         data: key_ptr,
                         shape: self.map.def.k,
+                        not_send: core::marker::PhantomData,
                     },
                     Peek {
                         data: value_ptr,
                         shape: self.map.def.v,
+                        not_send: core::marker::PhantomData,
                     },
                 )
             })
@@ -99,6 +101,7 @@ impl<'mem> PeekMap<'mem> {
             Some(Peek {
                 data: value_ptr,
                 shape: self.def.v,
+                not_send: core::marker::PhantomData,
             })
         }
     }
diff --git a/facet-reflect/src/peek/option.rs b/facet-reflect/src/peek/option.rs
index f1a75d9..9af37a6 100644
--- a/facet-reflect/src/peek/option.rs
+++ b/facet-reflect/src/peek/option.rs
@@ -41,6 +41,7 @@ impl<'mem> PeekOption<'mem> {
             (self.vtable().get_value_fn)(self.value.data()).map(|inner_data| crate::Peek {
                 data: inner_data,
                 shape: self.def.t(),
+                not_send: core::marker::PhantomData,
             })
         }
     }
diff --git a/facet-reflect/src/peek/struct_.rs b/facet-reflect/src/peek/struct_.rs
index 7967244..d2cdaaf 100644
--- a/facet-reflect/src/peek/struct_.rs
+++ b/facet-reflect/src/peek/struct_.rs
@@ -36,6 +36,7 @@ impl<'mem> PeekStruct<'mem> {
                 Peek {
                     data: field_data,
                     shape: field.shape(),
+                    not_send: core::marker::PhantomData,
                 }
             })
             .ok_or(FieldError::IndexOutOfBounds)
diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 1f6822d..826c8b1 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -1,4 +1,5 @@
 use core::cmp::Ordering;
+use core::marker::PhantomData;
 use facet_core::{Def, Facet, PtrConst, PtrMut, Shape, TypeNameOpts, ValueVTable};
 
 use crate::{ReflectError, ScalarType};
@@ -38,6 +39,9 @@ pub struct Peek<'mem> {
 
     /// Shape of the value
     pub(crate) shape: &'static Shape,
+
+    /// Nothing is known about the value's type, which may be neither `Send` nor `Sync`
+    pub(crate) not_send: PhantomData<*const ()>,
 }
 
 impl<'mem> Peek<'mem> {
@@ -46,6 +50,7 @@ impl<'mem> Peek<'mem> {
         Self {
             data: PtrConst::new(t as *const T),
             shape: T::SHAPE,
+            not_send: PhantomData,
         }
     }
 
@@ -57,7 +62,11 @@ impl<'mem> Peek<'mem> {
     /// and shape are compatible. The caller must ensure that the data is valid
     /// for the given shape.
     pub unsafe fn unchecked_new(data: PtrConst<'mem>, shape: &'static Shape) -> Self {
-        Self { data, shape }
+        Self {
+            data,
+            shape,
+            not_send: PhantomData,
+        }
     }
 
     /// Returns the vtable
-- 
2.43.0


From 4722a1906f73d92564f6b7606f01094035cd7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 43/47] fix: the builder lost track of zero-sized fields, and
 dropped unit structs that nobody had put

States of popped fields were kept by address and shape, which zero-sized fields share (or, for
that reason, not kept at all): what they held was not dropped, or a complete value was reported
as incomplete. A unit struct counted as holding a value before any was put, and was dropped.
---
 facet-reflect/src/wip/mod.rs | 122 +++++++++++++----------------------
 1 file changed, 46 insertions(+), 76 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 7ec6bb6..87fb482 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1,4 +1,4 @@
-use crate::{Peek, PeekEnum, ReflectError, ValueId};
+use crate::{Peek, PeekEnum, ReflectError};
 use crate::{debug, trace};
 #[cfg(feature = "log")]
 use alloc::string::ToString;
@@ -59,11 +59,11 @@ pub struct Frame {
 }
 
 impl Frame {
-    /// Given a ValueId and an IState, recompose a Frame suitable for tracking
-    fn recompose(id: ValueId, istate: IState) -> Self {
+    /// Recompose the frame of a field of this frame's value out of the state it was left in
+    fn recompose(&self, field: &Field, istate: IState) -> Self {
         Frame {
-            data: PtrUninit::new(id.ptr as *mut u8),
-            shape: id.shape,
+            data: unsafe { self.data.field_uninit_at(field.offset) },
+            shape: field.shape(),
             field_index_in_parent: None,
             istate,
         }
@@ -118,11 +118,6 @@ impl fmt::Debug for Frame {
 }
 
 impl Frame {
-    /// Returns the value ID for a frame
-    fn id(&self) -> ValueId {
-        ValueId::new(self.shape, self.data.as_byte_ptr())
-    }
-
     /// Returns true if the frame is fully initialized
     fn is_fully_initialized(&self) -> bool {
         match self.shape.def {
@@ -150,7 +145,7 @@ impl Frame {
 
     /// Drops whatever this frame holds, including what its (popped) children hold, and
     /// leaves it uninitialized. Memory is not freed.
-    fn deinit(&mut self, istates: &mut FlatMap<ValueId, IState>) {
+    fn deinit(&mut self) {
         if self.istate.flags.contains(FrameFlags::MOVED) {
             return;
         }
@@ -159,9 +154,13 @@ impl Frame {
         // forget about the contents first, so that a panicking `Drop` cannot run them twice
         self.istate.variant = None;
         let fields = core::mem::take(&mut self.istate.fields);
+        let mut popped = core::mem::take(&mut self.istate.popped);
 
         if complete {
-            self.evict_children(places, istates);
+            if matches!(self.shape.def, Def::Struct(_)) && places.is_empty() && !fields.has(0) {
+                // there's nothing to set in there, but nobody has put a value either
+                return;
+            }
             if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
                 trace!(
                     "Invoking drop_in_place for shape {} at {:p}",
@@ -173,9 +172,8 @@ impl Frame {
             return;
         }
         for (i, field) in places.iter().enumerate() {
-            let id = self.place_id(field);
-            if let Some(istate) = istates.remove(&id) {
-                Frame::recompose(id, istate).deinit(istates);
+            if let Some(istate) = popped.remove(&i) {
+                self.recompose(field, istate).deinit();
             } else if fields.has(i) {
                 if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
                     unsafe { drop_in_place(self.data.field_init_at(field.offset)) };
@@ -184,27 +182,15 @@ impl Frame {
         }
     }
 
-    /// Forgets the states of all popped children (their contents are not touched)
-    fn evict_children(&self, places: &'static [Field], istates: &mut FlatMap<ValueId, IState>) {
-        for field in places {
-            let id = self.place_id(field);
-            if let Some(istate) = istates.remove(&id) {
-                let child = Frame::recompose(id, istate);
-                child.evict_children(child.places(), istates);
-            }
-        }
-    }
-
-    fn place_id(&self, field: &Field) -> ValueId {
-        let ptr = unsafe { self.data.field_uninit_at(field.offset) };
-        ValueId::new(field.shape(), ptr.as_byte_ptr())
-    }
-
     /// Marks the frame as fully initialized
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
             Def::Struct(sd) => {
                 self.istate.fields = ISet::all(sd.fields);
+                if sd.fields.is_empty() {
+                    // tells a value that was put from one that merely has nothing to set
+                    self.istate.fields.set(0);
+                }
             }
             Def::Enum(def) => {
                 // the value itself tells which variant it is
@@ -239,6 +225,9 @@ struct IState {
     /// Fields that were initialized. For scalars, we only track 0
     fields: ISet,
 
+    /// The states of fields that were popped: we might come back to them
+    popped: FlatMap<usize, IState>,
+
     /// The depth of the frame in the stack
     depth: usize,
 
@@ -281,6 +270,7 @@ impl IState {
         Self {
             variant: None,
             fields: Default::default(),
+            popped: Default::default(),
             depth,
             mode,
             flags,
@@ -332,8 +322,8 @@ pub struct Wip<'a> {
     /// stack of frames to keep track of deeply nested initialization
     frames: alloc::vec::Vec<Frame>,
 
-    /// keeps track of initialization of out-of-tree frames
-    istates: FlatMap<ValueId, IState>,
+    /// the root frame, once it's popped
+    root: Option<Frame>,
 
     /// lifetime of the shortest reference we hold
     phantom: PhantomData<&'a ()>,
@@ -383,7 +373,7 @@ impl<'a> Wip<'a> {
                 field_index_in_parent: None,
                 istate: IState::new(0, FrameMode::Root, FrameFlags::ALLOCATED),
             }],
-            istates: Default::default(),
+            root: None,
             phantom: PhantomData,
         }
     }
@@ -402,19 +392,19 @@ impl<'a> Wip<'a> {
         if frame.istate.flags.contains(FrameFlags::MOVED) {
             return;
         }
-        // zero-sized places have nothing to clean up, and any number of them may share one address
-        if frame.shape.layout.size() == 0 && frame.istate.mode != FrameMode::Root {
-            return;
+        match (self.frames.last_mut(), frame.field_index_in_parent) {
+            (Some(parent), Some(index)) => {
+                parent.istate.popped.insert(index, frame.istate);
+            }
+            _ => self.root = Some(frame),
         }
-        self.istates.insert(frame.id(), frame.istate);
     }
 
     /// The contents of `frame` now live elsewhere: free its memory, forget about it
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
         // make sure neither this nor its children are tracked anymore — we don't want to have
         // any metadata associated with it that gets restored by mistake
-        self.istates.remove(&frame.id());
-        frame.evict_children(frame.places(), &mut self.istates);
+        frame.istate.popped.clear();
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -423,7 +413,7 @@ impl<'a> Wip<'a> {
 
     /// Throws away a frame that's not going to be part of the value: drop contents, free memory
     fn discard(&mut self, frame: &mut Frame) {
-        frame.deinit(&mut self.istates);
+        frame.deinit();
         frame.dealloc_if_needed();
         frame.istate.flags.insert(FrameFlags::MOVED);
     }
@@ -445,7 +435,7 @@ impl<'a> Wip<'a> {
             }
         }
         if let Some(frame) = self.frames.last_mut() {
-            frame.deinit(&mut self.istates);
+            frame.deinit();
         }
     }
 
@@ -488,39 +478,30 @@ impl<'a> Wip<'a> {
     pub fn build(mut self) -> Result<HeapValue<'a>, ReflectError> {
         debug!("[{}] ⚒️ It's BUILD time", self.frames.len());
 
-        // 1. Track all frames currently on the stack into istates
+        // 1. Track all frames currently on the stack
         while let Some(frame) = self.pop_inner() {
             self.track(frame);
         }
 
         // 2. Find the root frame
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
+        let Some(root) = self.root.take() else {
             debug!("No root found, possibly already built or empty WIP");
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
                 operation: "tried to build a value but there was no root frame tracked",
             });
         };
-        let root_id = *root_id;
-        let root_istate = self
-            .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug");
-        let root = Frame::recompose(root_id, root_istate);
-
         // 3. Check that everything's initialized, and that invariants are upheld
         if let Err(e) = self.check(&root).and_then(|()| {
             let data = PtrConst::new(root.data.as_byte_ptr());
             check_invariants(unsafe { Peek::unchecked_new(data, root.shape) })
         }) {
             // Let `Drop` clean up
-            self.track(root);
+            self.root = Some(root);
             return Err(e);
         }
 
-        // 4. Transfer ownership of the root data to the HeapValue. Whatever's still tracked
-        // isn't part of it, `Drop` takes care of it.
-        root.evict_children(root.places(), &mut self.istates);
+        // 4. Transfer ownership of the root data to the HeapValue.
         Ok(HeapValue {
             guard: Some(Guard {
                 ptr: root.data.as_mut_byte_ptr(),
@@ -614,6 +595,7 @@ impl<'a> Wip<'a> {
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
         let initialized = frame.istate.fields.has(index);
+        let popped = frame.istate.popped.remove(&index);
 
         let mut frame = Frame {
             data: field_data,
@@ -630,11 +612,11 @@ impl<'a> Wip<'a> {
             index.yellow(),
             shape.blue(),
         );
-        if let Some(iset) = self.istates.remove(&frame.id()) {
+        if let Some(iset) = popped {
             trace!(
                 "[{}] Restoring saved state for {} (istate.mode = {:?}, istate.fields = {:?}, istate.flags = {:?}, istate.depth = {:?})",
                 self.frames.len(),
-                frame.id().shape.blue(),
+                field.shape().blue(),
                 iset.mode,
                 iset.fields,
                 iset.flags,
@@ -924,12 +906,8 @@ impl<'a> Wip<'a> {
             if self.frames[depth - 1].istate.fields.has(i) {
                 continue;
             }
-            let id = ValueId::new(
-                field.shape(),
-                unsafe { data.field_uninit_at(field.offset) }.as_byte_ptr(),
-            );
-            if let Some(istate) = self.istates.remove(&id) {
-                Frame::recompose(id, istate).deinit(&mut self.istates);
+            if let Some(istate) = self.frames[depth - 1].istate.popped.remove(&i) {
+                self.frames[depth - 1].recompose(field, istate).deinit();
             }
             unsafe {
                 let src = default.data.field_init_at(field.offset).as_byte_ptr();
@@ -1602,11 +1580,11 @@ impl<'a> Wip<'a> {
         Some(frame)
     }
 
-    /// Evict a frame from istates, along with all its children
+    /// Forget about the fields of a frame
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
-    pub fn evict_tree(&mut self, frame: Frame) -> Frame {
-        frame.evict_children(frame.places(), &mut self.istates);
+    pub fn evict_tree(&mut self, mut frame: Frame) -> Frame {
+        frame.istate.popped.clear();
         frame
     }
 
@@ -1730,16 +1708,8 @@ impl Drop for Wip<'_> {
             }
         }
 
-        // The root may have been popped already; anything else that's still tracked is a place
-        // within some frame that was cleaned up just now.
-        let root_id = self
-            .istates
-            .iter()
-            .find(|(_, istate)| istate.flags.contains(FrameFlags::ALLOCATED))
-            .map(|(id, _)| *id);
-        if let Some(root_id) = root_id {
-            let istate = self.istates.remove(&root_id).unwrap();
-            let mut root = Frame::recompose(root_id, istate);
+        // The root may have been popped already
+        if let Some(mut root) = self.root.take() {
             self.discard(&mut root);
         }
     }
-- 
2.43.0


From 4d5b644fa4d5eba341588333eacda2dd3fb08e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 44/47] fix: the names of Arc<T>, Weak<T> and NonNull<T> left
 out T

---
 facet-core/src/impls_alloc/smartptr.rs | 28 ++++++++++++++++++--------
 facet-core/src/impls_core/smartptr.rs  | 14 +++++++++----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 3d45cd0..cbd553a 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -40,10 +40,16 @@ unsafe impl<T: Facet> Facet for alloc::sync::Arc<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
-                f,
-                "Arc"
-            )))
+            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, opts| {
+                write!(f, "Arc")?;
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "<⋯>")
+                }
+            }))
             .build()
     };
 }
@@ -74,10 +80,16 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
-                f,
-                "Weak"
-            )))
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, opts| {
+                write!(f, "Weak")?;
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "<⋯>")
+                }
+            }))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/smartptr.rs b/facet-core/src/impls_core/smartptr.rs
index 2f5685e..8910924 100644
--- a/facet-core/src/impls_core/smartptr.rs
+++ b/facet-core/src/impls_core/smartptr.rs
@@ -37,10 +37,16 @@ unsafe impl<T: Facet> Facet for core::ptr::NonNull<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, _opts| write!(
-                f,
-                "NonNull"
-            )))
+            .vtable(value_vtable!(core::ptr::NonNull<T>, |f, opts| {
+                write!(f, "NonNull")?;
+                if let Some(opts) = opts.for_children() {
+                    write!(f, "<")?;
+                    (T::SHAPE.vtable.type_name)(f, opts)?;
+                    write!(f, ">")
+                } else {
+                    write!(f, "<⋯>")
+                }
+            }))
             .build()
     };
 }
-- 
2.43.0


From 6e71582f78dd226055586713a108e8bf976c9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 45/47] fix: a HashMap claimed to cross threads whatever its
 hasher

---
 facet-core/src/impls_std/hashmap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 4bf262e..a0ccc1f 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -49,8 +49,10 @@ where
                         .marker_traits({
                             let arg_dependent_traits = MarkerTraits::SEND
                                 .union(MarkerTraits::SYNC)
-                                .union(MarkerTraits::EQ)
-                                .union(MarkerTraits::UNPIN);
+                                .union(MarkerTraits::UNPIN)
+                                .intersection(S::SHAPE.vtable.marker_traits)
+                                // the hasher has no say in whether maps are equal
+                                .union(MarkerTraits::EQ);
                             arg_dependent_traits
                                 .intersection(V::SHAPE.vtable.marker_traits)
                                 .intersection(K::SHAPE.vtable.marker_traits)
-- 
2.43.0


From f5bd9935185d680b016a4a5799a370f22618ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 46/47] fix: equal shapes hashed differently in different
 crates

---
 facet-core/src/types/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/types/mod.rs b/facet-core/src/types/mod.rs
index 6180589..65aaea9 100644
--- a/facet-core/src/types/mod.rs
+++ b/facet-core/src/types/mod.rs
@@ -216,8 +216,9 @@ impl Eq for Shape {}
 
 impl core::hash::Hash for Shape {
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        self.def.hash(state);
-        self.layout.hash(state);
+        // equal shapes hash alike: their definitions point to functions, and those may well be
+        // found at another address in another crate
+        self.id.hash(state);
     }
 }
 
-- 
2.43.0


From e07dff656189ce19f83567c2cf018d58eab9a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 47/47] fix: the builder's path didn't say which list element
 it is in

---
 facet-reflect/src/wip/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 87fb482..a7a6dfb 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -280,7 +280,6 @@ impl IState {
     }
 
     /// Sets the list index and returns self for method chaining
-    #[allow(dead_code)]
     pub fn with_list_index(mut self, index: usize) -> Self {
         self.list_index = Some(index);
         self
@@ -1095,12 +1094,12 @@ impl<'a> Wip<'a> {
         let frame = self.writable_frame()?;
         let list_shape = frame.shape;
 
-        if !matches!(list_shape.def, Def::List(_)) {
+        let Def::List(list_def) = list_shape.def else {
             return Err(ReflectError::WasNotA {
                 expected: "list or array",
                 actual: list_shape,
             });
-        }
+        };
 
         // If the list isn't initialized yet, initialize it
         if !frame.istate.fields.has(0) {
@@ -1110,6 +1109,10 @@ impl<'a> Wip<'a> {
         // Get the element type
         let element_shape = self.element_shape()?;
 
+        // It goes after the elements that are already in the list
+        let list_data = PtrConst::new(self.writable_frame()?.data.as_byte_ptr());
+        let index = unsafe { (list_def.vtable.len)(list_data) };
+
         // Allocate memory for the element
         let element_data = element_shape.allocate();
 
@@ -1122,7 +1125,8 @@ impl<'a> Wip<'a> {
                 self.frames.len(),
                 FrameMode::ListElement,
                 FrameFlags::ALLOCATED,
-            ),
+            )
+            .with_list_index(index),
         };
 
         trace!(
-- 
2.43.0

