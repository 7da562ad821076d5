From eac836513c9cb1eff040448fbd663152d34a8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 1/6] fix: cloned parts iterators must keep their spare deque
 capacity

VecDeque::clone only allocates for its current length, so iterating a
clone of RcSliceParts/ArcSliceParts tripped the 'deque doesn't need to
re-allocate' debug assertion for 8 or more parts.
---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..1b87afa 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -95,6 +94,22 @@ pub struct BinaryPartsIter<S> {
 // }
 pub unsafe trait SplitAsSlice<T>: BinarySplitOff + Deref<Target=[T]> { }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // Don't just clone our deque, b/c that wouldn't preserve its spare
+        // capacity. The clone needs the same capacity as the original in order
+        // to iterate through all subslices w/o growing.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 impl<S> BinaryPartsIter<S> {
     pub fn new(slice: S, num_parts: usize) -> Self {
         assert_ne!(0, num_parts, "num_parts > 0");
-- 
2.43.0


From 50a710f0b1bf62caa5955e94dabafa0202c9be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 2/6] fix: ArcSlice::get_mut must synchronize with drops of
 former references

Arc::strong_count is a Relaxed load, so mutating through the returned
reference raced with reads other threads made before dropping theirs.
---
 src/arc/arc_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..c322a5f 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -5,7 +5,7 @@ use core::{
     ops::Deref,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{self, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -371,7 +371,9 @@ impl<T> ArcSlice<T> {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
+                            // Safe to mutate. strong_count is only a Relaxed load, so
+                            // also synchronize w/ the drops of any former references.
+                            atomic::fence(Ordering::Acquire);
                             unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
                         } else {
                             None
-- 
2.43.0


From 420f3a232cee892cab000f7e3c11dfee50a95aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 3/6] fix: ArcSlice leaked its guards

Every ArcSliceData leaked a boxed weak guard reference, plus another one
(and the guard's own allocation) each time a new guard got swapped in,
b/c concurrent readers made the old box impossible to free. Keep the weak
guard reference in place behind a gate instead.
---
 src/arc/arc_slice.rs | 81 ++++++++++++++++++++++----------------------
 src/internal/gate.rs | 10 ++++++
 2 files changed, 50 insertions(+), 41 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index c322a5f..2393e4a 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,8 +1,10 @@
 use core::{
+    cell::UnsafeCell,
     iter::FusedIterator,
     marker::PhantomData,
     mem,
     ops::Deref,
+    panic::RefUnwindSafe,
     ptr::{self, NonNull},
     slice,
     sync::atomic::{self, AtomicPtr, Ordering},
@@ -36,15 +38,21 @@ pub (in crate::arc) struct ArcSliceData<T> {
     left_child: AtomicPtr<()>,
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
-    parent: Weak<Self>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    guard_slot: Arc<GuardSlot>,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
 
+/// Where to find the DataGuard for a data subslice, if there's currently one.
+struct GuardSlot {
+    // Keeps the parent slot around so that we can always guard our parent's
+    // data subslice when guarding ours.
+    parent: Option<Arc<Self>>,
+    // A Gate controlling access to guard
+    gate: Gate,
+    guard: UnsafeCell<Weak<DataGuard>>,
+}
+
 /// Signals the presence of child ArcSlices or WeakSlices for the same
 /// data subslice. Part of detecting which mutations are possible.
 struct DataGuard {
@@ -89,19 +97,17 @@ impl<T> ArcSliceData<T> {
     }
 
     pub (in crate::arc) unsafe fn from_data_parts(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>) -> Self {
-        Self::with_data_and_parent(ptr, len, alloc, Weak::new())
+        Self::with_data_and_parent(ptr, len, alloc, None)
     }
 
-    fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
+    fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Option<Arc<GuardSlot>>) -> Self {
         Self {
             ptr,
             len,
             alloc,
-            parent,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard,
+            guard_slot: Arc::new(GuardSlot::new(parent)),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -135,7 +141,7 @@ impl<T> ArcSliceData<T> {
             // Observed the child ptr as being null. Try to construct a new child and
             // swap into place.
             let alloc = if len == 0 { None } else { self.alloc.clone() };
-            let new_child = Arc::new(Self::with_data_and_parent(ptr, len, alloc, Arc::downgrade(self)));
+            let new_child = Arc::new(Self::with_data_and_parent(ptr, len, alloc, Some(self.guard_slot.clone())));
             let new_child_clone = new_child.clone();
             let new_child = Arc::into_raw(new_child);
             let prev_child = child.compare_and_swap(ptr::null_mut(), new_child as _, Ordering::AcqRel);
@@ -282,44 +288,37 @@ impl<T> Deref for ArcSliceData<T> {
     }
 }
 
-impl DataGuard {
-    fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
-            // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
-            let parent_guard = data.parent.upgrade()
-                .map(|parent_data| Self::guard(&parent_data));
-            let guard = Arc::new(Self {
-                _parent: parent_guard,
+impl GuardSlot {
+    fn new(parent: Option<Arc<Self>>) -> Self {
+        Self { parent, gate: Gate::new(), guard: UnsafeCell::new(Weak::new()) }
+    }
+
+    /// Get the live guard for this slot, constructing a new one if needed.
+    fn guard(&self) -> Arc<DataGuard> {
+        // Gates get closed in order from child to parent.
+        let _latch = self.gate.close();
+        // Safe b/c we only access guard while our gate is closed.
+        let guard = unsafe { &mut *self.guard.get() };
+        guard.upgrade().unwrap_or_else(|| {
+            let new_guard = Arc::new(DataGuard {
+                _parent: self.parent.as_ref().map(|parent| parent.guard()),
                 clone_child_gate: Gate::new(),
                 downgrade_gate: Gate::new(),
             });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-            }
-        }
-        existing_guard.unwrap_or_else(|| unreachable!())
+            *guard = Arc::downgrade(&new_guard);
+            new_guard
+        })
     }
 }
 
+// The UnsafeCell is only accessed while gate is closed, and never left in an
+// inconsistent state.
+unsafe impl Sync for GuardSlot { }
+impl RefUnwindSafe for GuardSlot { }
+
 impl<T> ArcSlice<T> {
     pub (in crate::arc) fn from_data(data: Arc<ArcSliceData<T>>) -> Self {
-        let data_guard = DataGuard::guard(&data);
+        let data_guard = data.guard_slot.guard();
         Self { data, data_guard }
     }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..6b4ddca 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -23,6 +23,16 @@ impl Gate {
             Some(Latch(self))
         }
     }
+
+    /// Close this gate, waiting for it to open first if needed.
+    pub fn close(&self) -> Latch<'_> {
+        loop {
+            self.wait_till_open();
+            if let Some(latch) = self.try_close() {
+                return latch;
+            }
+        }
+    }
 }
 
 impl<'a> Drop for Latch<'a> {
-- 
2.43.0


From e740dc2276bd5bcd215f05fea4c173b9a97d7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 4/6] fix: ArcSlice uniqueness checks must account for all
 WeakSlices

---
 src/arc/arc_slice.rs | 148 +++++++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 70 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 2393e4a..9f22a59 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -2,7 +2,7 @@ use core::{
     cell::UnsafeCell,
     iter::FusedIterator,
     marker::PhantomData,
-    mem,
+    mem::{self, ManuallyDrop},
     ops::Deref,
     panic::RefUnwindSafe,
     ptr::{self, NonNull},
@@ -48,21 +48,19 @@ struct GuardSlot {
     // Keeps the parent slot around so that we can always guard our parent's
     // data subslice when guarding ours.
     parent: Option<Arc<Self>>,
-    // A Gate controlling access to guard
-    gate: Gate,
+    // A Gate controlling access to guard, and more generally all operations that
+    // can't be allowed to interleave w/ checking if mutation is possible. Shared
+    // w/ all other slots in the same hierarchy.
+    gate: Arc<Gate>,
     guard: UnsafeCell<Weak<DataGuard>>,
 }
 
-/// Signals the presence of child ArcSlices or WeakSlices for the same
-/// data subslice. Part of detecting which mutations are possible.
+/// Signals the presence of child ArcSlices for the same data subslice. Part of
+/// detecting which mutations are possible.
 struct DataGuard {
     // Not used except in the fact that a child DataGuard keeps its parent
     // DataGuard alive.
     _parent: Option<Arc<Self>>,
-    // A Gate controlling whether clone_left and clone_right are allowed
-    clone_child_gate: Gate,
-    // A Gate controlling whether downgrade is allowed
-    downgrade_gate: Gate,
 }
 
 /// An atomically reference counted slice that tracks reference counts
@@ -75,9 +73,10 @@ pub struct ArcSlice<T> {
 /// A weak reference to an atomically reference counted slice. Comparable
 /// to std::sync::Weak<[T]>.
 pub struct WeakSlice<T> {
+    // Also signals the presence of this WeakSlice to ArcSlice::get_mut
     data: Weak<ArcSliceData<T>>,
-    // Not used except as part of signaling the presence of WeakSlices to ArcSlice:;get_mut
-    _data_guard: Weak<DataGuard>,
+    // None if this WeakSlice was never upgradeable to begin with
+    guard_slot: Option<Arc<GuardSlot>>,
 }
 
 /// A double-ended iterator over roughly-even subslices of a starting ArcSlice.
@@ -180,6 +179,24 @@ impl<T> ArcSliceData<T> {
         }
     }
 
+    /// Are there any WeakSlices referencing this ArcSliceData or any of its
+    /// descendants?
+    fn has_weak_slices(self: &Arc<Self>) -> bool {
+        Arc::weak_count(self) > 0
+            || Self::child_has_weak_slices(&self.left_child)
+            || Self::child_has_weak_slices(&self.right_child)
+    }
+
+    fn child_has_weak_slices(child: &AtomicPtr<()>) -> bool {
+        let child = child.load(Ordering::Acquire);
+        if child.is_null() {
+            false
+        } else {
+            let child = ManuallyDrop::new(unsafe { Arc::from_raw(child as *const Self) });
+            child.has_weak_slices()
+        }
+    }
+
     fn take_left(&mut self) -> Option<Arc<Self>> {
         Self::take_child(&mut self.left_child)
     }
@@ -290,20 +307,17 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl GuardSlot {
     fn new(parent: Option<Arc<Self>>) -> Self {
-        Self { parent, gate: Gate::new(), guard: UnsafeCell::new(Weak::new()) }
+        let gate = parent.as_ref().map_or_else(|| Arc::new(Gate::new()), |parent| parent.gate.clone());
+        Self { parent, gate, guard: UnsafeCell::new(Weak::new()) }
     }
 
-    /// Get the live guard for this slot, constructing a new one if needed.
-    fn guard(&self) -> Arc<DataGuard> {
-        // Gates get closed in order from child to parent.
-        let _latch = self.gate.close();
-        // Safe b/c we only access guard while our gate is closed.
-        let guard = unsafe { &mut *self.guard.get() };
+    /// Get the live guard for this slot, constructing a new one if needed. Unsafe
+    /// b/c calling code must have closed our gate.
+    unsafe fn guard(&self) -> Arc<DataGuard> {
+        let guard = &mut *self.guard.get();
         guard.upgrade().unwrap_or_else(|| {
             let new_guard = Arc::new(DataGuard {
                 _parent: self.parent.as_ref().map(|parent| parent.guard()),
-                clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
             });
             *guard = Arc::downgrade(&new_guard);
             new_guard
@@ -318,7 +332,10 @@ impl RefUnwindSafe for GuardSlot { }
 
 impl<T> ArcSlice<T> {
     pub (in crate::arc) fn from_data(data: Arc<ArcSliceData<T>>) -> Self {
-        let data_guard = data.guard_slot.guard();
+        let data_guard = {
+            let _latch = data.guard_slot.gate.close();
+            unsafe { data.guard_slot.guard() }
+        };
         Self { data, data_guard }
     }
 
@@ -331,12 +348,10 @@ impl<T> ArcSlice<T> {
     }
 
     pub fn clone_left(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_left())
     }
 
     pub fn clone_right(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_right())
     }
 
@@ -360,67 +375,54 @@ impl<T> ArcSlice<T> {
 
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
-        // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
-
-        // Check for no weak refs first.
-        this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-                    if 1 == Arc::strong_count(&this.data_guard) {
-                        if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate. strong_count is only a Relaxed load, so
-                            // also synchronize w/ the drops of any former references.
-                            atomic::fence(Ordering::Acquire);
-                            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                )
-            } else {
-                None
-            }
-        )
+        // avoid race conditions while doing so. In particular, closing the gate
+        // keeps other threads from creating a WeakSlice and then dropping the
+        // ArcSlice they created it from while we're in btwn checking for strong refs
+        // and checking for weak refs, or from upgrading a WeakSlice once we're done
+        // checking for strong refs.
+        let _latch = this.data.guard_slot.gate.close();
+        let safe_to_mut =
+            1 == Arc::strong_count(&this.data_guard) &&
+            1 == Arc::strong_count(&this.data) &&
+            !this.data.has_weak_slices();
+        if safe_to_mut {
+            // strong_count is only a Relaxed load, so also synchronize w/ the
+            // drops of any former references.
+            atomic::fence(Ordering::Acquire);
+            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
+        } else {
+            None
+        }
     }
 
     pub fn into_mut(this: Self) -> Result<ArcSliceMut<T>, Self> {
         // We do the same basic checks as RcSlice::into_mut, but as w/
         // get_mut above, we need to do locking to avoid race conditions.
+        // In particular, closing the gate keeps other threads from upgrading
+        // a WeakSlice for one of our descendants while we're in btwn checking
+        // for strong refs and taking sole ownership of our items.
 
         let ArcSlice { data, data_guard } = this;
-        let slice_mut = match (*data_guard).clone_child_gate.try_close() {
-            Some(_clone_child_latch) => {
-                if 1 == Arc::strong_count(&data_guard) {
-                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
-                } else {
-                    Err(data)
-                }
-            },
-            None => Err(data)
+        let guard_slot = data.guard_slot.clone();
+        let _latch = guard_slot.gate.close();
+        let slice_mut = if 1 == Arc::strong_count(&data_guard) {
+            // Ditto get_mut on synchronizing w/ the drops of former references
+            atomic::fence(Ordering::Acquire);
+            Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
+        } else {
+            Err(data)
         };
         slice_mut.map_err(|data| ArcSlice { data, data_guard })
     }
 
     pub fn downgrade(this: &Self) -> WeakSlice<T> {
-        this.downgrade_gate().wait_till_open();
-        WeakSlice { data: Arc::downgrade(&this.data), _data_guard: Arc::downgrade(&this.data_guard) }
+        let _latch = this.data.guard_slot.gate.close();
+        WeakSlice { data: Arc::downgrade(&this.data), guard_slot: Some(this.data.guard_slot.clone()) }
     }
 
     // TODO: unsplit
     // TODO: make_mut
     // TODO: into_boxed_slice, into_vec
-
-    fn clone_child_gate(&self) -> &Gate {
-        &(*self.data_guard).clone_child_gate
-    }
-
-    fn downgrade_gate(&self) -> &Gate {
-        &(*self.data_guard).downgrade_gate
-    }
 }
 
 impl<T> Clone for ArcSlice<T> {
@@ -468,19 +470,25 @@ impl<T> WeakSlice<T> {
     /// Constructs a new `WeakSlice<T>`, without allocating any memory.
     /// Calling `upgrade` on the return value always gives `None`.
     pub fn new() -> Self {
-        Self { data: Weak::new(), _data_guard: Weak::new() }
+        Self { data: Weak::new(), guard_slot: None }
     }
 
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
         // TODO: This suffers from the same limitations as
         // crate::rc::WeakSlice::upgrade does.
-        self.data.upgrade().map(ArcSlice::from_data)
+        let guard_slot = self.guard_slot.as_ref()?;
+        // Ditto get_mut and into_mut on avoiding race conditions
+        let _latch = guard_slot.gate.close();
+        self.data.upgrade().map(|data| {
+            let data_guard = unsafe { guard_slot.guard() };
+            ArcSlice { data, data_guard }
+        })
     }
 }
 
 impl<T> Clone for WeakSlice<T> {
     fn clone(&self) -> Self {
-        Self { data: self.data.clone(), _data_guard: self._data_guard.clone() }
+        Self { data: self.data.clone(), guard_slot: self.guard_slot.clone() }
     }
 }
 
-- 
2.43.0


From 03285c29842c46dc5fc14881541103c566441323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 5/6] fix: a panic while dropping a child slice must not leak
 its parent's items

RcSliceData and ArcSliceData dropped their children before taking care of
their own items, so that those leaked if dropping an item in a child
panicked. Drop them the way dropping a Vec would.
---
 src/arc/arc_slice.rs | 18 ++++++++++--------
 src/rc/rc_slice.rs   | 20 +++++++++++---------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 9f22a59..cea18cf 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -18,7 +18,7 @@ use crate::{
     internal::{
         bin_parts_iter::{BinaryPartsIter, BinarySplitOff, SplitAsSlice},
         gate::Gate,
-        slice_model::SliceAlloc,
+        slice_model::{SliceAlloc, SliceItems},
     },
     arc::ArcSliceMut,
 };
@@ -256,7 +256,7 @@ impl<T> Drop for ArcSliceData<T> {
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
         let right = self.take_right();
-        let (p, len) = match (left, right) {
+        let (p, len) = match (&left, &right) {
             (None, None) => (self.ptr, self.len),
             (Some(_), None) => {
                 // left child is present. Just drop right subslice
@@ -266,13 +266,15 @@ impl<T> Drop for ArcSliceData<T> {
                 // right child is present. Just drop left subslice
                 self.left_sub()
             },
-            _ => return // Both children are present. Nothing more to do.
+            // Both children are present. No items are ours alone.
+            _ => (self.ptr, 0)
         };
-        // Use [T]'s drop impl to drop the items without freeing the underlying allocation.
-        // SliceAlloc handles freeing the underlying allocation.
-        // The idea of using drop_in_place was taken straight from the drop impl for Vec<T>.
-        // See https://doc.rust-lang.org/src/alloc/vec.rs.html
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(p.as_ptr(), len)); }
+        // SliceItems drops the items without freeing the underlying allocation.
+        // SliceAlloc handles freeing the underlying allocation. Dropping the children
+        // first, but w/ our items already owned by a SliceItems, makes sure our items
+        // get dropped even if dropping an item in a child panics.
+        let _items = unsafe { SliceItems::new(p, len) };
+        drop((left, right));
     }
 }
 
diff --git a/src/rc/rc_slice.rs b/src/rc/rc_slice.rs
index a14f9ee..bc0de97 100644
--- a/src/rc/rc_slice.rs
+++ b/src/rc/rc_slice.rs
@@ -4,7 +4,7 @@ use core::{
     marker::PhantomData,
     mem,
     ops::Deref,
-    ptr::{self, NonNull},
+    ptr::NonNull,
     slice,
 };
 use alloc::{
@@ -15,7 +15,7 @@ use alloc::{
 use crate::{
     internal::{
         bin_parts_iter::{BinaryPartsIter, BinarySplitOff, SplitAsSlice},
-        slice_model::SliceAlloc,
+        slice_model::{SliceAlloc, SliceItems},
     },
     rc::RcSliceMut,
 };
@@ -198,7 +198,7 @@ impl<T> Drop for RcSliceData<T> {
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
         let right = self.take_right();
-        let (p, len) = match (left, right) {
+        let (p, len) = match (&left, &right) {
             (None, None) => (self.ptr, self.len),
             (Some(_), None) => {
                 // left child is present. Just drop right subslice
@@ -208,13 +208,15 @@ impl<T> Drop for RcSliceData<T> {
                 // right child is present. Just drop left subslice
                 self.left_sub()
             },
-            _ => return // Both children are present. Nothing more to do.
+            // Both children are present. No items are ours alone.
+            _ => (self.ptr, 0)
         };
-        // Use [T]'s drop impl to drop the items without freeing the underlying allocation.
-        // SliceAlloc handles freeing the underlying allocation.
-        // The idea of using drop_in_place was taken straight from the drop impl for Vec<T>.
-        // See https://doc.rust-lang.org/src/alloc/vec.rs.html
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(p.as_ptr(), len)); }
+        // SliceItems drops the items without freeing the underlying allocation.
+        // SliceAlloc handles freeing the underlying allocation. Dropping the children
+        // first, but w/ our items already owned by a SliceItems, makes sure our items
+        // get dropped even if dropping an item in a child panics.
+        let _items = unsafe { SliceItems::new(p, len) };
+        drop((left, right));
     }
 }
 
-- 
2.43.0


From 090b291b96f7edd9953811226e50e9f4c13514c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 6/6] fix: mutable parts iterators must not do in-bounds
 pointer arithmetic on a freed buffer

When only empty parts remain, a parts iterator of a mutable slice has given up
its reference to the allocation, but next, next_back, as_slice and drop still
computed pointers with add and sub.
---
 src/internal/slice_model/slice_items.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/internal/slice_model/slice_items.rs b/src/internal/slice_model/slice_items.rs
index b05f792..9b1f4df 100644
--- a/src/internal/slice_model/slice_items.rs
+++ b/src/internal/slice_model/slice_items.rs
@@ -297,6 +297,8 @@ impl<T> Iterator for SliceItemsParts<T> {
         if 0 == self.len() {
             None
         } else {
+            // Uses wrapping_add below b/c if only empty parts remain then the
+            // underlying allocation may be gone already.
             let mut ptr = self.orig_ptr.as_ptr();
             let mut len = self.orig_len;
             let mut mask = self.num_parts >> 1;
@@ -307,7 +309,7 @@ impl<T> Iterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 }
@@ -338,7 +340,7 @@ impl<T> DoubleEndedIterator for SliceItemsParts<T> {
                     ptr = if mem::size_of::<T>() == 0 {
                         ptr
                     } else {
-                        unsafe { ptr.add(len >> 1) }
+                        ptr.wrapping_add(len >> 1)
                     };
                     len = len - (len >> 1);
                 } else {
@@ -417,7 +419,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize + count) as _)
             } else {
-                Self(self.0.add(count))
+                Self(self.0.wrapping_add(count))
             }
         }
 
@@ -426,7 +428,7 @@ mod zst_utils {
             if mem::size_of::<T>() == 0 {
                 Self((self.0 as usize - count) as _)
             } else {
-                Self(self.0.sub(count))
+                Self(self.0.wrapping_sub(count))
             }
         }
     }
@@ -450,12 +452,9 @@ mod zst_utils {
                 Self { start: PtrOrIdx(0 as _), end: PtrOrIdx(len as _) }
             } else {
                 let ptr = ptr.as_ptr();
-                // Safety: As long as calling code adheres to the safety guarantees
-                // in the comment above, the pointer `add` below is safe for the same
-                // reasons it's safe in the impl of, say, [T]'s as_ptr_range.
-                // See https://doc.rust-lang.org/std/primitive.slice.html#method.as_ptr_range
-                // and follow link from there to src.
-                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.add(len)) }
+                // Uses wrapping_add rather than add, here and in PtrOrIdx, b/c a
+                // SliceItemsParts w/ no items left can outlive the allocation.
+                Self { start: PtrOrIdx(ptr), end: PtrOrIdx(ptr.wrapping_add(len)) }
             }
         }
 
-- 
2.43.0

