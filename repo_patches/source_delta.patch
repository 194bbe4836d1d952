From a8eba0c7cd99025f6801e5350f4930be75a1b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 01/11] fix: do not drop an element again after its drop
 panicked in Vec truncation

try_resize_no_copy shortened the vec only after dropping each element, so
when a drop panicked the vec still contained the dropped element.
---
 src/vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..f1611fc 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,16 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
+                // Shorten the vec first: dropping an element might panic, and
+                // the element must not be dropped again with the vec.
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From d886ed3f91f6eda6e104246830c5a7019e76bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 02/11] fix: report a capacity overflow from TryVec::concat
 instead of overflowing

The total length was summed without a check: with zero sized elements it
can exceed usize::MAX, which panicked (or wrapped around in release builds).
---
 src/vec.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index f1611fc..2d52ee4 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -175,7 +175,18 @@ impl<T: TryClone> TryClone for TryVec<T> {
 
 impl<T: TryClone> TryVec<TryVec<T>> {
     pub fn concat(&self) -> Result<TryVec<T>, TryReserveError> {
-        let size = self.iter().map(|v| v.inner.len()).sum();
+        let size = self
+            .iter()
+            .try_fold(0usize, |size, v| size.checked_add(v.inner.len()));
+        let size = match size {
+            Some(size) => size,
+            None => {
+                // more (zero sized) elements than a vec can hold: report the
+                // same capacity overflow as any other impossible size
+                Vec::<u8>::new().try_reserve(usize::MAX)?;
+                usize::MAX
+            }
+        };
         let mut result = TryVec::with_capacity(size)?;
         for v in self.iter() {
             result.inner.try_extend_from_slice_no_copy(&v.inner)?;
-- 
2.43.0


From 27c6c111f747c9f584bacaf2fb803f7a0c87cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 03/11] fix: leave a BTreeMap unchanged when an insertion runs
 out of memory

---
 src/btree/map.rs  |  10 ++-
 src/btree/node.rs | 157 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 126 insertions(+), 41 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..57c8f01 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,9 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // Do everything that can fail before modifying the tree.
+        let mut spares = self.handle.try_reserve_nodes()?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2379,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spares) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2392,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spares) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2402,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_spare_level(&mut spares)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..fdf11bd 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -199,6 +199,57 @@ impl<K, V> BoxedNode<K, V> {
     }
 }
 
+/// The nodes an insertion is going to need. They are allocated before the tree is touched, so
+/// that an insertion either fails without having changed anything or cannot fail any more.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+
+    /// The first of a null-terminated list of owned nodes, linked by `data.parent`.
+    internal: *const InternalNode<K, V>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    fn new() -> Self {
+        SpareNodes {
+            leaf: None,
+            internal: ptr::null(),
+        }
+    }
+
+    fn add_leaf(&mut self) -> Result<(), TryReserveError> {
+        self.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+        Ok(())
+    }
+
+    fn add_internal(&mut self) -> Result<(), TryReserveError> {
+        let mut node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        node.data.parent = self.internal;
+        self.internal = Box::into_raw(node);
+        Ok(())
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().unwrap()
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        assert!(!self.internal.is_null());
+        let mut node = unsafe { Box::from_raw(self.internal as *mut InternalNode<K, V>) };
+        self.internal = mem::replace(&mut node.data.parent, ptr::null());
+        node
+    }
+}
+
+impl<K, V> Drop for SpareNodes<K, V> {
+    fn drop(&mut self) {
+        while !self.internal.is_null() {
+            drop(self.take_internal());
+        }
+    }
+}
+
 /// An owned tree. Note that despite being owned, this does not have a destructor,
 /// and must be cleaned up manually.
 pub struct Root<K, V> {
@@ -267,7 +318,23 @@ impl<K, V> Root<K, V> {
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        let new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        Ok(self.push_level_with(new_node))
+    }
+
+    /// Like `push_level`, but takes the new root from the given spare nodes.
+    pub fn push_spare_level(
+        &mut self,
+        spares: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        self.push_level_with(spares.take_internal())
+    }
+
+    fn push_level_with(
+        &mut self,
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
+        debug_assert!(!self.is_shared_root());
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +351,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -1009,6 +1076,26 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         }
     }
 
+    /// Allocates all the nodes that inserting a key/value pair at this edge requires: one for
+    /// each node that is going to be split, and one for a new root if the root is among them.
+    pub fn try_reserve_nodes(&self) -> Result<SpareNodes<K, V>, TryReserveError> {
+        let mut spares = SpareNodes::new();
+        let mut node = self.node.reborrow().forget_type();
+        if node.len() < CAPACITY {
+            return Ok(spares);
+        }
+        spares.add_leaf()?;
+        while let Ok(parent) = node.ascend() {
+            node = parent.into_node().forget_type();
+            if node.len() < CAPACITY {
+                return Ok(spares);
+            }
+            spares.add_internal()?;
+        }
+        spares.add_internal()?;
+        Ok(spares)
+    }
+
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
     /// this edge. This method splits the node if there isn't enough room.
     ///
@@ -1017,13 +1104,14 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spares: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spares.take_leaf());
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1035,7 +1123,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1096,16 +1184,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spares: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spares.take_internal());
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1119,7 +1208,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1184,23 +1273,19 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
+    /// - All the key/value pairs to the right of this handle are put into the (empty)
+    ///   `new_node`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<LeafNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1220,7 +1305,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1228,7 +1313,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1258,21 +1343,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
+    ///   the (empty) `new_node`.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        mut new_node: Box<InternalNode<K, V>>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
-
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
 
@@ -1307,7 +1388,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 68d94ad8376c19079912982911847e648635a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 04/11] fix: support BTreeMap keys with an alignment above 16

---
 src/btree/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index fdf11bd..fbb45f5 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -634,8 +634,18 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // We are not the shared root, so `as_leaf` is okay.
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From 38b81ea8f995192f3d8980076b313ad33b2994fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 05/11] fix: search before moving entries in
 BTreeMap::split_off, as a comparison may panic

---
 src/btree/map.rs  | 29 ++++++++++++++++++++---------
 src/btree/node.rs | 10 ++++++++++
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 57c8f01..ab1e1b9 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1098,24 +1098,35 @@ impl<K: Ord, V> BTreeMap<K, V> {
         }
 
         {
+            // Find the place of the split at all levels before moving anything, because
+            // comparing keys may panic.
             let mut left_node = self.root.as_mut();
-            let mut right_node = right.root.as_mut();
-
-            loop {
-                let mut split_edge = match search::search_node(left_node, key) {
+            let mut split_edge = loop {
+                let edge = match search::search_node(left_node, key) {
                     // key is going to the right tree
                     Found(handle) => handle.left_edge(),
                     GoDown(handle) => handle,
                 };
 
+                match edge.force() {
+                    Internal(edge) => left_node = edge.descend(),
+                    Leaf(edge) => break edge.forget_node_type(),
+                }
+            };
+
+            let mut right_node = first_leaf_edge(right.root.as_mut())
+                .into_node()
+                .forget_type();
+
+            loop {
                 split_edge.move_suffix(&mut right_node);
 
-                match (split_edge.force(), right_node.force()) {
-                    (Internal(edge), Internal(node)) => {
-                        left_node = edge.descend();
-                        right_node = node.first_edge().descend();
+                match (split_edge.into_node().ascend(), right_node.ascend()) {
+                    (Ok(edge), Ok(right_edge)) => {
+                        split_edge = edge.forget_node_type();
+                        right_node = right_edge.into_node().forget_type();
                     }
-                    (Leaf(_), Leaf(_)) => {
+                    (Err(_), Err(_)) => {
                         break;
                     }
                     _ => {
diff --git a/src/btree/node.rs b/src/btree/node.rs
index fbb45f5..10f4e53 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -1662,6 +1662,16 @@ unsafe fn move_edges<K, V>(
     dest.correct_childrens_parent_links(dest_offset, dest_offset + count);
 }
 
+impl<BorrowType, K, V, NodeType> Handle<NodeRef<BorrowType, K, V, NodeType>, marker::Edge> {
+    /// Removes any static information about whether the underlying node is a `Leaf` or an
+    /// `Internal` node.
+    pub fn forget_node_type(
+        self,
+    ) -> Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, marker::Edge> {
+        Handle::new_edge(self.node.forget_type(), self.idx)
+    }
+}
+
 impl<BorrowType, K, V, HandleType>
     Handle<NodeRef<BorrowType, K, V, marker::LeafOrInternal>, HandleType>
 {
-- 
2.43.0


From 5b2b4e2b1a6915abf3f92694bf0d8e05696b7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 06/11] fix: keep a BTreeMap well-formed when a comparison
 panics inside append

---
 src/btree/map.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index ab1e1b9..0d5ecb7 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -847,9 +847,19 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right: other_iter.peekable(),
         };
 
+        // The tree being built is restored to a proper shape even if `iter` panics, which it may
+        // do when it compares keys.
+        struct FixRightEdge<'a, K: Ord, V>(&'a mut BTreeMap<K, V>);
+
+        impl<K: Ord, V> Drop for FixRightEdge<'_, K, V> {
+            fn drop(&mut self) {
+                self.0.fix_top();
+                self.0.fix_right_edge();
+            }
+        }
+
         // Second, we build a tree from the sorted sequence in linear time.
-        self.from_sorted_iter(iter);
-        self.fix_right_edge();
+        FixRightEdge(self).0.from_sorted_iter(iter);
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
-- 
2.43.0


From ad9cff773dfd18d584d52cda37e3f9620995c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 07/11] fix: report failure to allocate a new Rc instead of
 aborting in the unstable configuration

---
 src/rc.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..9662ceb 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,23 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<T>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From d2b1655ae60d00e5bbbb5710209ba610fa8276fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 08/11] fix: report exhausted memory from std_io functions
 without allocating the error

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2d52ee4..80165a7 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -269,7 +269,7 @@ pub mod std_io {
             .try_into()
             .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -277,7 +277,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From 06296e25dda884eeb88558b79a446a79a16c97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 09/11] fix: tell the drop check that dropping a BTreeMap drops
 its keys and values

---
 src/btree/map.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 0d5ecb7..70de4eb 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -7,6 +7,7 @@ use core::iter::{FromIterator, FusedIterator, Peekable};
 use core::marker::PhantomData;
 use core::ops::Bound::{Excluded, Included, Unbounded};
 use core::ops::{Index, RangeBounds};
+use core::panic::{RefUnwindSafe, UnwindSafe};
 use core::{fmt, intrinsics, mem, ptr};
 
 use super::node::{self, marker, ForceResult::*, Handle, InsertResult::*, NodeRef};
@@ -124,8 +125,13 @@ use UnderflowResult::*;
 pub struct BTreeMap<K, V> {
     root: node::Root<K, V>,
     length: usize,
+    // For the drop check: dropping the map drops keys and values, which its raw nodes do not show.
+    _marker: PhantomData<(K, V)>,
 }
 
+// As without the marker, and as in std.
+impl<K: RefUnwindSafe, V: RefUnwindSafe> UnwindSafe for BTreeMap<K, V> {}
+
 unsafe impl<#[may_dangle] K, #[may_dangle] V> Drop for BTreeMap<K, V> {
     fn drop(&mut self) {
         unsafe {
@@ -150,6 +156,7 @@ impl<K: TryClone, V: TryClone> TryClone for BTreeMap<K, V> {
                     let mut out_tree = BTreeMap {
                         root: node::Root::new_leaf()?,
                         length: 0,
+                        _marker: PhantomData,
                     };
 
                     {
@@ -209,6 +216,7 @@ impl<K: TryClone, V: TryClone> TryClone for BTreeMap<K, V> {
             Ok(BTreeMap {
                 root: node::Root::shared_empty_root(),
                 length: 0,
+                _marker: PhantomData,
             })
         } else {
             clone_subtree(self.root.as_ref())
@@ -230,6 +238,7 @@ impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
                     let mut out_tree = BTreeMap {
                         root: node::Root::new_leaf().expect("Out of Mem"),
                         length: 0,
+                        _marker: PhantomData,
                     };
 
                     {
@@ -289,6 +298,7 @@ impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
             BTreeMap {
                 root: node::Root::shared_empty_root(),
                 length: 0,
+                _marker: PhantomData,
             }
         } else {
             clone_subtree(self.root.as_ref())
@@ -587,6 +597,7 @@ impl<K: Ord, V> BTreeMap<K, V> {
         BTreeMap {
             root: node::Root::shared_empty_root(),
             length: 0,
+            _marker: PhantomData,
         }
     }
 
-- 
2.43.0


From 3c0ad626bf1ca735b75fcd4b0ac549b2f8b082bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 10/11] fix: try_vec! works in crates that do not declare
 extern crate alloc

The list form named alloc::boxed::Box and the prelude's Ok and Err, which
are resolved in the caller's crate.
---
 src/vec.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 80165a7..c2ef744 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -15,10 +15,7 @@ macro_rules! try_vec {
         $crate::vec::try_from_elem($elem, $n)
     );
     ($($x:expr),*) => (
-        match <alloc::boxed::Box<_> as $crate::boxed::FallibleBox<_>>::try_new([$($x),*]) {
-            Err(e) => Err(e),
-            Ok(b) => Ok(<[_]>::into_vec(b)),
-        }
+        $crate::vec::try_from_array([$($x),*])
     );
     ($($x:expr,)*) => ($crate::try_vec![$($x),*])
 }
@@ -651,6 +648,14 @@ impl<T> Truncate for Vec<T> {
     }
 }
 
+/// Used by `try_vec!`, which cannot name `alloc` in the caller's crate
+#[cfg(feature = "unstable")]
+#[doc(hidden)]
+pub fn try_from_array<T, const N: usize>(array: [T; N]) -> Result<Vec<T>, TryReserveError> {
+    let b = <alloc::boxed::Box<[T; N]> as crate::boxed::FallibleBox<_>>::try_new(array)?;
+    Ok(<[T]>::into_vec(b))
+}
+
 /// try creating a vec from an `elem` cloned `n` times, see std::from_elem
 #[cfg(feature = "unstable")]
 pub fn try_from_elem<T: TryClone>(elem: T, n: usize) -> Result<Vec<T>, TryReserveError> {
-- 
2.43.0


From 398bff6815ca2dbb16619f1ede0963975b6174b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:28 +0000
Subject: [PATCH 11/11] fix: refuse a read limit beyond the address space
 without allocating an error

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index c2ef744..bddaa2a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -264,7 +264,7 @@ pub mod std_io {
     ) -> io::Result<usize> {
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         buf.reserve(additional)
             .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
-- 
2.43.0

