From 28c088754053e7b881720c4b002684c547f4e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 01/20] fix: keep operand order when concatenating a shorter
 vector with a taller one

---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 691b506997af526cd0b9b1d92509ecac39b0cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 02/20] fix: popping the last element accounts for the head
 buffer of a vector

---
 src/pvec/tree.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..e468162 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,27 +461,26 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head buffer holds elements.
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
-        let last_tree_index = tree_size - 1;
-        let last_element = self.root.get(last_tree_index)?.clone();
-
-        let (new_root, new_height) = if tree_size == 1 {
-            (
-                Arc::new(RRBNode::Leaf {
-                    elements: SmallVec::new(),
-                }),
-                0,
-            )
-        } else {
-            match self.root.pop_back() {
-                Some((new_root, _)) => (Arc::new(new_root), self.height),
-                None => (self.root.clone(), self.height),
-            }
-        };
+        let (new_root, popped) = self.root.pop_back()?;
+        let new_root = Arc::new(new_root);
+        let new_height = Self::calculate_height(&new_root);
 
         Some((
             Self {
@@ -491,7 +490,7 @@ impl<T: Clone> RRBTree<T> {
                 height: new_height,
                 len: self.len - 1,
             },
-            last_element,
+            popped,
         ))
     }
 
-- 
2.43.0


From c853f9ebd708ef62e6f139564fc5b9892681d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 03/20] fix: popping the first element out of the tail buffer
 keeps the order of the rest

---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index e468162..4f56024 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -535,11 +535,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From b483771024f09b5089d45f6c332fd726ed5e2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 04/20] fix: splitting an unbalanced tree descends to the leaf
 that holds the index

---
 src/pvec/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 4f56024..0ad59f3 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -752,7 +752,8 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Subtrees may be of different heights, so descend until a leaf is reached.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From b2a84f2e93ef1575bca8011d11667da652357a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 05/20] fix: never keep empty children in a tree, and recompute
 its height after concatenation

---
 src/pvec/node.rs |  8 ++++++++
 src/pvec/tree.rs | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..4d44937 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -212,6 +212,10 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        if self.calculate_size() == 0 {
+            return leaf.as_ref().clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
@@ -328,6 +332,10 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        if self.calculate_size() == 0 {
+            return leaf.as_ref().clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 0ad59f3..4ba0524 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -311,12 +311,14 @@ impl<T: Clone> RRBTree<T> {
             &right_for_merge.root,
             self.height.max(other.height),
         );
+        let merged_root = Arc::new(merged_root);
+        let merged_height = Self::calculate_height(&merged_root);
 
         Self {
-            root: Arc::new(merged_root),
+            root: merged_root,
             tail: right_for_merge.tail.clone(),
             head: left_for_merge.head.clone(),
-            height: self.height.max(other.height),
+            height: merged_height,
             len: self.len + other.len,
         }
     }
@@ -354,6 +356,15 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+        // An empty operand must not become an (empty) child: popping relies on every child
+        // holding at least one element.
+        if left.calculate_size() == 0 {
+            return right.as_ref().clone();
+        }
+        if right.calculate_size() == 0 {
+            return left.as_ref().clone();
+        }
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
-- 
2.43.0


From b2a76e9f52446c1f8bb858027b3db27ea239273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 06/20] fix: vectors with equal elements are equal, ordered and
 hashed alike however they were built

---
 src/pvec/core.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 src/pvec/node.rs | 14 ++++++++++++++
 src/pvec/tree.rs | 11 +++++++++++
 3 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..f99ffbb 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -51,7 +53,7 @@ pub struct PersistentVector<T> {
 ///
 /// Uses an adaptive strategy where small vectors are stored inline
 /// and larger vectors use a tree structure.
-#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug)]
 enum VectorImpl<T> {
     /// Inline storage for small vectors.
     Inline {
@@ -977,6 +979,43 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+impl<T> PersistentVector<T> {
+    /// References to all elements, in order, whatever the internal representation.
+    fn collect_refs(&self) -> Vec<&T> {
+        match &self.inner {
+            VectorImpl::Inline { elements } => elements.iter().collect(),
+            VectorImpl::Tree { tree } => tree.collect_refs(),
+        }
+    }
+}
+
+// Equality, ordering and hashing depend on the elements only, never on how the vector was built.
+impl<T: PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.collect_refs() == other.collect_refs()
+    }
+}
+
+impl<T: Eq> Eq for PersistentVector<T> {}
+
+impl<T: PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.collect_refs().partial_cmp(&other.collect_refs())
+    }
+}
+
+impl<T: Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.collect_refs().cmp(&other.collect_refs())
+    }
+}
+
+impl<T: Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.collect_refs().hash(state);
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 4d44937..6364db6 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -36,6 +36,20 @@ pub enum RRBNode<T> {
     },
 }
 
+impl<T> RRBNode<T> {
+    /// Appends references to all elements of this subtree, in order.
+    pub(crate) fn collect_refs<'a>(&'a self, out: &mut Vec<&'a T>) {
+        match self {
+            RRBNode::Leaf { elements } => out.extend(elements.iter()),
+            RRBNode::Branch { children, .. } => {
+                for child in children {
+                    child.collect_refs(out);
+                }
+            },
+        }
+    }
+}
+
 impl<T: Clone> RRBNode<T> {
     pub fn make_relaxed(children: Vec<Arc<RRBNode<T>>>) -> Self {
         let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> = children
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 4ba0524..8bf93e2 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -27,6 +27,17 @@ pub struct RRBTree<T> {
     pub len: usize,
 }
 
+impl<T> RRBTree<T> {
+    /// References to all elements, in order.
+    pub(crate) fn collect_refs(&self) -> Vec<&T> {
+        let mut out = Vec::with_capacity(self.len);
+        out.extend(self.head.iter());
+        self.root.collect_refs(&mut out);
+        out.extend(self.tail.iter());
+        out
+    }
+}
+
 impl<T: Clone> RRBTree<T> {
     pub fn from_elements<I: Iterator<Item = T>>(elements: I) -> Self {
         let elements: Vec<T> = elements.collect();
-- 
2.43.0


From 4eb9bf428280ebd66d77844a6dcbd7ffeab838de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 07/20] fix: bound the height of concatenated trees so that
 long edit histories do not overflow the stack

---
 src/pvec/tree.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 8bf93e2..e3e810f 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -9,6 +9,9 @@ use super::node::{
 use smallvec::SmallVec;
 use std::sync::Arc;
 
+/// Height above which a concatenation rebuilds a balanced tree.
+const MAX_CONCAT_HEIGHT: usize = 32;
+
 /// An RRB tree structure for efficient persistent vector operations.
 ///
 /// The RRB tree combines the root tree structure with head and tail buffers
@@ -239,7 +242,7 @@ impl<T: Clone> RRBTree<T> {
         };
 
         let new_root = self.root.push_leaf(Arc::new(tail_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let new_height = self.height_after_leaf_push();
 
         Self {
             root: Arc::new(new_root),
@@ -277,7 +280,7 @@ impl<T: Clone> RRBTree<T> {
         };
 
         let new_root = self.root.push_front_leaf(Arc::new(head_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let new_height = self.height_after_leaf_push();
 
         Self {
             root: Arc::new(new_root),
@@ -325,12 +328,20 @@ impl<T: Clone> RRBTree<T> {
         let merged_root = Arc::new(merged_root);
         let merged_height = Self::calculate_height(&merged_root);
 
-        Self {
+        let merged = Self {
             root: merged_root,
             tail: right_for_merge.tail.clone(),
             head: left_for_merge.head.clone(),
             height: merged_height,
             len: self.len + other.len,
+        };
+
+        // Joining uneven trees keeps adding levels; without a bound, long histories of
+        // insertions and concatenations end in a stack overflow.
+        if merged.height > MAX_CONCAT_HEIGHT {
+            Self::from_elements(merged.collect_refs().into_iter().cloned())
+        } else {
+            merged
         }
     }
 
@@ -501,15 +512,13 @@ impl<T: Clone> RRBTree<T> {
         }
 
         let (new_root, popped) = self.root.pop_back()?;
-        let new_root = Arc::new(new_root);
-        let new_height = Self::calculate_height(&new_root);
 
         Some((
             Self {
-                root: new_root,
+                root: Arc::new(new_root),
                 tail: self.tail.clone(),
                 head: self.head.clone(),
-                height: new_height,
+                height: self.height,
                 len: self.len - 1,
             },
             popped,
@@ -895,16 +904,22 @@ impl<T: Clone> RRBTree<T> {
         (left, right)
     }
 
+    /// Height of the tree after a leaf has been pushed at either end of the root.
+    fn height_after_leaf_push(&self) -> usize {
+        match self.root.as_ref() {
+            RRBNode::Branch { children, .. } if children.len() < BRANCHING_FACTOR => self.height,
+            _ => self.height + 1,
+        }
+    }
+
     fn calculate_height(node: &Arc<RRBNode<T>>) -> usize {
         match node.as_ref() {
             RRBNode::Leaf { .. } => 0,
-            RRBNode::Branch { children, .. } => {
-                if let Some(first_child) = children.first() {
-                    1 + Self::calculate_height(first_child)
-                } else {
-                    0
-                }
-            },
+            RRBNode::Branch { children, .. } => children
+                .iter()
+                .map(|child| 1 + Self::calculate_height(child))
+                .max()
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From b3ac90034db7471836b7cfabdd35005c0113bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 08/20] fix: combine_n_owned combines a value with itself n
 times instead of doubling it

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From de741dfd7a005e809646cad0e24d0d3dad39f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 09/20] fix: binding a reader transformer clones the value
 instead of copying its bits

---
 src/transformers/reader_t.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..4fae37a 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,11 +953,7 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
-                f_clone(a_value).run_reader(e_clone.clone())
+                f_clone(source_ref.clone()).run_reader(e_clone.clone())
             })
         })
     }
-- 
2.43.0


From 0e56580d05b5895949d75ac2baee8f3a93f9749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 10/20] fix: concurrent runs of an asynchronous IO wait for its
 result

---
 src/datatypes/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..9fd8584 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -780,8 +780,9 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
                 return cached_result.clone();
             }
 
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
+            // The lock is held until the result is cached, so that concurrent callers wait for it.
+            let mut future_slot = future_once.lock().unwrap();
+            if let Some(f) = future_slot.take() {
                 let result = TOKIO_RUNTIME
                     .block_on(tokio::task::spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
-- 
2.43.0


From d8d33fd36b5de55bf08e9ed621c9abaf8419a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 11/20] fix: a recovered error pipeline drops the contexts of
 the error it handled

---
 src/error/context.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/error/context.rs b/src/error/context.rs
index 7964dc6..66a8327 100644
--- a/src/error/context.rs
+++ b/src/error/context.rs
@@ -275,10 +275,11 @@ impl<T, E> ErrorPipeline<T, E> {
     where
         F: FnOnce(E) -> Result<T, E>,
     {
-        ErrorPipeline {
-            result: self.result.or_else(recovery),
-            pending_contexts: self.pending_contexts,
-        }
+        let result = self.result.or_else(recovery);
+        // The buffered contexts describe the error that has just been handled.
+        let pending_contexts =
+            if result.is_ok() { SmallVec::new() } else { self.pending_contexts };
+        ErrorPipeline { result, pending_contexts }
     }
 
     /// Chains another operation that might fail.
-- 
2.43.0


From 6496e113247dfaf058b9be07fd35d05718675111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 12/20] fix: collecting validations is invalid when an input is
 invalid without errors

---
 src/datatypes/validated/core.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..eb00255 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,18 +1547,21 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
-                match item {
-                    Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
-                }
-                (values, errors)
+        let (values, errors, all_valid): (Vec<_>, SmallVec<[E; 8]>, bool) = iter.fold(
+            (Vec::new(), SmallVec::<[E; 8]>::new(), true),
+            |(mut values, mut errors, all_valid), item| match item {
+                Validated::Valid(a) => {
+                    values.push(a);
+                    (values, errors, all_valid)
+                },
+                Validated::Invalid(es) => {
+                    errors.extend(es);
+                    (values, errors, false)
+                },
             },
         );
 
-        if errors.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(errors)
@@ -1595,15 +1598,19 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut all_valid = true;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    all_valid = false;
+                    acc.extend_owned(es);
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(acc.into_inner())
-- 
2.43.0


From 019498e00abd1edc2ba0809450e3886d886cc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 13/20] fix: binding or joining a choice keeps the alternatives
 when an earlier result is empty

---
 src/datatypes/choice.rs | 131 +++++++---------------------------------
 1 file changed, 23 insertions(+), 108 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..2f82c53 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,9 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        // An empty result contributes nothing; the results of the alternatives still count.
+        let values = self.values.iter().flat_map(|value| f(value).values).collect();
+        Choice { values }
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1456,8 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        let values = self.values.into_iter().flat_map(|value| f(value).values).collect();
+        Choice { values }
     }
 
     #[inline]
@@ -1514,33 +1466,15 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        let values = self
+            .values
+            .iter()
+            .flat_map(|value| {
+                let inner: Self::Output<U> = value.clone().into();
+                inner.values
+            })
+            .collect();
+        Choice { values }
     }
 
     #[inline]
@@ -1549,34 +1483,15 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        let values = self
+            .values
+            .into_iter()
+            .flat_map(|value| {
+                let inner: Self::Output<U> = value.into();
+                inner.values
+            })
+            .collect();
+        Choice { values }
     }
 }
 
-- 
2.43.0


From f165efe6ad1a9653e6f232adb25b39d662026a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 14/20] fix: checked value access reports absence for every
 container that may hold no value

---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 13 +++++++++++++
 src/datatypes/maybe.rs            | 10 ++++++++++
 src/datatypes/validated/traits.rs | 16 ++++++++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 69 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index 2f82c53..9933a49 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1314,6 +1314,16 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..f42a1d3 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1082,6 +1082,19 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Either::Left(_) => None,
+            Either::Right(r) => Some(r),
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.right_option()
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..010c78e 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1420,6 +1420,16 @@ impl<T> Identity for Maybe<T> {
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.as_option()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.to_option()
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..9d7b4be 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -651,6 +651,22 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Validated::Valid(a) => Some(a),
+            Validated::Invalid(_) => None,
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Validated::Valid(a) => Some(a),
+            Validated::Invalid(_) => None,
+        }
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..11628c1 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -381,6 +381,16 @@ impl<T: Clone> Identity for First<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..95aef28 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -400,6 +400,16 @@ impl<T: Clone> Identity for Last<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0


From 4b92d2b306e1e24306e1cca73879f9bbbee2cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 15/20] fix: ContT lift passes the base value to the
 continuation

Lifting discarded the continuation, so lift(pure(x)) was not pure(x) and a
lifted step ended the whole computation.
---
 src/transformers/cont_t.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transformers/cont_t.rs b/src/transformers/cont_t.rs
index dfa31cd..c54c3a5 100644
--- a/src/transformers/cont_t.rs
+++ b/src/transformers/cont_t.rs
@@ -335,13 +335,15 @@ impl<R, M, A> ContT<R, M, A> {
 
 use crate::transformers::MonadTransformer;
 
-impl<R, M: Monad + Clone + Send + Sync + 'static, A: Send + Sync + 'static> MonadTransformer
-    for ContT<R, M, A>
+impl<R, M, A> MonadTransformer for ContT<R, M, A>
+where
+    M: Monad<Source = A, Output<A> = M> + Clone + Send + Sync + 'static,
+    A: Clone + Send + Sync + 'static,
 {
     type BaseMonad = M;
 
     fn lift(base: Self::BaseMonad) -> Self {
-        ContT::new(move |_k| base.clone())
+        ContT::new(move |k| base.bind::<A, _>(|a: &A| k(a.clone())))
     }
 }
 
-- 
2.43.0


From 40e372deb65d0843d223ea8b6b91b043d25afc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 16/20] fix: asynchronous IO can be run outside a Tokio runtime

---
 src/datatypes/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index 9fd8584..b772a28 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -784,7 +784,7 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
             let mut future_slot = future_once.lock().unwrap();
             if let Some(f) = future_slot.take() {
                 let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
+                    .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
                     }))
                     .unwrap();
-- 
2.43.0


From 65f6b94d3f1496110315e99b193e7076fd530a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 17/20] fix: Validated::invalid_many does not reserve a loose
 upper bound

---
 src/datatypes/validated/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index eb00255..2940349 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -719,7 +719,8 @@ impl<E: Clone, A: Clone> Validated<E, A> {
                 if upper_bound <= 4 {
                     Validated::Invalid(iter.collect())
                 } else {
-                    let mut vec = SmallVec::with_capacity(upper_bound);
+                    // An upper bound may be far from tight, so only reserve the lower bound
+                    let mut vec = SmallVec::with_capacity(lower);
                     vec.extend(iter);
                     Validated::Invalid(vec)
                 }
-- 
2.43.0


From 86feeb994e199d927e27f126e046aac293932c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 18/20] fix: a panicking computation does not disable a
 memoizer

---
 src/datatypes/wrapper/memoizer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/datatypes/wrapper/memoizer.rs b/src/datatypes/wrapper/memoizer.rs
index f3ec6fc..521772a 100644
--- a/src/datatypes/wrapper/memoizer.rs
+++ b/src/datatypes/wrapper/memoizer.rs
@@ -77,7 +77,7 @@
 //! ```
 use std::collections::HashMap;
 use std::hash::Hash;
-use std::sync::RwLock;
+use std::sync::{PoisonError, RwLock};
 
 /// Thread-safe memoizer for pure functions.
 ///
@@ -200,13 +200,14 @@ where
     {
         // Try to read from cache first
         {
-            let cache = self.cache.read().unwrap();
+            let cache = self.cache.read().unwrap_or_else(PoisonError::into_inner);
             if let Some(v) = cache.get(&key) {
                 return v.clone();
             }
         }
-        // Not found, compute and insert
-        let mut cache = self.cache.write().unwrap();
+        // Not found, compute and insert. A computation that panics has not touched the cache, so a
+        // poisoned lock is still safe to use.
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         // Double-check in case another thread inserted
         if let Some(v) = cache.get(&key) {
             return v.clone();
@@ -252,7 +253,7 @@ where
     /// assert_eq!(value, 126);
     /// ```
     pub fn clear(&self) {
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         cache.clear();
     }
 }
-- 
2.43.0


From 87a287304f2b0b49401f7e94ba6c6409003cafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 19/20] fix: keep vectors balanced when leaves are pushed and
 trees joined

Pushing added a level for every 31 leaves and joining added levels (or
unbounded children) along the seam, so updates, pops and lookups on a long
vector cost time and memory linear in its length, and joins rebuilt the whole
vector every so often. Joining along the seam, splitting full nodes, keeps all
leaves equally deep and shares everything off the seam.
---
 src/pvec/node.rs | 168 ++++++++++++++++---------------------
 src/pvec/tree.rs | 210 ++++-------------------------------------------
 2 files changed, 88 insertions(+), 290 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 6364db6..fd2b00e 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -225,52 +225,82 @@ impl<T: Clone> RRBNode<T> {
         }
     }
 
-    pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
-        if self.calculate_size() == 0 {
-            return leaf.as_ref().clone();
+    /// Height of this subtree (0 for a leaf). All leaves of a tree are equally deep.
+    pub fn height(&self) -> usize {
+        match self {
+            RRBNode::Leaf { .. } => 0,
+            RRBNode::Branch { children, .. } => {
+                children.first().map_or(0, |child| 1 + child.height())
+            },
         }
+    }
 
-        match self {
-            RRBNode::Leaf { .. } => {
-                let self_size = self.calculate_size();
-                let leaf_size = leaf.calculate_size();
-                let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                    SmallVec::from_iter([self_size, leaf_size]);
-
-                RRBNode::Branch {
-                    children: SmallVec::from_iter([Arc::new(self.clone()), leaf]),
-                    sizes: Some(sizes),
-                }
+    /// Joins two subtrees, of any heights, and returns the root of the result and its height.
+    pub fn join(left: &Arc<Self>, right: &Arc<Self>) -> (Arc<Self>, usize) {
+        // An empty operand must not become an (empty) child: popping relies on every child
+        // holding at least one element.
+        if left.calculate_size() == 0 {
+            return (right.clone(), right.height());
+        }
+        if right.calculate_size() == 0 {
+            return (left.clone(), left.height());
+        }
+
+        let (left_height, right_height) = (left.height(), right.height());
+        let height = left_height.max(right_height);
+        let mut nodes = Self::join_along_seam(left, left_height, right, right_height);
+        if nodes.len() == 1 {
+            (nodes.remove(0), height)
+        } else {
+            (Arc::new(Self::make_relaxed(nodes)), height + 1)
+        }
+    }
+
+    /// Joins two nonempty subtrees into one node, or two if one cannot hold everything, of the
+    /// height of the taller. Only the nodes along the seam are new.
+    fn join_along_seam(
+        left: &Arc<Self>, left_height: usize, right: &Arc<Self>, right_height: usize,
+    ) -> Vec<Arc<Self>> {
+        if let (RRBNode::Leaf { elements: l }, RRBNode::Leaf { elements: r }) =
+            (left.as_ref(), right.as_ref())
+        {
+            if l.len() + r.len() > LEAF_CAPACITY {
+                return vec![left.clone(), right.clone()];
+            }
+            let elements = l.iter().chain(r.iter()).cloned().collect();
+            return vec![Arc::new(RRBNode::Leaf { elements })];
+        }
+
+        let height = left_height.max(right_height);
+        let (before, last) = match left.as_ref() {
+            RRBNode::Branch { children, .. } if left_height == height => {
+                let (last, before) = children.split_last().expect("branches have children");
+                (before, last)
             },
-            RRBNode::Branch { children, sizes } => {
-                if children.len() < BRANCHING_FACTOR {
-                    let mut new_children = children.clone();
-                    new_children.push(leaf.clone());
-
-                    let mut new_sizes = sizes.clone().unwrap_or_else(|| {
-                        children
-                            .iter()
-                            .map(|child| child.calculate_size())
-                            .collect()
-                    });
-                    new_sizes.push(leaf.calculate_size());
-
-                    RRBNode::Branch {
-                        children: new_children,
-                        sizes: Some(new_sizes),
-                    }
-                } else {
-                    let self_size = self.calculate_size();
-                    let leaf_size = leaf.calculate_size();
-                    let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                        SmallVec::from_iter([self_size, leaf_size]);
-
-                    RRBNode::Branch {
-                        children: SmallVec::from_iter([Arc::new(self.clone()), leaf]),
-                        sizes: Some(sizes),
-                    }
-                }
+            _ => (&[][..], left),
+        };
+        let (first, after) = match right.as_ref() {
+            RRBNode::Branch { children, .. } if right_height == height => {
+                children.split_first().expect("branches have children")
             },
+            _ => (right, &[][..]),
+        };
+
+        let below = height - 1;
+        let seam =
+            Self::join_along_seam(last, left_height.min(below), first, right_height.min(below));
+        let mut children = before.to_vec();
+        children.extend(seam);
+        children.extend_from_slice(after);
+
+        if children.len() <= BRANCHING_FACTOR {
+            vec![Arc::new(Self::make_relaxed(children))]
+        } else {
+            let upper = children.split_off(children.len() / 2);
+            vec![
+                Arc::new(Self::make_relaxed(children)),
+                Arc::new(Self::make_relaxed(upper)),
+            ]
         }
     }
 
@@ -345,60 +375,6 @@ impl<T: Clone> RRBNode<T> {
         }
     }
 
-    pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
-        if self.calculate_size() == 0 {
-            return leaf.as_ref().clone();
-        }
-
-        match self {
-            RRBNode::Leaf { .. } => {
-                let leaf_size = leaf.calculate_size();
-                let self_size = self.calculate_size();
-                let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                    SmallVec::from_iter([leaf_size, self_size]);
-
-                RRBNode::Branch {
-                    children: SmallVec::from_iter([leaf, Arc::new(self.clone())]),
-                    sizes: Some(sizes),
-                }
-            },
-            RRBNode::Branch { children, sizes } => {
-                if children.len() < BRANCHING_FACTOR {
-                    let mut new_children = SmallVec::with_capacity(children.len() + 1);
-                    new_children.push(leaf.clone());
-                    new_children.extend(children.iter().cloned());
-
-                    let new_sizes = if let Some(sizes) = sizes {
-                        let mut new_sizes = SmallVec::with_capacity(sizes.len() + 1);
-                        new_sizes.push(leaf.calculate_size());
-                        new_sizes.extend(sizes.iter().cloned());
-                        new_sizes
-                    } else {
-                        let mut new_sizes = SmallVec::with_capacity(children.len() + 1);
-                        new_sizes.push(leaf.calculate_size());
-                        new_sizes.extend(children.iter().map(|child| child.calculate_size()));
-                        new_sizes
-                    };
-
-                    RRBNode::Branch {
-                        children: new_children,
-                        sizes: Some(new_sizes),
-                    }
-                } else {
-                    let leaf_size = leaf.calculate_size();
-                    let self_size = self.calculate_size();
-                    let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                        SmallVec::from_iter([leaf_size, self_size]);
-
-                    RRBNode::Branch {
-                        children: SmallVec::from_iter([leaf, Arc::new(self.clone())]),
-                        sizes: Some(sizes),
-                    }
-                }
-            },
-        }
-    }
-
     pub fn pop_front(&self) -> Option<(Self, T)> {
         match self {
             RRBNode::Leaf { elements } => {
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index e3e810f..ed7c3f7 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -9,9 +9,6 @@ use super::node::{
 use smallvec::SmallVec;
 use std::sync::Arc;
 
-/// Height above which a concatenation rebuilds a balanced tree.
-const MAX_CONCAT_HEIGHT: usize = 32;
-
 /// An RRB tree structure for efficient persistent vector operations.
 ///
 /// The RRB tree combines the root tree structure with head and tail buffers
@@ -241,14 +238,13 @@ impl<T: Clone> RRBTree<T> {
             elements: self.tail.clone(),
         };
 
-        let new_root = self.root.push_leaf(Arc::new(tail_leaf));
-        let new_height = self.height_after_leaf_push();
+        let (root, height) = RRBNode::join(&self.root, &Arc::new(tail_leaf));
 
         Self {
-            root: Arc::new(new_root),
+            root,
             tail: SmallVec::new(),
             head: self.head.clone(),
-            height: new_height,
+            height,
             len: self.len,
         }
     }
@@ -279,14 +275,13 @@ impl<T: Clone> RRBTree<T> {
             elements: self.head.clone(),
         };
 
-        let new_root = self.root.push_front_leaf(Arc::new(head_leaf));
-        let new_height = self.height_after_leaf_push();
+        let (root, height) = RRBNode::join(&Arc::new(head_leaf), &self.root);
 
         Self {
-            root: Arc::new(new_root),
+            root,
             tail: self.tail.clone(),
             head: SmallVec::new(),
-            height: new_height,
+            height,
             len: self.len,
         }
     }
@@ -299,170 +294,16 @@ impl<T: Clone> RRBTree<T> {
             return self.clone();
         }
 
-        if self.height == other.height {
-            self.concat_same_height(other)
-        } else if self.height < other.height {
-            self.concat_different_height(other, false)
-        } else {
-            self.concat_different_height(other, true)
-        }
-    }
-
-    fn concat_same_height(&self, other: &Self) -> Self {
-        let mut left_for_merge = self.clone();
-        let mut right_for_merge = other.clone();
-
-        if !left_for_merge.tail.is_empty() {
-            left_for_merge = left_for_merge.push_tail_to_tree();
-        }
-
-        if !right_for_merge.head.is_empty() {
-            right_for_merge = right_for_merge.push_head_to_tree();
-        }
-
-        let merged_root = Self::concat_nodes(
-            &left_for_merge.root,
-            &right_for_merge.root,
-            self.height.max(other.height),
-        );
-        let merged_root = Arc::new(merged_root);
-        let merged_height = Self::calculate_height(&merged_root);
-
-        let merged = Self {
-            root: merged_root,
-            tail: right_for_merge.tail.clone(),
-            head: left_for_merge.head.clone(),
-            height: merged_height,
-            len: self.len + other.len,
-        };
-
-        // Joining uneven trees keeps adding levels; without a bound, long histories of
-        // insertions and concatenations end in a stack overflow.
-        if merged.height > MAX_CONCAT_HEIGHT {
-            Self::from_elements(merged.collect_refs().into_iter().cloned())
-        } else {
-            merged
-        }
-    }
-
-    fn concat_different_height(&self, other: &Self, left_higher: bool) -> Self {
-        if left_higher {
-            let elevated_other = Self::elevate_tree(other, self.height);
-            self.concat_same_height(&elevated_other)
-        } else {
-            let elevated_self = Self::elevate_tree(self, other.height);
-            elevated_self.concat_same_height(other)
-        }
-    }
-
-    fn elevate_tree(tree: &Self, target_height: usize) -> Self {
-        let mut current_root = tree.root.clone();
-        let mut current_height = tree.height;
-
-        while current_height < target_height {
-            let new_root = RRBNode::Branch {
-                children: SmallVec::from_iter([current_root.clone()]),
-                sizes: Some(SmallVec::from_iter([current_root.calculate_size()])),
-            };
-            current_root = Arc::new(new_root);
-            current_height += 1;
-        }
+        let left = self.push_tail_to_tree();
+        let right = other.push_head_to_tree();
+        let (root, height) = RRBNode::join(&left.root, &right.root);
 
         Self {
-            root: current_root,
-            tail: tree.tail.clone(),
-            head: tree.head.clone(),
-            height: current_height,
-            len: tree.len,
-        }
-    }
-
-    fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
-        // An empty operand must not become an (empty) child: popping relies on every child
-        // holding at least one element.
-        if left.calculate_size() == 0 {
-            return right.as_ref().clone();
-        }
-        if right.calculate_size() == 0 {
-            return left.as_ref().clone();
-        }
-
-        match (left.as_ref(), right.as_ref()) {
-            (
-                RRBNode::Leaf {
-                    elements: left_elems,
-                },
-                RRBNode::Leaf {
-                    elements: right_elems,
-                },
-            ) => {
-                let mut combined = left_elems.clone();
-                combined.extend(right_elems.iter().cloned());
-
-                if combined.len() <= LEAF_CAPACITY {
-                    RRBNode::Leaf { elements: combined }
-                } else {
-                    let mid = LEAF_CAPACITY;
-                    let left_part = SmallVec::from_iter(combined.iter().take(mid).cloned());
-                    let right_part = SmallVec::from_iter(combined.iter().skip(mid).cloned());
-
-                    RRBNode::make_relaxed(vec![
-                        Arc::new(RRBNode::Leaf {
-                            elements: left_part,
-                        }),
-                        Arc::new(RRBNode::Leaf {
-                            elements: right_part,
-                        }),
-                    ])
-                }
-            },
-            (
-                RRBNode::Branch {
-                    children: left_children,
-                    ..
-                },
-                RRBNode::Branch {
-                    children: right_children,
-                    ..
-                },
-            ) => {
-                let mut new_children = Vec::new();
-
-                for i in 0..left_children.len().saturating_sub(1) {
-                    new_children.push(left_children[i].clone());
-                }
-
-                if let (Some(left_last), Some(right_first)) =
-                    (left_children.last(), right_children.first())
-                {
-                    let next_height = height.saturating_sub(1);
-                    let merged_middle = Self::concat_nodes(left_last, right_first, next_height);
-                    new_children.push(Arc::new(merged_middle));
-                }
-
-                for i in 1..right_children.len() {
-                    new_children.push(right_children[i].clone());
-                }
-
-                RRBNode::make_relaxed(new_children)
-            },
-            (RRBNode::Leaf { .. }, RRBNode::Branch { .. })
-            | (RRBNode::Branch { .. }, RRBNode::Leaf { .. }) => {
-                let left_as_branch = match left.as_ref() {
-                    RRBNode::Leaf { .. } => vec![left.clone()],
-                    RRBNode::Branch { children, .. } => children.iter().cloned().collect(),
-                };
-
-                let right_as_branch = match right.as_ref() {
-                    RRBNode::Leaf { .. } => vec![right.clone()],
-                    RRBNode::Branch { children, .. } => children.iter().cloned().collect(),
-                };
-
-                let mut all_children = left_as_branch;
-                all_children.extend(right_as_branch);
-
-                RRBNode::make_relaxed(all_children)
-            },
+            root,
+            tail: right.tail,
+            head: left.head,
+            height,
+            len: self.len + other.len,
         }
     }
 
@@ -866,7 +707,7 @@ impl<T: Clone> RRBTree<T> {
 
     fn from_head_and_root(head: SmallVec<[T; LEAF_CAPACITY]>, root: Arc<RRBNode<T>>) -> Self {
         let tree_size = root.calculate_size();
-        let height = Self::calculate_height(&root);
+        let height = root.height();
         Self {
             root,
             tail: SmallVec::new(),
@@ -878,7 +719,7 @@ impl<T: Clone> RRBTree<T> {
 
     fn from_root_and_tail(root: Arc<RRBNode<T>>, tail: SmallVec<[T; LEAF_CAPACITY]>) -> Self {
         let tree_size = root.calculate_size();
-        let height = Self::calculate_height(&root);
+        let height = root.height();
         Self {
             root,
             tail: tail.clone(),
@@ -903,23 +744,4 @@ impl<T: Clone> RRBTree<T> {
         let right = SmallVec::from_iter(self.tail.iter().skip(index).cloned());
         (left, right)
     }
-
-    /// Height of the tree after a leaf has been pushed at either end of the root.
-    fn height_after_leaf_push(&self) -> usize {
-        match self.root.as_ref() {
-            RRBNode::Branch { children, .. } if children.len() < BRANCHING_FACTOR => self.height,
-            _ => self.height + 1,
-        }
-    }
-
-    fn calculate_height(node: &Arc<RRBNode<T>>) -> usize {
-        match node.as_ref() {
-            RRBNode::Leaf { .. } => 0,
-            RRBNode::Branch { children, .. } => children
-                .iter()
-                .map(|child| 1 + Self::calculate_height(child))
-                .max()
-                .unwrap_or(0),
-        }
-    }
 }
-- 
2.43.0


From d2744873f36da72907e6eb93ec618bf10f627b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 20/20] fix: report the original panic of a failing future in
 IO::new_async

---
 src/datatypes/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index b772a28..08d997b 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -787,7 +787,7 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
                     .block_on(TOKIO_RUNTIME.spawn_blocking(move || {
                         TOKIO_RUNTIME.block_on(f)
                     }))
-                    .unwrap();
+                    .unwrap_or_else(|e| std::panic::resume_unwind(e.into_panic()));
                 let _ = result_cache.set(result.clone());
                 result
             } else {
-- 
2.43.0

