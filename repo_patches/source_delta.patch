From 49f7325ed4481f77b1e4b04f0fd07b7d641aa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 01/11] fix: build tuple trees whose branch ends with a branch

A Frame event always ends the innermost open branch. The offset and parent
were advanced only after a leaf, so (0,(1,(2,3)),4) was built with wrong
parents and counts.
---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From 7f4e14fc2dedd733db9bb73f5fe6ee5c470d18f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 02/11] fix: count every handle into contiguous storage

Cloning, downgrading and upgrading a piled node did not increment the
reference count of the node buffer, while dropping the handle decremented
it, so the buffer was freed under live handles.
---
 src/rc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..7c8b61f 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,8 +113,9 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
-                    let node = node_vec.as_ref().buf.get_unchecked( *index );
-                    node.count.incr();
+                    let node_vec = node_vec.as_ref();
+                    node_vec.ref_cnt.incr();
+                    node_vec.buf.get_unchecked( *index ).count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
             },
@@ -455,7 +456,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -544,6 +548,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From e6089959619bfd2c6d72531a007cbc1f0af5b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 03/11] fix: keep the next node of a shared iteration alive

IterRc looked one sibling ahead through a raw pointer, which dangled when
that sibling or the whole tree was dropped between two steps. It now holds
a handle on it.
---
 src/iter_rc.rs | 30 ++++++++++++++++--------------
 src/lib.rs     |  1 -
 src/rc.rs      | 17 ++++++++++++-----
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..e54d27e 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -2,7 +2,7 @@
 
 use crate::rust::*;
 
-use super::{CountedRawIter, Node, RcNode};
+use super::RcNode;
 
 /// An iterator over the child `Node`s of `RcNode` with shared ownership.
 ///
@@ -11,31 +11,33 @@ use super::{CountedRawIter, Node, RcNode};
 ///
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
-    iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    curr : Option<RcNode<T>>, // holds the node, because the tree may be edited during the iteration.
+    len  : usize,
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        if self.len == 0 {
+            return None;
+        }
+        self.len -= 1;
+
+        let item = self.curr.take()?;
+        if self.len > 0 {
+            self.curr = item.next_sib();
+        }
+        Some( item )
     }
 
-    fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
+    fn size_hint( &self ) -> ( usize, Option<usize> ) { (self.len, Some( self.len ))}
 }
 
 impl<T> IterRc<T> {
-    pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
-    }
+    pub(crate) fn new( curr: Option<RcNode<T>>, len: usize ) -> Self { IterRc{ curr, len }}
 }
 
 impl<T> Clone for IterRc<T> {
-    fn clone( &self ) -> Self {
-        IterRc { ..*self }
-    }
+    fn clone( &self ) -> Self { IterRc{ curr: self.curr.clone(), len: self.len }}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..76d64dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -151,7 +151,6 @@ pub(crate) use node_vec::NodeVec;
 
 pub mod iter;
 pub use iter::{Iter, IterMut};
-pub(crate) use iter::CountedRawIter;
 
 pub mod into_iter;
 pub use into_iter::IntoIter;
diff --git a/src/rc.rs b/src/rc.rs
index 7c8b61f..89c210c 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -445,11 +445,18 @@ impl<T> RcNode<T> {
     /// ```
     pub fn iter_rc( &self ) -> IterRc<T> {
         let node = self.node_borrow();
-        if node.has_no_child() {
-            IterRc::new( None, 0 )
-        } else {
-            IterRc::new( node.front().map( |front| front.non_null() ), node.degree() )
-        }
+        IterRc::new( node.front().map( |front| front.rc() ), node.degree() )
+    }
+
+    // The next sibling, regardless of outstanding borrows of `self`.
+    pub(crate) fn next_sib( &self ) -> Option<RcNode<T>> {
+        let node = match self {
+            RcNode::Scattered( ScatteredRcNode( rc )) => rc.as_ptr(),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
+                node_vec.as_ref().buf.get_unchecked( *index ).as_ptr()
+            },
+        };
+        unsafe{ (*node).next.map( |next| next.as_ref().rc() )}
     }
 
     /// Creates a new weak pointer to this node.
-- 
2.43.0


From 34fb781e545d73afa3a3a2b884ebaa592785b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 04/11] fix: deep_clone of a shared node obeys the dynamic
 borrow rules

Only the node itself was borrowed while its descendants were read through
raw references, even if they were mutably borrowed at that time or edited
by T::clone().
---
 src/rc.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 89c210c..c01f848 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -2,7 +2,8 @@
 
 use crate::rust::*;
 
-use super::{Data, Forest, Node, NodeVec, IterRc, Tree};
+use super::{Data, Forest, Node, NodeVec, IterRc, Size, Tree};
+use super::bfs::{BfsTree, Visit};
 
 // Replacement of std::rc::Rc to avoid heap allocations.
 pub(crate) struct Shared<T> {
@@ -516,7 +517,23 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        // Takes down the shape in breadth-first order at first, because `T::clone()` could edit the tree.
+        let mut nodes = Vec::with_capacity( self.node_count() );
+        nodes.push( (self.clone(), self.node_borrow().size) );
+        let mut nth = 0;
+        while nth < nodes.len() {
+            let children = nodes[ nth ].0.iter_rc();
+            nodes.extend( children.map( |child| { let size = child.node_borrow().size; (child, size) }));
+            nth += 1;
+        }
+
+        let size = Size{ degree: 1, descendants: nodes.len()-1 };
+        Tree::from( BfsTree {
+            iter: nodes.into_iter().map( |(node,size)| Visit{ data: node.data().clone(), size }),
+            size,
+        })
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From db5913417fdd4b6516dbd7a735ccdce26a725e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 05/11] fix: building from an inconsistent BFS stream fails
 cleanly

A stream that was too short, too long or told wrong sizes gave a tree with
false counts, missing items or writes beyond the buffer, and a stream that
panicked leaked the nodes built so far. Nodes under construction now are
owned by a guard and the stream is verified against the sizes it tells.
---
 src/bfs_impls.rs | 69 ++++++++++--------------------------------------
 src/forest.rs    |  8 +++---
 src/node_vec.rs  | 69 +++++++++++++++++++++++++++++++++++++++++++++++-
 src/tree.rs      |  9 ++++---
 4 files changed, 91 insertions(+), 64 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..397d6b5 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -4,7 +4,8 @@ use crate::bfs::{BfsForest, BfsTree, Split, Splitted, Visit};
 
 use crate::rust::*;
 
-use super::{Data, Forest, IntoIter, Iter, IterMut, Node, NodeVec, Tree};
+use super::{Data, Forest, IntoIter, Iter, IterMut, Node, Tree};
+use super::node_vec::Building;
 
 impl<T> Node<T> {
     /// Clones the node deeply and creates a new tree.
@@ -274,34 +275,13 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
     fn from( tree_iter: BfsTree<Iter> ) -> Self {
         let mut iter = tree_iter.wrap().iter();
         let visit_root = iter.next().unwrap();
-        let (degree, node_cnt) = (visit_root.size.degree, visit_root.size.descendants+1);
+        let node_cnt = visit_root.size.descendants.checked_add( 1 ).unwrap();
 
-        let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
+        let mut nodes = Building::with_capacity( node_cnt );
+        nodes.make_piled_node( None, 0, visit_root.data, visit_root.size );
+        nodes.append_bfs( iter );
 
-        unsafe {
-            node_vec.as_mut().make_piled_node( None, 0, visit_root.data, visit_root.size );
-        }
-
-        let mut parent  = 0;
-        let mut child   = 1;
-        let mut remains = degree;
-
-        while let Some( visit ) = iter.next() {
-            unsafe {
-                node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
-            }
-            remains -= 1;
-            while remains == 0 {
-                parent += 1;
-                unsafe {
-                    remains = node_vec.as_mut().node( parent ).degree();
-                }
-                if parent == child { break; }
-            }
-            child += 1;
-        }
-
-        Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
+        Tree::from_node( nodes.finish() )
     }
 }
 
@@ -321,36 +301,15 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
     where Iter: Iterator<Item=Visit<T>>
 {
     fn from( forest_iter: BfsForest<Iter> ) -> Self {
-        let (mut iter, size) = forest_iter.wrap().iter_and_size();
-        let (degree, node_cnt) = (size.degree, size.descendants+1);
+        let (iter, size) = forest_iter.wrap().iter_and_size();
+        let node_cnt = size.descendants.checked_add( 1 ).unwrap();
 
-        let mut node_vec = NodeVec::new_raw_non_null( node_cnt );
-
-        unsafe {
-            let fake_root = Data::PiledNone{ owner: node_vec };
-            node_vec.as_mut().make_node( None, 0, fake_root, size );
-        }
-
-        let mut parent  = 0;
-        let mut child   = 1;
-        let mut remains = degree;
-
-        while let Some( visit ) = iter.next() {
-            unsafe {
-                node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
-            }
-            remains -= 1;
-            while remains == 0 {
-                parent += 1;
-                unsafe {
-                    remains = node_vec.as_mut().node( parent ).degree();
-                }
-                if parent == child { break; }
-            }
-            child += 1;
-        }
+        let mut nodes = Building::with_capacity( node_cnt );
+        let fake_root = Data::PiledNone{ owner: nodes.non_null() };
+        nodes.make_node( None, 0, fake_root, size );
+        nodes.append_bfs( iter );
 
-        Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
+        Forest::from_node( nodes.finish() )
     }
 }
 
diff --git a/src/forest.rs b/src/forest.rs
index 725297d..30c58f7 100644
--- a/src/forest.rs
+++ b/src/forest.rs
@@ -12,7 +12,7 @@
 
 use super::heap;
 use super::{Tree, Node, Data, Iter, IterMut};
-use super::NodeVec;
+use super::node_vec::Building;
 use crate::{Size, TupleForest};
 
 use crate::rust::*;
@@ -47,10 +47,10 @@ impl<T> Forest<T> {
         where Tuple : TupleForest<T,Shape>
     {
         let node_count = <Tuple as TupleForest<T,Shape>>::SIZE.descendants + 1;
-        let mut node_vec = NodeVec::new_raw_non_null( node_count );
-        unsafe{ node_vec.as_mut().construct_forest( tuple )};
+        let mut nodes = Building::with_capacity( node_count );
+        nodes.construct_forest( tuple );
 
-        Forest::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
+        Forest::from_node( nodes.finish() )
     }
 
     pub(crate) fn from_node( root: NonNull<Node<T>> ) -> Forest<T> {
diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..b9a155a 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -1,6 +1,6 @@
 //! Buffer for storing nodes in contiguous memory allocation.
 
-use super::{Node, Data, rc::Shared};
+use super::{Node, Data, bfs, rc::Shared};
 use crate::Size;
 use crate::{TupleTree, TupleForest};
 
@@ -169,6 +169,73 @@ impl<T> NodeVec<T> {
     }
 }
 
+/// A `NodeVec` under construction, which is released if the construction fails.
+pub(crate) struct Building<T>( NonNull<NodeVec<T>> );
+
+impl<T> Building<T> {
+    pub(crate) fn with_capacity( cap: usize ) -> Self { Building( NodeVec::new_raw_non_null( cap ))}
+
+    /// Hands over the constructed nodes and returns the first of them.
+    pub(crate) fn finish( self ) -> NonNull<Node<T>> {
+        let root = self.non_null_node( 0 );
+        mem::forget( self );
+        root
+    }
+
+    /// Appends all nodes in a breadth-first stream, the first node having been made.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the stream does not match the sizes it tells.
+    pub(crate) fn append_bfs( &mut self, iter: impl Iterator<Item=bfs::Visit<T>> ) {
+        let cap = self.buf.len();
+        let mut parent  = 0;
+        let mut child   = 1;
+        let mut remains = self.node( 0 ).degree();
+
+        for visit in iter {
+            while remains == 0 && parent+1 < child {
+                parent += 1;
+                remains = self.node( parent ).degree();
+            }
+            assert!( remains != 0 && child < cap, "too many nodes in BFS stream" );
+            self.append_child( parent, child, visit.data, visit.size );
+            remains -= 1;
+            child += 1;
+        }
+
+        assert!( child == cap, "too few nodes in BFS stream" );
+        for index in 0..cap {
+            let node = self.node( index );
+            let mut size = Size::default();
+            for child in node.iter() {
+                size.degree += 1;
+                size.descendants += child.size.descendants + 1;
+            }
+            assert!( node.size == size, "inconsistent sizes in BFS stream" );
+        }
+    }
+}
+
+impl<T> Deref for Building<T> {
+    type Target = NodeVec<T>;
+
+    fn deref( &self ) -> &NodeVec<T> { unsafe{ self.0.as_ref() }}
+}
+
+impl<T> DerefMut for Building<T> {
+    fn deref_mut( &mut self ) -> &mut NodeVec<T> { unsafe{ self.0.as_mut() }}
+}
+
+impl<T> Drop for Building<T> {
+    fn drop( &mut self ) {
+        let mut node_vec = unsafe{ Box::from_raw( self.0.as_ptr() )};
+        let nodes = mem::replace( &mut node_vec.buf, Vec::new() );
+        drop( node_vec );
+        drop( nodes );
+    }
+}
+
 impl<T> Drop for NodeVec<T> {
     fn drop( &mut self ) {
         unsafe{ self.buf.set_len( 0 ); }
diff --git a/src/tree.rs b/src/tree.rs
index 41ddaec..37506bc 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -16,7 +16,8 @@ use crate::TupleTree;
 
 use crate::rust::*;
 
-use super::{Data, Forest, IterMut, Node, NodeVec, heap};
+use super::{Data, Forest, IterMut, Node, heap};
+use super::node_vec::Building;
 
 /// Composed of a root `Node` and a list of its child `Node`s.
 pub struct Tree<T>{
@@ -48,10 +49,10 @@ impl<T> Tree<T> {
         where Tuple: TupleTree<T,Shape>
     {
         let node_count = <Tuple as TupleTree<T,Shape>>::SIZE.descendants+1;
-        let mut node_vec = NodeVec::new_raw_non_null( node_count );
-        unsafe{ node_vec.as_mut().construct_tree( tuple )};
+        let mut nodes = Building::with_capacity( node_count );
+        nodes.construct_tree( tuple );
 
-        Tree::from_node( unsafe{ node_vec.as_ref().non_null_node(0) })
+        Tree::from_node( nodes.finish() )
     }
 
     pub(crate) fn into_data( mut self ) -> T {
-- 
2.43.0


From 7824448192afee58b7b05c9e77eb492926825848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 06/11] fix: a panicking destructor does not corrupt or leak
 the other nodes

When dropping one item panicked, its later siblings were leaked, nodes of
them still held by shared handles kept links to the freed parent, and
contiguous storage was never released.
---
 src/forest.rs |  3 +--
 src/heap.rs   | 20 ++++++++++++++++++++
 src/rc.rs     | 44 ++++++++++++++++++++++++++++----------------
 src/tree.rs   |  3 +--
 4 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/forest.rs b/src/forest.rs
index 30c58f7..0dd6fbf 100644
--- a/src/forest.rs
+++ b/src/forest.rs
@@ -276,8 +276,7 @@ impl<T> Default for Forest<T> { fn default() -> Self { Forest::new() }}
 
 impl<T> Drop for Forest<T> {
     fn drop( &mut self ) {
-        while let Some(_) = self.pop_front() {}
-        heap::drop_node( self.root );
+        heap::drop_tree( self.root );
     }
 }
 
diff --git a/src/heap.rs b/src/heap.rs
index 4648017..9bda8f2 100644
--- a/src/heap.rs
+++ b/src/heap.rs
@@ -44,3 +44,23 @@ pub(crate) fn drop_node<T>( mut node: NonNull<Node<T>> ) {
         }
     }
 }
+
+// Drops the root node and all its descendants, even if dropping some of them panics.
+pub(crate) fn drop_tree<T>( root: NonNull<Node<T>> ) {
+    struct Rest<T>( NonNull<Node<T>> );
+
+    impl<T> Rest<T> {
+        fn drop_children( &mut self ) {
+            while let Some(_) = unsafe{ self.0.as_mut().pop_front() } {}
+        }
+    }
+
+    impl<T> Drop for Rest<T> {
+        fn drop( &mut self ) {
+            self.drop_children();
+            drop_node( self.0 );
+        }
+    }
+
+    Rest( root ).drop_children();
+}
diff --git a/src/rc.rs b/src/rc.rs
index c01f848..0492886 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -126,35 +126,47 @@ impl<T> Clone for RcNode<T> {
 
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
-        let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    self.drop_children();
                 }
             },
-            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
-                let node = node_vec.as_ref().buf.get_unchecked( *index );
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                // The guards work even if dropping some node panics.
+                struct DropNode<T>( *const RefCell<Node<T>> );
+                impl<T> Drop for DropNode<T> {
+                    fn drop( &mut self ) { unsafe{ ptr::drop_in_place( self.0 as *mut RefCell<Node<T>> )}}
+                }
+
+                struct DecrRef<T>( NonNull<NodeVec<T>> );
+                impl<T> Drop for DecrRef<T> {
+                    fn drop( &mut self ) { NodeVec::decr_ref( self.0 ); }
+                }
+
+                let _decr_ref = DecrRef( *node_vec );
+                let node = unsafe{ node_vec.as_ref().buf.get_unchecked( *index )};
                 if node.count.decr() == 0 {
-                    drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    let _drop_node = DropNode( &node.data );
+                    self.drop_children();
                 }
             },
         }
-        match self {
-            RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
-                if drop_piled {
-                    let node = node_vec.as_mut().buf.get_unchecked_mut( *index );
-                    ptr::drop_in_place( &mut node.data );
-                }
-                NodeVec::decr_ref( *node_vec );
-            }
-            _ => (),
-        }
     }
 }
 
 impl<T> RcNode<T> {
+    // Pops out all the children, even if dropping some of them panics.
+    fn drop_children( &self ) {
+        struct Rest<'a,T>( &'a RcNode<T> );
+        impl<'a,T> Drop for Rest<'a,T> {
+            fn drop( &mut self ) { while let Some(_) = self.0.pop_front() {} }
+        }
+
+        let _rest = Rest( self );
+        while let Some(_) = self.pop_front() {}
+    }
+
     /// Checks if it is a root node.
     ///
     /// # Examples
diff --git a/src/tree.rs b/src/tree.rs
index 37506bc..bf663cb 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -244,8 +244,7 @@ impl<T> Deref for Tree<T> {
 
 impl<T> Drop for Tree<T> {
     fn drop( &mut self ) {
-        while let Some(_) = self.root_mut_().pop_front() {}
-        heap::drop_node( self.root );
+        heap::drop_tree( self.root );
     }
 }
 
-- 
2.43.0


From 3aa0bd7a4f0ba2696b028d9c22c0dfa1eb83e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/11] fix: Tree::abandon keeps the root's data if allocation
 fails

The data was taken out of the root before the new root was allocated, so
that unwinding from the allocator left a tree without root data.
---
 src/node.rs | 9 +++++++++
 src/tree.rs | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 386f794..2ad611a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -50,6 +50,15 @@ impl<T> Data<T> {
         }
     }
 
+    // The opposite of `take()`.
+    pub(crate) fn fill( &mut self, data: T ) {
+        *self = match *self {
+            Data::ScatteredNone{ owner } => Data::Scattered{ data, owner },
+            Data::PiledNone    { owner } => Data::Piled    { data, owner },
+            _ => unreachable!(),
+        };
+    }
+
     pub(crate) fn replace( &mut self, other: Data<T> ) -> Data<T> {
         mem::replace( self, other )
     }
diff --git a/src/tree.rs b/src/tree.rs
index bf663cb..9f84c2d 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -174,10 +174,10 @@ impl<T> Tree<T> {
     /// assert_eq!( tree, Tree::new(0) );
     /// ```
     pub fn abandon( &mut self ) -> Forest<T> {
-        let new_root = heap::make_node( Data::Scattered{
-            data  : self.root_mut_().data.take(),
-            owner : NonNull::dangling(),
-        });
+        // The allocation could fail, so the data is not taken until it is done.
+        let mut new_root = heap::make_node( Data::ScatteredNone{ owner: NonNull::dangling() });
+        unsafe{ new_root.as_mut().data.fill( self.root_mut_().data.take() ); }
+
         let forest = Forest::from_node( self.root );
         self.root = new_root;
         forest
-- 
2.43.0


From 7bfeb3128df35e2cd4219de3d366a346a68d31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 08/11] fix: the cursor survives a failed to_sib() or
 to_child()

Going beyond the last sibling left the cursor on no node but with the kind
of the former visit, so that get(), revisit(), to_sib() and to_child()
panicked afterwards.
---
 src/walk.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..c49f4d4 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -91,8 +91,13 @@ impl<T> Walk<T> {
         self.origin = head;
     }
 
+    // `to_sib()`/`to_child()` failed, leaving the cursor behind the last sibling. The next node is their parent.
+    fn is_behind( &self ) -> bool {
+        self.path.last().map_or( false, |nodes| nodes.node == nodes.sentinel )
+    }
+
     fn revisit( &mut self ) {
-        if self.origin.is_some() {
+        if self.origin.is_some() && !self.is_behind() {
             match self.visit_type {
                 VisitType::None => self.path.push( Nodes::sibs( self.origin )),
                 _ => (),
@@ -205,11 +210,15 @@ impl<T> Walk<T> {
     /// Sets the cursor to the current node's next `n`-th sibling and returns it, or `None` if such sibling does not exist.
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
+        if self.is_behind() {
+            return None;
+        }
         if let Some( nodes ) = self.path.last_mut() {
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -228,6 +237,9 @@ impl<T> Walk<T> {
     /// Sets the cursor to the current node's `n`-th child and returns it, or `None` if it has no child.
     /// Notice that `n == 0` indicating the first child.
     fn to_child( &mut self, n: usize ) -> Option<Visit<T>> {
+        if self.is_behind() {
+            return None;
+        }
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
             unsafe {
-- 
2.43.0


From bf0cc1c5f77adb24fa651d5a284d50672e7a9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 09/11] fix: the cursor stays on its node if its stack fails to
 grow

The kind of visit was changed to that of the child before the child was
pushed, so that unwinding from the allocator left the cursor reporting the
parent with a wrong kind.
---
 src/walk.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index c49f4d4..b9a4864 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -137,21 +137,20 @@ impl<T> Walk<T> {
                     break;
                 },
                 Direction::Down => {
-                    let new_nodes;
+                    let head;
                     if let Some( nodes ) = self.path.last_mut() {
                         let node = unsafe{ &*nodes.node.unwrap().as_ptr() };
                         if node.has_no_child() {
                             self.direction = Direction::Right;
                             continue;
                         } else {
-                            let head = node.head;
-                            new_nodes = Some( Nodes::sibs( head ));
-                            self.visit_type = if unsafe{ head.unwrap().as_ref().has_no_child() } { VisitType::Leaf } else { VisitType::Begin };
+                            head = node.head;
                         }
                     } else {
                         break;
                     }
-                    new_nodes.map( |nodes| self.path.push( nodes ));
+                    self.path.push( Nodes::sibs( head )); // could fail to allocate
+                    self.init_visit();
                     break;
                 }
                 Direction::Right => {
@@ -240,7 +239,7 @@ impl<T> Walk<T> {
         if self.is_behind() {
             return None;
         }
-        let new_nodes;
+        let head;
         if let Some( nodes ) = self.path.last_mut() {
             unsafe {
                 let node = nodes.node.unwrap();
@@ -248,15 +247,14 @@ impl<T> Walk<T> {
                     self.direction = Direction::Right;
                     return None;
                 } else {
-                    let head = node.as_ref().head;
-                    new_nodes = Some( Nodes::sibs( head ));
-                    self.visit_type = if head.unwrap().as_ref().has_no_child() { VisitType::Leaf } else { VisitType::Begin };
+                    head = node.as_ref().head;
                 }
             }
         } else {
             return None;
         }
-        new_nodes.map( |nodes| self.path.push( nodes ));
+        self.path.push( Nodes::sibs( head )); // could fail to allocate
+        self.init_visit();
         self.to_sib( n )
     }
 }
-- 
2.43.0


From 439f56e778272e5b68c92858f6d1c32ddc7e813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 10/11] fix: count the references to contiguous storage
 atomically

Cursors can be sent to other threads, so nodes of one NodeVec can be owned, and dropped, by several threads.
---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76d64dd..00689a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{self, AtomicUsize};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index b9a155a..ac17e2c 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count, atomic because `TreeWalk`/`ForestWalk` can move nodes to other threads
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index 0492886..7f34325 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -49,6 +49,25 @@ impl RefCount for Cell<usize> {
     }
 }
 
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        #[cfg(      feature = "no_std"  )] use core::usize::MAX;
+        #[cfg( not( feature = "no_std" ))] use  std::usize::MAX;
+        let count = self.fetch_update( atomic::Ordering::Relaxed, atomic::Ordering::Relaxed, |count|
+            if count == 0 || count == MAX { None } else { Some( count + 1 )});
+        if count.is_err() {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        match self.fetch_update( atomic::Ordering::AcqRel, atomic::Ordering::Relaxed, |count| count.checked_sub( 1 )) {
+            Ok( count ) => count - 1,
+            Err( _ )    => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From d001886eb52e6d5e345c816af21f6e035173b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 11/11] fix: tuple::postorder_with_size_hint() emits postorder

It emitted the events of preorder, unlike postorder() and what its name says.
---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0

