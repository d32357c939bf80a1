#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Owned items are held exactly once and released exactly once",
 "Whatever history of building, cloning, moving, splicing, popping, detaching, abandoning, consuming and dropping owned trees, forests, cursors and iterators is run, every item handed to the library is at each moment either in exactly one live structure or back with the caller, and is dropped exactly once: never leaked, dropped twice or touched after release. "
 "This includes consuming iterators and traversals cancelled part-way, item callbacks (drop, clone, closures) that panic, and allocations that fail by unwinding. "
 "When the last owner is gone, every byte of node storage has been returned to the allocator, exactly once.",
 ["histories", "fault_sequences", "crash_points"],
 "Every sequence of public operations on Tree, Forest, IntoIter, the breadth-first iterators and the DFS cursors by any number of owners moving them between each other, with a panic possible in any item callback, an allocation failure possible at any library allocation, and cancellation possible after any step.",
 "Existing tests and doc tests run one fault-free operation on at most nine integers and compare a rendering: integers have no destructor, nothing is counted, nothing panics, no iterator is dropped half-way and no allocation fails.",
 ["src/tree.rs", "src/forest.rs", "src/node.rs", "src/heap.rs", "src/node_vec.rs", "src/into_iter.rs", "src/bfs.rs", "src/bfs_impls.rs", "src/walk.rs", "src/notation.rs"],
 [("destructors pop children then release the node", "src/tree.rs impl Drop for Tree; src/forest.rs impl Drop for Forest; src/heap.rs drop_node"),
  ("ownership moves by forgetting the source", "src/node.rs push_front/push_back/insert_prev_sib/insert_next_sib/append/prepend"),
  ("contiguous storage reference count", "src/node_vec.rs NodeVec::ref_cnt, decr_ref"),
  ("splitting a tree into item and children", "src/bfs_impls.rs impl Split for Tree; src/tree.rs abandon, into_data")],
 [("alive node count", "how many nodes of one contiguous allocation are still in use", "src/node_vec.rs NodeVec::ref_cnt")],
 ["item constructor/destructor ledger", "allocator", "every public accessor of Tree/Forest/Node"])

prop("C02", "Shared and weak handles keep nodes alive exactly as long as promised",
 "For trees with shared ownership, a node and its item stay alive and reachable exactly while it has a strong handle (including one held by a running iterator) or a living parent; when a node dies, each child that is still held becomes the root of its own tree and every other child dies with it. "
 "A weak handle keeps no item alive: it upgrades to a handle on that same node while the node lives and to nothing ever after, however many handles were cloned, downgraded, upgraded and dropped in whatever order. "
 "Once the last strong and weak handles are gone, each item has been dropped exactly once and all storage released, whether nodes were stored one by one or contiguously.",
 ["histories", "fault_sequences", "schedules"],
 "Every interleaving of clone, drop, downgrade, upgrade, navigation, edit, detach and iteration steps by any number of holders of handles to any number of trees of either storage layout, with holders crashing (dropping everything they hold) and item destructors panicking at any step.",
 "The tests hold at most a handful of handles in one order and never drop a tree under a live weak or child handle; no test counts destructor runs, so a miscounted reference shows up only in histories the tests do not sample.",
 ["src/rc.rs", "src/node_vec.rs", "src/iter_rc.rs", "src/heap.rs"],
 [("strong handle clone/drop", "src/rc.rs impl Clone/Drop for RcNode"), ("weak handle", "src/rc.rs downgrade, WeakNode::upgrade, impl Drop for WeakNode"),
  ("handle from node", "src/rc.rs Node::rc, Node::into_rc"), ("shared allocation count", "src/node_vec.rs NodeVec::ref_cnt"), ("iterator's own handle", "src/iter_rc.rs")],
 [("strong count", "handles plus the parent's link", "src/rc.rs Shared::count / Rc"), ("node_vec count", "strong plus weak handles into one contiguous allocation", "src/node_vec.rs")],
 ["WeakNode::upgrade", "RcNode::parent", "item destructor ledger", "allocator"])

prop("C03", "Shared trees edited through any handles behave as one ordered tree",
 "Any interleaving of edits and queries issued through any handles of shared trees gives the answers a single sequential ordered-tree model gives for the same order of calls. "
 "Items, child order, first/last child, parent, degree, node count, root status, equality and rendering agree with the model through every handle after every step, including for nodes detached, popped or re-rooted by somebody else.",
 ["histories", "schedules"],
 "Every interleaving of any number of clients, each holding any set of handles to any nodes of any number of trees, over the whole shared-tree API and both storage layouts.",
 "The tests exercise each operation once through one handle on a two-level tree and look only at the rendering; the interplay of different handles, deep trees, re-rooted subtrees and splices is a product of histories they do not sample.",
 ["src/rc.rs", "src/node.rs", "src/iter_rc.rs", "src/forest.rs", "src/macros.rs"],
 [("structural edits", "src/rc.rs push_front..detach, extend; src/node.rs same operations"), ("sizes propagated to all ancestors", "src/node.rs inc_sizes, dec_sizes"),
  ("parent lookup", "src/node.rs parent; src/rc.rs parent, is_root"), ("splices", "src/node.rs append, prepend; src/forest.rs set_up, clear")],
 None, ["all RcNode accessors", "iter_rc", "Display", "PartialEq"])

prop("C04", "Conflicting borrows through shared handles fail loudly and change nothing",
 "While some client holds a read guard on a node's item, every operation that needs exclusive access to that node panics, and while a write guard is held every operation that needs to look at that node panics; the refused operation has no effect on any tree, and trees or forests passed to it are dropped whole. "
 "Operations that do not conflict with a guard succeed, no operation that has returned or panicked leaves a borrow behind, and a guard never observes its item changing, moving or being read elsewhere against the rules, even when item callbacks re-enter the library.",
 ["histories", "schedules", "fault_sequences"],
 "Every interleaving of guards (any number of readers, writers, on any nodes, held across other clients' steps) with the whole shared API, with callbacks that panic or re-enter the library while guards are out.",
 "The tests never hold a guard across another operation, so neither the refusal, its lack of side effects, nor the absence of leaked borrows after a panic is sampled.",
 ["src/rc.rs", "src/macros.rs"],
 [("dynamic borrow of a node", "src/rc.rs node_borrow, node_borrow_mut, data, data_mut"), ("guarded traversals", "src/macros.rs impl_*_for_node; src/rc.rs deep_clone")],
 None, ["Ref/RefMut guards", "panic or success of each call", "model of the trees before and after"])

prop("C05", "Iteration stays safe and exact while the tree is edited under it",
 "A running shared iterator or mutable-reference iterator visits, in order, each child present when it was created exactly once, and never a child inserted next to a visited one during the run, when the interleaved edits are insertions beside already visited children, detachment of visited children, edits inside children or edits elsewhere. "
 "Whatever else is done to the tree, its nodes or its handles between two steps of the iterator, it never yields more children than existed at the start, never yields a dead or foreign-memory node, always terminates, and its reported remaining length never grows.",
 ["histories", "schedules"],
 "Every interleaving of steps of any number of iterators (cloned, abandoned or exhausted) with edits by other clients or by the loop body, on both storage layouts.",
 "Three doc tests edit one list of two or three children in a fixed pattern; the promise quantifies over all edits at all points of the iteration.",
 ["src/iter_rc.rs", "src/iter.rs", "src/rc.rs", "src/node.rs"],
 [("look-ahead of one child, counted length", "src/iter.rs CountedRawIter; src/iter_rc.rs IterRc"), ("insertion beside a visited child", "src/node.rs insert_prev_sib, insert_next_sib, detach")],
 None, ["items yielded by iter_rc/iter_mut", "size_hint"])

prop("C06", "Owned trees stay well-formed under any edit history, refused edits included",
 "After every step of any history of edits on owned trees and forests, every view of a structure (children forward, first and last child, parents, degree, node count, emptiness, draining from either end, equality with an equal tree) agrees with one and the same ordered tree, namely the one the sequence of successful edits denotes. "
 "An edit that is refused (detaching a root, inserting beside a root) or interrupted (a panicking callback, a failed allocation) leaves the edited structures as they were before it, or as documented for the part already done, and still usable.",
 ["histories", "fault_sequences"],
 "Every sequence of push, pop, insert, detach, append, prepend, abandon, from-tuple, operator, iterate-and-edit and conversion steps on any number of structures of either storage layout moved between owners, with refusals, panics and allocation failures at any step.",
 "The tests compare the rendering after one or two edits; back links, parents, sizes and drain-from-the-back order are rarely or never read and histories longer than three edits or with a refused step are not sampled.",
 ["src/node.rs", "src/tree.rs", "src/forest.rs", "src/node_vec.rs", "src/notation.rs", "src/iter.rs"],
 [("link surgery", "src/node.rs push_*/pop_*/insert_*_sib/detach/append/prepend"), ("sizes", "src/node.rs inc_sizes/dec_sizes"), ("re-parenting a spliced forest", "src/forest.rs set_up, clear"),
  ("contiguous construction", "src/node_vec.rs construct_tree, construct_forest")],
 None, ["all accessors of Tree, Forest, Node", "iter, iter_mut", "into_iter"])

prop("C07", "Breadth-first traversal is level-exact and can be cancelled anywhere",
 "A breadth-first traversal, by shared reference, by mutable reference or consuming, over a whole tree, a forest or a node's descendants, yields every node exactly once, level by level and left to right, each with its true child count and descendant count, however the tree was built and edited before. "
 "Stopping it after any number of steps, or having a mapping closure panic, leaves a borrowed tree complete with exactly the edits made to the items already visited, and for a consuming traversal drops exactly the items not handed out.",
 ["histories", "fault_sequences", "crash_points"],
 "Every tree shape reachable by an edit history, every traversal kind, every cancellation point and every panicking step of a mapping or edit closure.",
 "Tests run complete traversals of one two-level perfect tree built by tuples; uneven trees, edited trees, mixed storage and cancelled or panicking traversals are not sampled.",
 ["src/bfs.rs", "src/bfs_impls.rs", "src/into_iter.rs", "src/iter.rs"],
 [("queue of child iterators", "src/bfs.rs Splitted"), ("splitting a node into item and children", "src/bfs_impls.rs impl Split"), ("sizes carried along", "src/node.rs Node::size")],
 None, ["bfs().iter, bfs_mut().iter, into_bfs().iter, bfs_children*().iter", "item ledger"])

prop("C08", "Building from a node stream gives exactly that tree or fails without a trace",
 "Building a tree or forest from a breadth-first stream either produces exactly the tree the stream describes, with all counts true, or panics; a stream that is truncated, duplicated, reordered, extended, inconsistent in its counts or that panics part-way never yields a tree whose counts, links or items disagree with each other. "
 "In the failing case every item the stream delivered is dropped exactly once, all storage is released and other trees are unaffected.",
 ["inputs", "fault_sequences", "crash_points"],
 "Every finite stream of items with declared child and descendant counts, derived from a well-formed one by any sequence of delivery faults at any positions, including a source that panics at any step and an allocation that fails.",
 "Tests feed only complete streams produced by the library itself from four small trees; no stream is ever short, long, inconsistent or interrupted.",
 ["src/bfs_impls.rs", "src/node_vec.rs", "src/bfs.rs"],
 [("tree from stream", "src/bfs_impls.rs impl From<BfsTree> for Tree"), ("forest from stream", "src/bfs_impls.rs impl From<BfsForest> for Forest"), ("slot filling", "src/node_vec.rs append_child, make_node, Building")],
 None, ["Tree::from, Forest::from", "item ledger", "allocator"])

prop("C09", "Deep copies are exact, independent and can be interrupted harmlessly",
 "Cloning a tree or forest, deep-cloning a node, its children or a shared node, and the operators that copy a borrowed operand produce a structure equal to the source at that moment; afterwards no edit, drop or refusal on one side is visible on the other. "
 "If cloning an item panics or an allocation fails half-way, the source is unchanged and usable, the partial copy is dropped completely, and operands passed by value are dropped exactly once.",
 ["histories", "fault_sequences", "crash_points"],
 "Every source shape and storage layout reachable by an edit history, every copying operation, a failure at every item clone or allocation, and every later history of edits on both copies.",
 "The tests clone one perfect tree of ten integers without any failure and never edit the copies afterwards.",
 ["src/bfs_impls.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs", "src/notation.rs"],
 [("copy through a breadth-first stream", "src/bfs_impls.rs deep_clone, deep_clone_forest"), ("shared copy", "src/rc.rs deep_clone"), ("copying operators", "src/notation.rs impls on references")],
 None, ["all accessors of source and copy", "item ledger"])

prop("C10", "Rendering to a failing sink is a clean prefix and leaves no trace",
 "When the output sink fails or panics after any number of bytes, or an item's own formatting fails or panics, the text already delivered is a prefix of the complete rendering of the tree, the failure is reported to the caller, nothing more is written after it, and the tree, its items and its borrows are as before. "
 "With a healthy sink the rendering is the documented one for the current tree: item, then its children in order, separated and parenthesised the same way whatever the storage and ownership.",
 ["fault_sequences", "crash_points", "histories"],
 "Every tree, forest, node and shared node reachable by an edit history, every failing byte position of the sink, every failing item, both rendering styles.",
 "Tests render healthy trees to strings; a failing sink or item never occurs.",
 ["src/macros.rs"],
 [("recursive rendering", "src/macros.rs impl_debug_display_for_node, impl_debug_display_for_forest, impl_debug_display_for_collection")],
 None, ["bytes accepted by the sink", "fmt::Result", "borrow state after failure"])

prop("C11", "A depth-first cursor follows its command history",
 "For every history of cursor commands (advance, next, parent, n-th child, n-th sibling, revisit, current, current parent) the answers are those of a sequential depth-first model: begin and end are reported once around each branch, leaves once, children in order, and navigation to a missing child, sibling or parent answers nothing without panicking or corrupting later answers. "
 "From any reachable cursor state, advancing repeatedly completes the remaining traversal within twice the node count steps and then keeps answering nothing until revisited, and the tree taken back from the cursor is unchanged.",
 ["histories", "fault_sequences"],
 "Every command history issued by any number of clients sharing the cursor in turn, on every tree and forest shape (including empty ones), with allocation failures at any command.",
 "Tests run one fixed script per command on one perfect two-level tree; failed navigation followed by further commands, deep or uneven shapes, and revisits after navigation are not sampled.",
 ["src/walk.rs"],
 [("stack of sibling cursors and direction", "src/walk.rs Walk::forward, to_parent, to_child, to_sib, revisit, get")],
 [("path/direction/visit_type", "where the cursor is and which way it moves next", "src/walk.rs Walk")], ["Visit returned by get/next/to_*", "get_parent", "Tree::from(TreeWalk), Forest::from(ForestWalk)"])

prop("C12", "A cursor handed between threads stays one cursor over one tree",
 "A depth-first cursor that is moved from thread to thread, or read by several threads between moves, gives every thread the answers of the single command history formed by the order of the hand-offs, and the tree taken back on any thread is complete. "
 "Each item is dropped exactly once, on whichever thread finally drops the cursor or tree, and all storage is released wherever that happens.",
 ["schedules", "histories", "fault_sequences"],
 "Every schedule of hand-offs, concurrent reads and final drops among any number of threads, including a thread that panics while it owns the cursor.",
 "No test uses a second thread, although the cursors are declared transferable and shareable.",
 ["src/walk.rs"],
 [("cursor declared Send and Sync", "src/walk.rs unsafe impl Send/Sync for TreeWalk, ForestWalk")],
 None, ["answers per thread", "item ledger with thread ids", "allocator"])

prop("C13", "Storage layout is unobservable",
 "A structure built node by node and an equal one built at once in contiguous storage give the same answers to every later history of operations, including handle lifetimes, refusals and the set of items dropped by each step. "
 "This holds through mixing: splicing nodes of one layout into trees of the other, copying, detaching and re-rooting never make the origin of a node visible.",
 ["histories", "configurations", "fault_sequences"],
 "Every operation history on owned and shared trees, replayed with every assignment of storage layouts to the structures it builds, with the same injected faults.",
 "Tests construct each layout in separate scripts and never run the same longer history on both, nor mix nodes of both layouts in one tree.",
 ["src/node_vec.rs", "src/heap.rs", "src/rc.rs", "src/node.rs"],
 [("two node representations behind one interface", "src/node.rs Data; src/rc.rs RcNode, WeakNode; src/heap.rs; src/node_vec.rs")],
 None, ["event log of the same history under each layout assignment"])

prop("C14", "The no_std build behaves exactly like the std build",
 "Built with the no_std feature, the library gives for every history of operations and faults the same answers, refusals, panics and item drops as the default build. ",
 ["configurations", "histories", "fault_sequences"],
 "Every history of operations and injected faults the simulator generates, run on both builds (feature off with debug assertions, feature on with optimisation).",
 "The test suite is built and run in the default configuration only.",
 ["src/lib.rs", "src/rc.rs", "Cargo.toml"],
 [("alternative imports", "src/lib.rs mod rust"), ("feature-dependent constants", "src/rc.rs impl RefCount for Cell")],
 None, ["event log hash per seed and build"])

prop("C15", "Comparison and hashing depend on content alone and obey their laws",
 "Whatever history made two trees, forests or nodes, and whatever storage or ownership they have, equality, ordering and hashing depend only on their items and shape: equal content compares equal and hashes alike, "
 "the order is the lexicographic one (item first, then the children from the left, a prefix before what extends it), all operators agree with each other in both directions, and items that are not equal or comparable to themselves make what contains them so. "
 "A comparison or hash whose item callback panics or re-enters the library, or that meets a write guard, changes nothing, leaves no borrow behind and never reads a dead node.",
 ["histories", "inputs", "fault_sequences"],
 "Every pair of structures that any two histories give, compared by every operator, with callbacks that panic, or edit the compared shared trees, at any of their calls.",
 "Tests compare a few literal trees that are equal; none compares structures with different histories, none has a callback that misbehaves or an item that is not equal to itself.",
 ["src/macros.rs", "src/rc.rs", "src/iter_rc.rs"], [("recursive relations", "src/macros.rs impl_order_relations_for_*, impl_hash_for_*"), ("shared nodes compared through borrows", "src/rc.rs impl_order_relations_for_node!( RcNode")],
 None, ["answers of all operators", "hash by content", "later edits (no borrow left)", "item ledger"])

prop("C16", "Tuple and operator notations denote the tree they depict",
 "A tuple of any supported arity and nesting, and any expression of the dash and slash operators over owned and borrowed operands, denotes exactly the ordered tree or forest it depicts, with true sizes, and behaves so in every later history. "
 "What a tuple says about itself (size, height, nodes by level, events in pre- and postorder, with or without sizes) is true of that tree. "
 "If a callback panics or an allocation fails on the way, every item of the tuple or of the operands passed by value is dropped exactly once and operands passed by reference are unchanged.",
 ["inputs", "histories", "fault_sequences"],
 "A catalogue of tuples of every arity up to 32 and many nestings, random expressions of operators over structures of any history, faults at every callback and allocation, later edits and traversals of what was built.",
 "Tests use two-level perfect trees only, look at them once, and never fail half-way.",
 ["src/tuple.rs", "src/notation.rs", "src/node_vec.rs"], [("tuple traits", "src/tuple.rs"), ("operators", "src/notation.rs"), ("layout of tuple trees", "src/node_vec.rs construct_tree, construct_forest")],
 None, ["events of a tuple", "structure and sizes of what was built", "item ledger", "allocator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
