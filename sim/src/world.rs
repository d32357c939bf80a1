//! The simulated world: clients holding trees, forests, cursors, iterators, handles
//! and guards; the reference model beside them; and the execution of one step.

use crate::build::*;
use crate::heap;
use crate::item::*;
use crate::model::*;
use crate::rng::mix;
use crate::snap;
use crate::threads::*;
use crate::trace::*;
use crate::walkm::WalkM;
use std::cell::{Cell, Ref, RefCell, RefMut};
use std::collections::{BTreeMap, BTreeSet};
use std::mem::ManuallyDrop;
use trees::bfs;
use trees::*;

pub type BfsIter<P> = Box<dyn Iterator<Item = bfs::Visit<It<P>>>>;

pub enum Obj<P: Payload> {
    Tree(Tree<It<P>>, N),
    Forest(Forest<It<P>>, N),
    IntoIter(IntoIter<It<P>>, N),
    Bfs(BfsIter<P>, BfsM),
    TWalk(TreeWalk<It<P>>, WalkM),
    FWalk(ForestWalk<It<P>>, WalkM),
    Handle(Box<RcNode<It<P>>>, N),
    Weak(WeakNode<It<P>>, N),
    GuardR(Guard<P, Ref<'static, It<P>>>, N),
    GuardW(Guard<P, RefMut<'static, It<P>>>, N),
    Iter(IterRc<It<P>>),
    Item(It<P>, u32),
}

/// A borrow together with the handle it borrows from.
pub struct Guard<P: Payload, G> {
    pub g: ManuallyDrop<G>,
    _h: Box<RcNode<It<P>>>,
}
impl<P: Payload, G> Drop for Guard<P, G> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}

/// A consuming breadth-first traversal: what is still to come.
pub struct BfsM {
    pub rest: Vec<(N, usize, usize)>, // node, degree, descendants
    pub pos: usize,
    pub broken: bool,
}

pub struct Slot<P: Payload> {
    pub actor: u32,
    pub obj: Obj<P>,
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub layout: Option<u32>, // forced: 0 scattered, 1 contiguous
    pub cadence: u64,        // structures are observed in every n-th step
    pub record: bool,
    pub threads: bool, // each client is a thread
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exp {
    Ok,
    Refuse,
    Either,
}
use Exp::*;

pub struct Cx<'s> {
    pub st: &'s Step,
    k: Cell<u32>,
    armed: Cell<bool>,
}

struct A<X>(#[allow(dead_code)] X);
impl<X> Att for A<X> {}

#[derive(Default)]
pub struct Stats {
    pub ops: BTreeMap<&'static str, [u64; 3]>, // done, refused, failed
    pub skipped: u64,
    pub steps: u64,
    pub nested: u64,
    pub probes: BTreeMap<&'static str, u64>,
    pub oom: u64,
}

pub struct World<P: Payload> {
    pub cfg: Cfg,
    pub m: RefCell<Model>,
    pub objs: RefCell<BTreeMap<u32, Slot<P>>>,
    pub hash: Cell<u64>,
    pub lines: RefCell<Vec<String>>,
    depth: Cell<u32>,
    nest: RefCell<Vec<Step>>,
    busy: RefCell<Vec<(BTreeSet<N>, bool)>>,
    pub stats: RefCell<Stats>,
    pub hashes: RefCell<BTreeMap<(u32, String), u64>>,
    pub quiet: Cell<bool>, // do not note answers that may legitimately vary
    pub threads: Threads,
}

impl<P: Payload> Nest for World<P> {
    fn nested(&self) {
        let steps = std::mem::take(&mut *self.nest.borrow_mut());
        if std::thread::panicking() {
            self.probe("nested step while a failure unwinds");
        }
        for s in &steps {
            self.stats.borrow_mut().nested += 1;
            self.step(s);
        }
    }
}

type T<P> = Tree<It<P>>;
type F<P> = Forest<It<P>>;

/// Descends from a node, by different accessors according to the flags.
pub fn go<'a, P: Payload>(node: &'a mut Node<It<P>>, path: &[usize], flag: u32) -> &'a mut Node<It<P>> {
    let mut n = node;
    for &i in path {
        let deg = n.degree();
        let next = if i == 0 && flag & 1 == 1 {
            n.front_mut()
        } else if i + 1 == deg && flag & 2 == 2 {
            n.back_mut()
        } else {
            n.iter_mut().nth(i)
        };
        n = match next {
            Some(x) => std::pin::Pin::into_inner(x),
            None => viol("structure", "a child that exists cannot be reached"),
        };
    }
    n
}

pub enum Own<P: Payload> {
    T(T<P>),
    F(F<P>),
}
impl<P: Payload> Own<P> {
    /// None stands for the forest itself.
    fn at<'a>(&'a mut self, path: &[usize], flag: u32) -> Option<&'a mut Node<It<P>>> {
        match self {
            Own::T(t) => Some(go(std::pin::Pin::into_inner(t.root_mut()), path, flag)),
            Own::F(f) => {
                let (&i, rest) = path.split_first()?;
                let deg = f.degree();
                let n = if i == 0 && flag & 1 == 1 {
                    f.front_mut()
                } else if i + 1 == deg && flag & 2 == 2 {
                    f.back_mut()
                } else {
                    f.iter_mut().nth(i)
                };
                match n {
                    Some(n) => Some(go(std::pin::Pin::into_inner(n), rest, flag)),
                    None => viol("structure", "a tree of a forest cannot be reached"),
                }
            }
        }
    }
    fn snap(&self) -> snap::Snap {
        match self {
            Own::T(t) => snap::node(t.root(), 0),
            Own::F(f) => snap::forest(f),
        }
    }
    fn into_obj(self, n: N) -> Obj<P> {
        match self {
            Own::T(t) => Obj::Tree(t, n),
            Own::F(f) => Obj::Forest(f, n),
        }
    }
}

impl<P: Payload> World<P> {
    pub fn new(cfg: Cfg) -> Self {
        World {
            cfg,
            m: Default::default(),
            objs: Default::default(),
            hash: Cell::new(0),
            lines: Default::default(),
            depth: Cell::new(0),
            nest: Default::default(),
            busy: Default::default(),
            stats: Default::default(),
            hashes: Default::default(),
            quiet: Cell::new(false),
            threads: Default::default(),
        }
    }

    // ---- bookkeeping ----

    pub fn probe(&self, p: &'static str) {
        *self.stats.borrow_mut().probes.entry(p).or_insert(0) += 1;
    }
    pub fn note(&self, cx: &Cx, tag: &str, data: &[u64]) {
        if self.quiet.get() {
            return;
        }
        let mut h = mix(self.hash.get() ^ cx.st.id as u64);
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        for d in data {
            h = mix(h ^ d.wrapping_add(0x9E37));
        }
        self.hash.set(h);
        if self.cfg.record {
            self.lines.borrow_mut().push(format!("{} {} {tag} {data:?}", cx.st.id, op_name(cx.st.op)));
        }
    }
    fn note_str(&self, cx: &Cx, tag: &str, s: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.note(cx, tag, &[h]);
        if self.cfg.record && !self.quiet.get() {
            self.lines.borrow_mut().push(format!("    {s}"));
        }
    }
    fn take(&self, id: u32) -> Option<Slot<P>> {
        self.objs.borrow_mut().remove(&id)
    }
    fn back(&self, id: u32, actor: u32, obj: Obj<P>) {
        self.objs.borrow_mut().insert(id, Slot { actor, obj });
    }
    fn put(&self, cx: &Cx, obj: Obj<P>) -> u32 {
        let k = cx.k.get();
        if k >= 64 {
            harness("a step makes too many objects");
        }
        cx.k.set(k + 1);
        let id = cx.st.id * 64 + k;
        self.objs.borrow_mut().insert(id, Slot { actor: cx.st.actor, obj });
        id
    }
    fn mk(&self, val: u32) -> It<P> {
        let it = It::new(val);
        let id = it.id();
        let mut m = self.m.borrow_mut();
        m.set_val(id, val);
        m.set_loc(id, Loc::Gone); // until it is placed
        it
    }

    /// The one call of a step in which its faults may strike. `nodes` is what it works on.
    pub fn pcall<R>(&self, cx: &Cx, soft: bool, nodes: &[N], f: impl FnOnce() -> R) -> Out<R> {
        let comp = if cx.st.nest.is_empty() { BTreeSet::new() } else { self.m.borrow().components(nodes) };
        self.busy.borrow_mut().push((comp, soft));
        let first = !cx.armed.replace(true);
        let oom0 = heap::failures();
        if first {
            let mut arms = vec![];
            for x in &cx.st.faults {
                match *x {
                    Fault::Cb(kind, nth, act) => arms.push(Arm { kind, nth, act, done: false }),
                    Fault::Oom(n) => heap::fail_in(n as i64),
                }
            }
            ENV.with(|e| {
                *e.arms.borrow_mut() = arms;
                e.fired.set(0);
                e.fired_err.set(0);
            });
            *self.nest.borrow_mut() = cx.st.nest.clone();
        }
        let out = call(f);
        if first {
            heap::disarm();
            ENV.with(|e| e.arms.borrow_mut().clear());
            self.nest.borrow_mut().clear();
        }
        self.busy.borrow_mut().pop();
        self.resolve_limbo(false);
        let oom = heap::failures() - oom0;
        self.stats.borrow_mut().oom += oom;
        match out {
            // Whatever way a failure that was injected is passed on is fine.
            Out::Lib(_) if oom > 0 => Out::Alloc,
            Out::Lib(_) if ENV.with(|e| e.fired.get()) > 0 => Out::Sim,
            o => o,
        }
    }
    pub fn judge<R>(&self, cx: &Cx, exp: Exp, out: Out<R>) -> Option<R> {
        let (i, r, tag) = match out {
            Out::Ok(r) => {
                if exp == Refuse {
                    viol("not-refused", &format!("{} was accepted where it must be refused", op_name(cx.st.op)));
                }
                (0, Some(r), "ok")
            }
            Out::Sim => (2, None, "failed"),
            Out::Alloc => (2, None, "failed"),
            Out::Lib(msg) => {
                if exp == Ok {
                    viol("panic", &format!("{} panicked: {msg}", op_name(cx.st.op)));
                }
                (1, None, "refused")
            }
        };
        self.stats.borrow_mut().ops.entry(op_name(cx.st.op)).or_insert([0; 3])[i] += 1;
        self.note(cx, tag, &[]);
        r
    }
    /// A library call that has no reason to fail.
    fn sure<R>(&self, what: &str, f: impl FnOnce() -> R) -> R {
        match call(f) {
            Out::Ok(r) => r,
            Out::Lib(msg) => viol("panic", &format!("{what} panicked: {msg}")),
            _ => harness("a fault struck where none was armed"),
        }
    }
    fn soft(&self, n: N) -> bool {
        let b = self.busy.borrow();
        !b.is_empty() && b.iter().any(|(s, soft)| *soft && s.contains(&n))
    }
    /// Whether an operation on a shared node is to be refused.
    fn sexp(&self, n: N, excl: bool) -> Exp {
        let m = self.m.borrow();
        let d = m.nd(n);
        if d.wr || (excl && d.rd > 0) {
            Refuse
        } else if self.soft(n) {
            Either
        } else {
            Ok
        }
    }

    /// The nodes an object is about.
    pub fn obj_nodes(&self, id: u32, o: &Obj<P>) -> Vec<N> {
        match o {
            Obj::Tree(_, n) | Obj::Forest(_, n) | Obj::IntoIter(_, n) | Obj::Handle(_, n) => vec![*n],
            Obj::Weak(_, n) | Obj::GuardR(_, n) | Obj::GuardW(_, n) => vec![*n],
            Obj::Bfs(_, b) => b.rest[b.pos.min(b.rest.len())..].iter().map(|x| x.0).collect(),
            Obj::TWalk(_, w) | Obj::FWalk(_, w) => vec![w.root],
            Obj::Iter(_) => {
                let m = self.m.borrow();
                let it = &m.iters[&id];
                it.nodes[it.pos..].iter().chain(it.cand.iter()).copied().collect()
            }
            Obj::Item(_, i) => {
                let m = self.m.borrow();
                m.att.get(i).map(|v| v.iter().filter_map(|a| match a {
                    AttM::Strong(n) | AttM::Owned(n) => Some(*n),
                    AttM::Weak(_) => None,
                }).collect()).unwrap_or_default()
            }
        }
    }
    fn step_objs(&self, st: &Step) -> Vec<u32> {
        op_sig(st.op).bytes().zip(&st.a).filter(|(c, _)| *c == b'o').map(|(_, x)| *x).collect()
    }
    /// Whether a nested step may run now: 0 no, 1 yes, 2 on a tree that is being read.
    fn allowed(&self, st: &Step) -> u32 {
        let mut all = vec![];
        let objs = self.objs.borrow();
        for id in self.step_objs(st) {
            match objs.get(&id) {
                Some(s) => all.extend(self.obj_nodes(id, &s.obj)),
                None => return 0,
            }
        }
        let m = self.m.borrow();
        let mine = m.components(&all);
        if mine.iter().any(|n| m.nd(*n).st == St::Limbo) {
            return 0;
        }
        let mut res = 1;
        for (set, soft) in self.busy.borrow().iter() {
            if mine.iter().any(|n| set.contains(n)) {
                if st.op == Op::WProbe {
                    res = 2;
                    continue;
                }
                if !*soft {
                    return 0;
                }
                res = 2;
            }
        }
        if res == 2 {
            use Op::*;
            if !matches!(st.op, WProbe | HAsk | HPush | HPop | HSet | HIns | HDet | HClone | HDown | WUp | Drop) {
                return 0;
            }
        }
        res
    }

    // ---- a step ----

    /// Executes a step where its client runs.
    pub fn step(&self, st: &Step) {
        if !self.cfg.threads {
            return self.exec(st);
        }
        self.threads.on(st.actor, &|| self.exec(st));
        if st.op == Op::Crash && self.depth.get() == 0 {
            self.threads.end(st.actor);
        }
    }
    /// With clients as threads: whether the step uses nothing that this thread may not use.
    fn mine(&self, st: &Step) -> bool {
        if st.op == Op::Crash {
            return st.a[0] == st.actor;
        }
        let objs = self.objs.borrow();
        let ids = self.step_objs(st);
        let owned = ids.iter().all(|i| objs.get(i).map_or(true, |s| s.actor == st.actor));
        match st.op {
            // Any thread may look at a cursor.
            Op::WalkCmd => owned || matches!(st.a[1] % 9, 6 | 7),
            // Only cursors and items can move to other threads.
            Op::Give => {
                owned && ids.iter().all(|i| objs.get(i).map_or(true, |s| matches!(s.obj, Obj::TWalk(..) | Obj::FWalk(..) | Obj::Item(..))))
            }
            Op::Attach => false,
            _ => owned,
        }
    }

    pub fn exec(&self, st: &Step) {
        if self.cfg.threads && !self.mine(st) {
            let mut s = self.stats.borrow_mut();
            s.steps += 1;
            s.skipped += 1;
            return;
        }
        let depth = self.depth.get();
        let cx = Cx { st, k: Cell::new(0), armed: Cell::new(false) };
        let was = ENV.with(|e| e.where_.replace(st.id));
        let mut quiet = false;
        if depth > 0 {
            if st.op == Op::Crash {
                return;
            }
            match self.allowed(st) {
                0 => return,
                2 => {
                    quiet = true;
                    self.probe("nested step on a tree in use");
                }
                _ => self.probe("nested step elsewhere"),
            }
        }
        let quiet0 = self.quiet.get();
        if quiet {
            self.quiet.set(true);
        }
        self.depth.set(depth + 1);
        let first_new = ENV.with(|e| e.ledger.borrow().len()) as u32;
        if depth == 0 {
            ENV.with(|e| {
                e.dropped.borrow_mut().clear();
                e.nest.set(Some(self as &dyn Nest as *const dyn Nest));
            });
        }
        let done = self.run_op(&cx);
        {
            let mut s = self.stats.borrow_mut();
            s.steps += 1;
            if !done {
                s.skipped += 1;
            }
        }
        self.depth.set(depth);
        self.quiet.set(quiet0);
        ENV.with(|e| e.where_.set(if depth == 0 { st.id } else { was }));
        self.m.borrow_mut().refresh_iters();
        if depth == 0 && done {
            self.after(&cx, first_new);
        }
    }

    /// Checks that hold between steps.
    pub fn after(&self, cx: &Cx, first_new: u32) {
        if let Some(c) = heap::complaint() {
            viol("heap", c);
        }
        self.resolve_limbo(true);
        self.check_ledger();
        if self.stats.borrow().nested == 0 {
            let mut d: Vec<u64> = ENV.with(|e| {
                let l = e.ledger.borrow();
                e.dropped.borrow().iter().filter(|i| **i < first_new).map(|i| l[*i as usize].val as u64).collect()
            });
            if !d.is_empty() {
                d.sort();
                self.note(cx, "dropped", &d);
            }
        }
        if self.cfg.cadence > 0 && mix(cx.st.id as u64 ^ 0x51) % self.cfg.cadence == 0 {
            self.observe_all(cx);
        }
    }
    fn resolve_limbo(&self, strict: bool) {
        loop {
            let mut m = self.m.borrow_mut();
            let mut again = false;
            let list: Vec<N> = m.limbo.iter().copied().collect();
            for n in list {
                let item = m.nd(n).item;
                let alive = ENV.with(|e| e.ledger.borrow()[item as usize].alive);
                if !alive {
                    m.kill(n);
                    again = true;
                } else if strict && !m.iter_holds(n) {
                    viol("leak", &format!("item {item} lives on though nothing keeps it"));
                }
            }
            if !again {
                break;
            }
        }
    }
    fn check_ledger(&self) {
        let m = self.m.borrow();
        ENV.with(|e| {
            for (i, r) in e.ledger.borrow().iter().enumerate() {
                let l = m.loc_of(i as u32);
                match (r.alive, l) {
                    (true, Loc::Gone) => viol("leak", &format!("item {i} (value {}) was not dropped though nothing owns it", r.val)),
                    (false, Loc::Node(n)) => viol("early-drop", &format!("item {i} (value {}) was dropped though its node {n} is in use", r.val)),
                    (false, Loc::Loose) => viol("early-drop", &format!("item {i} (value {}) was dropped though the caller owns it", r.val)),
                    (true, _) => {
                        if m.val[i] != r.val {
                            viol("value", &format!("item {i} has value {}, not {}", r.val, m.val[i]));
                        }
                    }
                    _ => (),
                }
            }
        });
    }
    /// Looks at everything through every accessor.
    pub fn observe_all(&self, cx: &Cx) {
        let shared = |s: &Slot<P>| !self.cfg.threads || s.actor == me() || matches!(s.obj, Obj::TWalk(..) | Obj::FWalk(..));
        let ids: Vec<u32> = self.objs.borrow().iter().filter(|x| shared(x.1)).map(|x| *x.0).collect();
        for id in ids {
            self.observe(cx, id);
        }
    }
    fn observe(&self, cx: &Cx, id: u32) -> bool {
        let objs = self.objs.borrow();
        let Some(slot) = objs.get(&id) else { return false };
        let m = self.m.borrow();
        match &slot.obj {
            Obj::Tree(t, n) => {
                let s = self.sure("reading a tree", || snap::node(t.root(), 0));
                m.verify(&s, *n, "tree");
                if self.sure("parent()", || t.parent().is_some()) {
                    viol("structure", "the root of a tree has a parent");
                }
                self.note_str(cx, "tree", &m.display(*n));
            }
            Obj::Forest(f, n) => {
                let s = self.sure("reading a forest", || snap::forest(f));
                m.verify(&s, *n, "forest");
                self.note_str(cx, "forest", &m.display(*n));
            }
            Obj::IntoIter(i, n) => {
                if i.len() != m.kids(*n).len() {
                    viol("structure", "the length of a consuming iterator is wrong");
                }
            }
            Obj::Handle(h, n) => {
                let n = *n;
                if !m.writer_below(n) && m.parent(n).map_or(true, |p| !m.nd(p).wr) {
                    let free = self.depth.get() < 2 && !m.pre(n).iter().any(|x| m.guarded(*x));
                    let s = self.sure("reading a shared tree", || snap::rc(h, 0, free));
                    m.verify(&s, n, "shared tree");
                    if mix((cx.st.id as u64) << 20 ^ id as u64) % 3 == 0 {
                        let s = self.sure("reading a shared tree as nodes", || {
                            let g = unsafe { h.node() };
                            snap::node(&*g, 0)
                        });
                        m.verify(&s, n, "node of a shared tree");
                    }
                    let up = self.sure("parent()", || h.parent().map(|p| p.data().id()));
                    let root = self.sure("is_root()", || h.is_root());
                    let want = m.parent(n).map(|p| m.nd(p).item);
                    if up != want || root != want.is_none() {
                        viol("structure", &format!("parent() of item {} is {up:?}, not {want:?}; is_root() is {root}", m.nd(n).item));
                    }
                    self.note_str(cx, "shared", &m.display(n));
                }
            }
            Obj::Iter(i) => {
                let im = &m.iters[&id];
                let (lo, hi) = i.size_hint();
                self.check_len(im, lo, hi);
            }
            Obj::GuardR(g, n) => {
                if g.g.id() != m.nd(*n).item || g.g.val() != m.v(*n) {
                    viol("guard", "the item under a read guard changed");
                }
            }
            Obj::GuardW(g, n) => {
                if g.g.id() != m.nd(*n).item || g.g.val() != m.v(*n) {
                    viol("guard", "the item under a write guard changed");
                }
            }
            Obj::TWalk(w, wm) => {
                self.sure("reading a cursor", || wm.check(&m, w.get(), w.get_parent()));
            }
            Obj::FWalk(w, wm) => {
                self.sure("reading a cursor", || wm.check(&m, w.get(), w.get_parent()));
            }
            Obj::Item(i, id) => {
                if i.id() != *id || i.val() != m.val[*id as usize] {
                    viol("value", "an item changed while the caller had it");
                }
            }
            Obj::Bfs(..) | Obj::Weak(..) => (),
        }
        true
    }
    fn check_len(&self, im: &IterM, lo: usize, hi: Option<usize>) {
        let rem = im.nodes.len() - im.pos;
        if im.exact && (lo > rem || hi.map_or(false, |h| h < rem)) {
            viol("iteration", &format!("size_hint() is {lo}..{hi:?} while {rem} children are to come"));
        }
        if hi.map_or(false, |h| h > im.left) {
            viol("iteration", &format!("size_hint() grew to {hi:?} from {}", im.left));
        }
    }

    // ---- model of owned things ----

    fn own(o: Obj<P>) -> Result<(Own<P>, N), Obj<P>> {
        match o {
            Obj::Tree(t, n) => Result::Ok((Own::T(t), n)),
            Obj::Forest(f, n) => Result::Ok((Own::F(f), n)),
            o => Err(o),
        }
    }
    fn take_own(&self, id: u32) -> Option<(u32, Own<P>, N)> {
        let s = self.take(id)?;
        match Self::own(s.obj) {
            Result::Ok((o, n)) => Some((s.actor, o, n)),
            Err(o) => {
                self.back(id, s.actor, o);
                None
            }
        }
    }
    fn take_tree(&self, id: u32) -> Option<(u32, T<P>, N)> {
        let s = self.take(id)?;
        match s.obj {
            Obj::Tree(t, n) => Some((s.actor, t, n)),
            o => {
                self.back(id, s.actor, o);
                None
            }
        }
    }
    fn take_forest(&self, id: u32) -> Option<(u32, F<P>, N)> {
        let s = self.take(id)?;
        match s.obj {
            Obj::Forest(f, n) => Some((s.actor, f, n)),
            o => {
                self.back(id, s.actor, o);
                None
            }
        }
    }
    fn take_handle(&self, id: u32) -> Option<(u32, Box<RcNode<It<P>>>, N)> {
        let s = self.take(id)?;
        match s.obj {
            Obj::Handle(h, n) => Some((s.actor, h, n)),
            o => {
                self.back(id, s.actor, o);
                None
            }
        }
    }
    fn put_tree(&self, cx: &Cx, t: T<P>, n: N) -> u32 {
        self.m.borrow_mut().nm(n).owned = true;
        self.put(cx, Obj::Tree(t, n))
    }
    /// The model of a structure of the given shape, whose items are already made.
    pub fn model_of(&self, sh: &Shape, items: &[u32]) -> N {
        let mut m = self.m.borrow_mut();
        let ns: Vec<N> = items.iter().map(|i| m.new_node(*i)).collect();
        for (i, kids) in sh.kids.iter().enumerate() {
            for (k, c) in kids.iter().enumerate() {
                m.link(ns[i], k, ns[*c]);
            }
        }
        m.nm(ns[0]).owned = true;
        ns[0]
    }
    fn cyclic(&self, from: &[N], target: N) -> bool {
        let m = self.m.borrow();
        !m.att.is_empty() && m.reach(from).contains(&target)
    }
    fn layout(&self, l: u32) -> u32 {
        self.cfg.layout.unwrap_or(l)
    }

    /// A small tree made within library code, for edits on the way.
    fn fresh(&self, seed: u32) -> (T<P>, N) {
        let sh = Shape::random(1 + seed as usize % 3, seed as u64, false);
        let (items, ids) = ext(|| self.items(&sh, seed as u64));
        let t = build_tree(&sh, items, self.layout(seed % 2));
        let n = ext(|| self.model_of(&sh, &ids));
        (t, n)
    }
    fn items(&self, sh: &Shape, seed: u64) -> (Vec<It<P>>, Vec<u32>) {
        let skip = sh.forest as usize;
        let items: Vec<It<P>> = (skip..sh.kids.len()).map(|i| self.mk((mix(seed ^ (i as u64) << 32) % 17) as u32)).collect();
        let mut ids: Vec<u32> = items.iter().map(|i| i.id()).collect();
        if sh.forest {
            ids.insert(0, NIL);
        }
        (items, ids)
    }

    // ---- the operations ----

    fn run_op(&self, cx: &Cx) -> bool {
        use Op::*;
        let st = cx.st;
        if st.a.len() < op_sig(st.op).len() {
            return false;
        }
        let a = &st.a[..];
        match st.op {
            NewTree | NewForest => self.op_new(cx, st.op == NewForest),
            NewItem => {
                let it = self.mk(a[0] % 17);
                let id = it.id();
                self.m.borrow_mut().set_loc(id, Loc::Loose);
                self.put(cx, Obj::Item(it, id));
                true
            }
            Drop => self.op_drop(cx),
            Push => self.op_push(cx),
            Splice => self.op_splice(cx),
            Pop => self.op_pop(cx),
            InsSib => self.op_ins_sib(cx),
            Detach => self.op_detach(cx),
            Abandon => self.op_abandon(cx),
            Set => self.op_set(cx),
            Swap => self.op_swap(cx),
            IterMut => self.op_iter_mut(cx),
            Children => self.op_children(cx),
            IntoIter => self.op_into_iter(cx),
            IiNext => self.op_ii_next(cx),
            IntoBfs => self.op_into_bfs(cx),
            BfsNext => self.op_bfs_next(cx),
            Bfs => self.op_bfs(cx),
            CloneAll | NodeClone => self.op_clone(cx),
            Oper => self.op_oper(cx),
            Fmt => self.op_fmt(cx),
            Cmp => self.op_cmp(cx),
            Stream => self.op_stream(cx),
            Rebuild => self.op_rebuild(cx),
            Tuple => self.op_tuple(cx),
            Plain => {
                let a = &cx.st.a;
                let sum = self.sure("plain items", || crate::plain::any(a[0] as u64, a[1]));
                self.note(cx, "plain", &[sum]);
                true
            }
            ToRc => self.op_to_rc(cx),
            WalkNew => self.op_walk_new(cx),
            WalkCmd => self.op_walk_cmd(cx),
            WalkDone => self.op_walk_done(cx),
            HClone | HDown | HNav | HAsk | HMany | HGuard | HIter | HDeep => self.op_h_read(cx),
            HPush | HIns | HSplice | HPop | HDet | HExt | HSet | HSwap => self.op_h_edit(cx),
            HTree => self.op_h_tree(cx),
            WUp | WProbe => self.op_w_up(cx),
            GUse => self.op_g_use(cx),
            ItNext => self.op_it_next(cx),
            ItClone => self.op_it_clone(cx),
            Crash => self.op_crash(cx),
            Give => {
                let mut objs = self.objs.borrow_mut();
                match objs.get_mut(&a[0]) {
                    Some(s) => {
                        if self.cfg.threads && s.actor != a[1] {
                            self.probe("object moved to another thread");
                        }
                        s.actor = a[1]
                    }
                    None => return false,
                }
                true
            }
            Attach => self.op_attach(cx),
            Obs => self.observe(cx, a[0]),
        }
    }

    fn op_new(&self, cx: &Cx, forest: bool) -> bool {
        let (size, seed, layout) = (cx.st.a[0] as usize, cx.st.a[1], cx.st.a[2]);
        let cat = if layout == 3 { Some(seed as usize) } else { None };
        let sh = match cat {
            Some(k) => Shape::catalog(k, forest),
            None => Shape::random(size.clamp(1 - forest as usize, 400), seed as u64, forest),
        };
        let (items, ids) = self.items(&sh, seed as u64 ^ 0xABCD);
        let layout = self.layout(layout);
        let out = self.pcall(cx, false, &[], || {
            if layout == 3 {
                let mut items = items.into_iter();
                let mut f = || items.next().unwrap_or_else(|| harness("catalogue"));
                if forest {
                    Own::F(crate::tuples::forest(cat.unwrap() % crate::tuples::FORESTS.len(), &mut f))
                } else {
                    Own::T(crate::tuples::tree(cat.unwrap() % crate::tuples::TREES.len(), &mut f))
                }
            } else if forest {
                Own::F(build_forest(&sh, items, layout))
            } else {
                Own::T(build_tree(&sh, items, layout))
            }
        });
        if let Some(o) = self.judge(cx, Ok, out) {
            let n = self.model_of(&sh, &ids);
            let s = self.sure("reading a new structure", || o.snap());
            self.m.borrow().verify(&s, n, "new structure");
            self.put(cx, o.into_obj(n));
        }
        true
    }

    /// What dropping an object means.
    fn release(&self, id: u32, o: &Obj<P>) {
        let mut m = self.m.borrow_mut();
        match o {
            Obj::Tree(_, n) | Obj::Forest(_, n) | Obj::IntoIter(_, n) => m.disown(*n),
            Obj::Bfs(_, b) => {
                for (n, _, _) in &b.rest[b.pos.min(b.rest.len())..] {
                    m.disown(*n);
                }
            }
            Obj::TWalk(_, w) | Obj::FWalk(_, w) => m.disown(w.root),
            Obj::Handle(_, n) => m.unref(*n),
            Obj::Weak(_, n) => m.nm(*n).weaks -= 1,
            Obj::GuardR(_, n) => {
                m.nm(*n).rd -= 1;
                m.unref(*n);
            }
            Obj::GuardW(_, n) => {
                m.nm(*n).wr = false;
                m.unref(*n);
            }
            Obj::Iter(_) => {
                m.iters.remove(&id);
            }
            Obj::Item(_, i) => m.item_gone(*i),
        }
    }
    fn op_drop(&self, cx: &Cx) -> bool {
        let id = cx.st.a[0];
        let Some(s) = self.take(id) else { return false };
        let nodes = self.obj_nodes(id, &s.obj);
        let soft = self.soft_all(&nodes);
        // In a tree that is being read, only handles can be dropped here.
        if soft && !matches!(s.obj, Obj::Handle(..) | Obj::Weak(..)) {
            self.back(id, s.actor, s.obj);
            return false;
        }
        // The model moves first, so that steps nested in destructors see the outcome.
        let comp = nodes.clone();
        let comp: Vec<N> = if cx.st.nest.is_empty() { comp } else { self.m.borrow().components(&nodes).into_iter().collect() };
        self.release(id, &s.obj);
        let obj = s.obj;
        let out = self.pcall(cx, false, &comp, move || drop(obj));
        self.judge(cx, Ok, out);
        true
    }
    fn soft_all(&self, nodes: &[N]) -> bool {
        nodes.iter().any(|n| self.soft(*n))
    }

    fn op_push(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (t, idx, c, flag) = (a[0], a[1] as usize, a[2], a[3]);
        if t == c {
            return false;
        }
        let Some((actor, mut own, rn)) = self.take_own(t) else { return false };
        let Some((_, child, cn)) = self.take_tree(c) else {
            self.back(t, actor, own.into_obj(rn));
            return false;
        };
        let (tn, path) = self.target(rn, idx);
        if self.cyclic(&[cn], tn) {
            self.back(t, actor, own.into_obj(rn));
            self.back(c, actor, Obj::Tree(child, cn));
            return false;
        }
        let front = flag & 4 != 0;
        let out = self.pcall(cx, false, &[rn, cn], || match (own.at(&path, flag), path.is_empty() && flag & 8 != 0) {
            (Some(n), false) => {
                if front {
                    n.push_front(child)
                } else {
                    n.push_back(child)
                }
            }
            _ => match &mut own {
                Own::T(t) => {
                    if front {
                        t.push_front(child)
                    } else {
                        t.push_back(child)
                    }
                }
                Own::F(f) => {
                    if front {
                        f.push_front(child)
                    } else {
                        f.push_back(child)
                    }
                }
            },
        });
        let r = self.judge(cx, Ok, out);
        let mut m = self.m.borrow_mut();
        if r.is_some() {
            let at = if front { 0 } else { m.kids(tn).len() };
            m.link(tn, at, cn);
        } else {
            m.disown(cn);
        }
        drop(m);
        self.back(t, actor, own.into_obj(rn));
        true
    }
    /// The node with this preorder number, and the way to it.
    fn target(&self, rn: N, idx: usize) -> (N, Vec<usize>) {
        let m = self.m.borrow();
        let pre = m.pre(rn);
        let tn = pre[idx % pre.len()];
        (tn, m.path(tn))
    }
    /// The same, but never the fake root of a forest.
    fn target_node(&self, rn: N, idx: usize) -> Option<(N, Vec<usize>)> {
        let m = self.m.borrow();
        let mut pre = m.pre(rn);
        if m.nd(rn).item == NIL {
            pre.remove(0);
        }
        if pre.is_empty() {
            return None;
        }
        let tn = pre[idx % pre.len()];
        Some((tn, m.path(tn)))
    }

    fn op_splice(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (t, idx, c, flag) = (a[0], a[1] as usize, a[2], a[3]);
        if t == c {
            return false;
        }
        let Some((actor, mut own, rn)) = self.take_own(t) else { return false };
        let Some((_, fo, fnode)) = self.take_forest(c) else {
            self.back(t, actor, own.into_obj(rn));
            return false;
        };
        let (tn, path) = self.target(rn, idx);
        if self.cyclic(&[fnode], tn) {
            self.back(t, actor, own.into_obj(rn));
            self.back(c, actor, Obj::Forest(fo, fnode));
            return false;
        }
        let front = flag & 4 != 0;
        let out = self.pcall(cx, false, &[rn, fnode], || match (own.at(&path, flag), path.is_empty() && flag & 8 != 0) {
            (Some(n), false) => {
                if front {
                    n.prepend(fo)
                } else {
                    n.append(fo)
                }
            }
            _ => match &mut own {
                Own::T(t) => {
                    if front {
                        t.prepend(fo)
                    } else {
                        t.append(fo)
                    }
                }
                Own::F(f) => {
                    if front {
                        f.prepend(fo)
                    } else {
                        f.append(fo)
                    }
                }
            },
        });
        if self.judge(cx, Ok, out).is_some() {
            self.spliced(tn, fnode, front);
        }
        self.m.borrow_mut().disown(fnode);
        self.back(t, actor, own.into_obj(rn));
        true
    }
    fn spliced(&self, tn: N, fnode: N, front: bool) {
        let mut m = self.m.borrow_mut();
        let kids = m.kids(fnode).to_vec();
        m.nm(fnode).kids.clear();
        let mut at = if front { 0 } else { m.kids(tn).len() };
        for k in kids {
            m.link(tn, at, k);
            at += 1;
        }
    }

    fn op_pop(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (t, idx, flag) = (a[0], a[1] as usize, a[2]);
        let Some((actor, mut own, rn)) = self.take_own(t) else { return false };
        let (tn, path) = self.target(rn, idx);
        let front = flag & 4 != 0;
        let out = self.pcall(cx, false, &[rn], || match (own.at(&path, flag), path.is_empty() && flag & 8 != 0) {
            (Some(n), false) => {
                if front {
                    n.pop_front()
                } else {
                    n.pop_back()
                }
            }
            _ => match &mut own {
                Own::T(t) => {
                    if front {
                        t.pop_front()
                    } else {
                        t.pop_back()
                    }
                }
                Own::F(f) => {
                    if front {
                        f.pop_front()
                    } else {
                        f.pop_back()
                    }
                }
            },
        });
        if let Some(r) = self.judge(cx, Ok, out) {
            let kid = {
                let m = self.m.borrow();
                let k = m.kids(tn);
                if front { k.first().copied() } else { k.last().copied() }
            };
            match (r, kid) {
                (None, None) => (),
                (Some(t), Some(k)) => {
                    self.m.borrow_mut().unlink(k);
                    self.got_tree(cx, t, k, "popped tree");
                }
                (None, Some(_)) => viol("structure", "pop finds no child where there is one"),
                (Some(_), None) => viol("structure", "pop finds a child where there is none"),
            }
        }
        self.back(t, actor, own.into_obj(rn));
        true
    }
    /// A tree came out of the library.
    fn got_tree(&self, cx: &Cx, t: T<P>, n: N, what: &str) -> u32 {
        let s = self.sure("reading a tree", || snap::node(t.root(), 0));
        self.m.borrow().verify(&s, n, what);
        self.note(cx, "got", &[self.m.borrow().v(n) as u64, s.cnt as u64]);
        self.put_tree(cx, t, n)
    }

    fn op_ins_sib(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (t, idx, c, flag) = (a[0], a[1] as usize, a[2], a[3]);
        if t == c {
            return false;
        }
        let Some((actor, mut own, rn)) = self.take_own(t) else { return false };
        let target = self.target_node(rn, idx);
        let child = if target.is_some() { self.take_tree(c) } else { None };
        let Some((_, child, cn)) = child else {
            self.back(t, actor, own.into_obj(rn));
            return false;
        };
        let (tn, path) = target.unwrap();
        let par = self.m.borrow().nd(tn).par;
        if self.cyclic(&[cn], tn) || (par != NIL && self.cyclic(&[cn], par)) {
            self.back(t, actor, own.into_obj(rn));
            self.back(c, actor, Obj::Tree(child, cn));
            return false;
        }
        let prev = flag & 4 != 0;
        let exp = if par == NIL { Refuse } else { Ok };
        let out = self.pcall(cx, false, &[rn, cn], || {
            let n = own.at(&path, flag).unwrap_or_else(|| harness("no node"));
            if prev {
                n.insert_prev_sib(child)
            } else {
                n.insert_next_sib(child)
            }
        });
        let r = self.judge(cx, exp, out);
        let mut m = self.m.borrow_mut();
        if r.is_some() {
            let at = m.index(tn) + !prev as usize;
            m.link(par, at, cn);
        } else {
            m.disown(cn);
        }
        drop(m);
        self.back(t, actor, own.into_obj(rn));
        true
    }

    fn op_detach(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (t, idx) = (a[0], a[1] as usize);
        let Some((actor, mut own, rn)) = self.take_own(t) else { return false };
        let Some((tn, path)) = self.target_node(rn, idx) else {
            self.back(t, actor, own.into_obj(rn));
            return false;
        };
        let par = self.m.borrow().nd(tn).par;
        let exp = if par == NIL { Refuse } else { Ok };
        let out = self.pcall(cx, false, &[rn], || own.at(&path, idx as u32).unwrap_or_else(|| harness("no node")).detach());
        if let Some(x) = self.judge(cx, exp, out) {
            self.m.borrow_mut().unlink(tn);
            self.got_tree(cx, x, tn, "detached tree");
        }
        self.back(t, actor, own.into_obj(rn));
        true
    }

    fn op_abandon(&self, cx: &Cx) -> bool {
        let Some((actor, mut t, rn)) = self.take_tree(cx.st.a[0]) else { return false };
        let out = self.pcall(cx, false, &[rn], || t.abandon());
        if let Some(f) = self.judge(cx, Ok, out) {
            let n = {
                let mut m = self.m.borrow_mut();
                let n = m.new_node(NIL);
                m.nm(n).owned = true;
                n
            };
            self.spliced(n, rn, false);
            let s = self.sure("reading a forest", || snap::forest(&f));
            self.m.borrow().verify(&s, n, "abandoned children");
            self.put(cx, Obj::Forest(f, n));
        }
        let s = self.sure("reading a tree", || snap::node(t.root(), 0));
        self.m.borrow().verify(&s, rn, "tree after abandon()");
        self.back(cx.st.a[0], actor, Obj::Tree(t, rn));
        true
    }

    fn op_set(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((actor, mut own, rn)) = self.take_own(a[0]) else { return false };
        if let Some((tn, path)) = self.target_node(rn, a[1] as usize) {
            let item = self.m.borrow().nd(tn).item;
            let out = self.pcall(cx, false, &[rn], || {
                let d = own.at(&path, a[2]).unwrap_or_else(|| harness("no node")).data_mut();
                if d.id() != item {
                    viol("structure", "data_mut() is of another node");
                }
                d.set_val(a[2] % 17)
            });
            if self.judge(cx, Ok, out).is_some() {
                self.m.borrow_mut().set_val(item, a[2] % 17);
            }
        }
        self.back(a[0], actor, own.into_obj(rn));
        true
    }

    fn take_item(&self, id: u32) -> Option<(u32, It<P>, u32)> {
        let s = self.take(id)?;
        match s.obj {
            Obj::Item(i, n) => Some((s.actor, i, n)),
            o => {
                self.back(id, s.actor, o);
                None
            }
        }
    }
    fn att_roots(&self, item: u32) -> Vec<N> {
        let m = self.m.borrow();
        m.att.get(&item).map(|v| v.iter().filter_map(|a| match a {
            AttM::Strong(n) | AttM::Owned(n) => Some(*n),
            AttM::Weak(_) => None,
        }).collect()).unwrap_or_default()
    }
    fn op_swap(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        if a[0] == a[2] {
            return false;
        }
        let Some((actor, mut own, rn)) = self.take_own(a[0]) else { return false };
        let target = self.target_node(rn, a[1] as usize);
        let item = if target.is_some() { self.take_item(a[2]) } else { None };
        let Some((iactor, item, new)) = item else {
            self.back(a[0], actor, own.into_obj(rn));
            return false;
        };
        let (tn, path) = target.unwrap();
        if self.cyclic(&self.att_roots(new), tn) {
            self.back(a[0], actor, own.into_obj(rn));
            self.back(a[2], iactor, Obj::Item(item, new));
            return false;
        }
        let out = self.pcall(cx, false, &[rn], || {
            std::mem::replace(own.at(&path, a[1]).unwrap_or_else(|| harness("no node")).data_mut(), item)
        });
        if let Some(old) = self.judge(cx, Ok, out) {
            self.swapped(cx, tn, new, old);
        }
        self.back(a[0], actor, own.into_obj(rn));
        true
    }
    fn swapped(&self, cx: &Cx, tn: N, new: u32, old: It<P>) {
        let was = {
            let mut m = self.m.borrow_mut();
            let was = m.nd(tn).item;
            m.nm(tn).item = new;
            m.set_loc(new, Loc::Node(tn));
            m.set_loc(was, Loc::Loose);
            was
        };
        if old.id() != was {
            viol("structure", &format!("item {} was swapped out instead of {was}", old.id()));
        }
        self.put(cx, Obj::Item(old, was));
    }

    // ---- sessions: many library calls under one borrow ----

    fn op_iter_mut(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (id, idx, flag) = (a[0], a[1] as usize, a[2]);
        let script = &a[3..];
        let Some((actor, mut own, rn)) = self.take_own(id) else { return false };
        let (tn, path) = self.target(rn, idx);
        let snap: Vec<N> = self.m.borrow().kids(tn).to_vec();
        let made = RefCell::new(Vec::<(T<P>, N)>::new());
        let out = self.pcall(cx, false, &[rn], || {
            let mut it = match (own.at(&path, flag), path.is_empty() && flag & 8 != 0) {
                (Some(n), false) => n.iter_mut(),
                _ => match &mut own {
                    Own::T(t) => t.iter_mut(),
                    Own::F(f) => f.iter_mut(),
                },
            };
            let mut pins: Vec<(std::pin::Pin<&mut Node<It<P>>>, N)> = ext(|| Vec::with_capacity(snap.len() + 1));
            let mut pos = 0;
            for w in script {
                let (code, p) = (w % 10, (w / 10) as usize);
                if it.len() != snap.len() - pos {
                    viol("iteration", &format!("iter_mut() says {} children are left, not {}", it.len(), snap.len() - pos));
                }
                if code <= 3 {
                    match (it.next(), snap.get(pos)) {
                        (None, None) => (),
                        (Some(n), Some(m)) => {
                            let got = n.data().id();
                            let want = ext(|| self.m.borrow().nd(*m).item);
                            if got != want {
                                viol("iteration", &format!("iter_mut() yields item {got}, not {want}"));
                            }
                            ext(|| pins.push((n, *m)));
                            pos += 1;
                        }
                        (Some(n), None) => viol("iteration", &format!("iter_mut() yields item {} after the last child", n.data().id())),
                        (None, Some(_)) => viol("iteration", "iter_mut() ends before the last child"),
                    }
                    continue;
                }
                if pins.is_empty() {
                    continue;
                }
                let k = p % pins.len();
                let mn = pins[k].1;
                match code {
                    4 => {
                        pins[k].0.data_mut().set_val((p % 17) as u32);
                        ext(|| {
                            let mut m = self.m.borrow_mut();
                            let item = m.nd(mn).item;
                            m.set_val(item, (p % 17) as u32);
                        });
                    }
                    5 => {
                        let t = pins[k].0.detach();
                        ext(|| {
                            self.m.borrow_mut().unlink(mn);
                            self.m.borrow_mut().nm(mn).owned = true;
                            pins.remove(k);
                            made.borrow_mut().push((t, mn));
                        });
                    }
                    6 | 7 => {
                        let (t, n) = self.fresh(p as u32);
                        if code == 6 {
                            pins[k].0.insert_prev_sib(t)
                        } else {
                            pins[k].0.insert_next_sib(t)
                        }
                        ext(|| {
                            let mut m = self.m.borrow_mut();
                            let at = m.index(mn) + (code == 7) as usize;
                            let par = m.nd(mn).par;
                            m.link(par, at, n);
                        });
                    }
                    8 => {
                        let (t, n) = self.fresh(p as u32);
                        if p & 8 == 0 {
                            pins[k].0.push_back(t)
                        } else {
                            pins[k].0.push_front(t)
                        }
                        ext(|| {
                            let mut m = self.m.borrow_mut();
                            let at = if p & 8 == 0 { m.kids(mn).len() } else { 0 };
                            m.link(mn, at, n);
                        });
                    }
                    _ => {
                        let t = if p & 8 == 0 { pins[k].0.pop_front() } else { pins[k].0.pop_back() };
                        ext(|| {
                            let kid = {
                                let m = self.m.borrow();
                                if p & 8 == 0 { m.kids(mn).first().copied() } else { m.kids(mn).last().copied() }
                            };
                            match (t, kid) {
                                (None, None) => (),
                                (Some(t), Some(kn)) => {
                                    let mut m = self.m.borrow_mut();
                                    m.unlink(kn);
                                    m.nm(kn).owned = true;
                                    made.borrow_mut().push((t, kn));
                                }
                                _ => viol("structure", "pop within iter_mut() disagrees with the children"),
                            }
                        });
                    }
                }
            }
            ext(|| drop(pins));
            pos
        });
        self.judge(cx, Ok, out);
        for (t, n) in made.into_inner() {
            self.got_tree(cx, t, n, "tree taken out within iter_mut()");
        }
        let s = self.sure("reading a structure", || own.snap());
        self.m.borrow().verify(&s, rn, "structure after iter_mut()");
        self.back(id, actor, own.into_obj(rn));
        true
    }

    fn op_children(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((actor, mut own, rn)) = self.take_own(a[0]) else { return false };
        let (tn, path) = self.target(rn, a[1] as usize);
        let out = self.pcall(cx, false, &[rn], || match own.at(&path, a[1]) {
            Some(n) => snap::node(n, 0),
            None => own.snap(),
        });
        if let Some(s) = self.judge(cx, Ok, out) {
            self.m.borrow().verify(&s, tn, "node");
        }
        self.back(a[0], actor, own.into_obj(rn));
        true
    }

    fn op_into_iter(&self, cx: &Cx) -> bool {
        let Some((_, own, rn)) = self.take_own(cx.st.a[0]) else { return false };
        let tree = matches!(own, Own::T(_));
        let out = self.pcall(cx, false, &[rn], || match own {
            Own::T(t) => t.into_iter(),
            Own::F(f) => f.into_iter(),
        });
        match self.judge(cx, Ok, out) {
            Some(i) => {
                let n = if tree {
                    let mut m = self.m.borrow_mut();
                    let n = m.new_node(NIL);
                    m.nm(n).owned = true;
                    m.link(n, 0, rn);
                    n
                } else {
                    rn
                };
                self.put(cx, Obj::IntoIter(i, n));
            }
            None => self.m.borrow_mut().disown(rn),
        }
        true
    }
    fn op_ii_next(&self, cx: &Cx) -> bool {
        let id = cx.st.a[0];
        let Some(s) = self.take(id) else { return false };
        let Obj::IntoIter(mut i, n) = s.obj else {
            self.back(id, s.actor, s.obj);
            return false;
        };
        let out = self.pcall(cx, false, &[n], || i.next());
        if let Some(r) = self.judge(cx, Ok, out) {
            let kid = self.m.borrow().kids(n).first().copied();
            match (r, kid) {
                (None, None) => (),
                (Some(t), Some(k)) => {
                    self.m.borrow_mut().unlink(k);
                    self.got_tree(cx, t, k, "tree from a consuming iterator");
                }
                _ => viol("iteration", "a consuming iterator disagrees with the number of trees"),
            }
        }
        self.back(id, s.actor, Obj::IntoIter(i, n));
        true
    }

    fn level_sizes(&self, n: N, with_self: bool) -> Vec<(N, usize, usize)> {
        let m = self.m.borrow();
        m.level(n, with_self).into_iter().map(|x| (x, m.kids(x).len(), m.desc(x))).collect()
    }
    fn op_into_bfs(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((_, own, rn)) = self.take_own(a[0]) else { return false };
        let with_self = matches!(own, Own::T(_));
        let map = a[1] & 1 == 1;
        let how = a[1] / 2;
        let (deg, desc) = {
            let m = self.m.borrow();
            (if with_self { 1 } else { m.kids(rn).len() }, m.desc(rn))
        };
        let out = self.pcall(cx, false, &[rn], || -> (Option<BfsIter<P>>, Size) {
            fn id<P: Payload>(x: It<P>) -> It<P> {
                ext(|| {
                    cb(Cb::Map);
                });
                x
            }
            match own {
                Own::T(t) => {
                    let b = t.into_bfs();
                    let mut d = b.size;
                    if map {
                        let b = b.map(id);
                        let it = b.iter;
                        d = b.size;
                        (ext(|| Some(Box::new(it) as BfsIter<P>)), d)
                    } else {
                        let it = match how % 4 {
                            0 => Some(b.iter),
                            1 => Some(b.wrap().iter()),
                            2 => {
                                let (it, size) = b.wrap().iter_and_size();
                                d = size;
                                Some(it)
                            }
                            _ => b.wrap().tree_iter(),
                        };
                        (ext(|| it.map(|i| Box::new(i) as BfsIter<P>)), d)
                    }
                }
                Own::F(f) => {
                    let b = f.into_bfs();
                    let mut d = b.size;
                    if map {
                        let b = b.map(id);
                        let it = b.iter;
                        d = b.size;
                        (ext(|| Some(Box::new(it) as BfsIter<P>)), d)
                    } else {
                        let it = match how % 4 {
                            0 => Some(b.iter),
                            1 => Some(b.wrap().iter()),
                            2 => {
                                let (it, size) = b.wrap().iter_and_size();
                                d = size;
                                Some(it)
                            }
                            _ => b.wrap().forest_iter(),
                        };
                        (ext(|| it.map(|i| Box::new(i) as BfsIter<P>)), d)
                    }
                }
            }
        });
        match self.judge(cx, Ok, out) {
            Some((it, d)) => {
                if d.descendants != desc || d.degree != deg {
                    viol("bfs", &format!("a breadth-first traversal announces {d:?}, not {deg} children and {desc} descendants"));
                }
                let Some(it) = it else { viol("bfs", "a breadth-first traversal got lost") };
                let rest = self.level_sizes(rn, with_self);
                let mut m = self.m.borrow_mut();
                for (n, _, _) in &rest {
                    let d = m.nm(*n);
                    d.owned = true;
                    d.par = NIL;
                    d.kids.clear();
                }
                if !with_self {
                    m.nm(rn).kids.clear();
                    m.disown(rn);
                }
                drop(m);
                self.put(cx, Obj::Bfs(it, BfsM { rest, pos: 0, broken: false }));
            }
            None => self.m.borrow_mut().disown(rn),
        }
        true
    }
    fn op_bfs_next(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some(s) = self.take(a[0]) else { return false };
        let Obj::Bfs(mut it, mut b) = s.obj else {
            self.back(a[0], s.actor, s.obj);
            return false;
        };
        if b.broken {
            self.back(a[0], s.actor, Obj::Bfs(it, b));
            return false;
        }
        for _ in 0..(a[1] % 40 + 1) {
            let nodes: Vec<N> = b.rest[b.pos..].iter().map(|x| x.0).collect();
            let out = self.pcall(cx, false, &nodes, || it.next());
            match self.judge(cx, Ok, out) {
                Some(None) => {
                    if b.pos != b.rest.len() {
                        viol("bfs", &format!("a consuming breadth-first traversal ends {} nodes early", b.rest.len() - b.pos));
                    }
                    break;
                }
                Some(Some(v)) => {
                    let Some((n, deg, desc)) = b.rest.get(b.pos).copied() else {
                        viol("bfs", "a consuming breadth-first traversal yields too much");
                    };
                    b.pos += 1;
                    let item = self.m.borrow_mut().strip(n);
                    if v.data.id() != item || v.size.degree != deg || v.size.descendants != desc {
                        viol("bfs", &format!("breadth-first: item {} {:?} instead of item {item} with {deg} children, {desc} descendants", v.data.id(), v.size));
                    }
                    self.note(cx, "visit", &[v.data.val() as u64, deg as u64, desc as u64]);
                    if mix((cx.st.id as u64) << 20 ^ b.pos as u64) % 3 == 0 {
                        self.put(cx, Obj::Item(v.data, item));
                    } else {
                        self.m.borrow_mut().item_gone(item);
                        self.sure("dropping an item", || drop(v));
                    }
                }
                None => {
                    // A mapping closure panicked, or memory ran out: nothing more is asked of it.
                    self.probe("consuming traversal interrupted");
                    b.broken = true;
                    for (n, _, _) in b.rest.split_off(b.pos) {
                        self.m.borrow_mut().disown(n);
                    }
                    self.sure("dropping a traversal", || drop(it));
                    return true;
                }
            }
        }
        self.back(a[0], s.actor, Obj::Bfs(it, b));
        true
    }

    fn op_bfs(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (id, idx, kind, stop, seed) = (a[0], a[1] as usize, a[2], a[3] as usize, a[4]);
        let Some(s) = self.take(id) else { return false };
        if let Obj::Handle(h, n) = s.obj {
            // A traversal of a shared tree, through the node.
            self.back(id, s.actor, Obj::Handle(h, n));
            return false;
        }
        let (mut own, rn) = match Self::own(s.obj) {
            Result::Ok(x) => x,
            Err(o) => {
                self.back(id, s.actor, o);
                return false;
            }
        };
        let (tn, path) = self.target(rn, idx);
        let at_forest = self.m.borrow().nd(tn).item == NIL;
        let children = kind & 1 == 1 || at_forest;
        let mutable = kind & 2 == 2;
        let map = kind & 4 == 4;
        let exp = self.level_sizes(tn, !children);
        let pos = Cell::new(0);
        let visit = |got: u32, size: Size| -> N {
            let i = pos.get();
            pos.set(i + 1);
            let Some((n, deg, desc)) = exp.get(i).copied() else { viol("bfs", "a breadth-first traversal yields too much") };
            let item = ext(|| self.m.borrow().nd(n).item);
            if got != item || size.degree != deg || size.descendants != desc {
                viol("bfs", &format!("breadth-first: item {got} {size:?} instead of item {item} with {deg} children, {desc} descendants"));
            }
            n
        };
        let edit = |n: N, d: &mut It<P>| {
            if mix(seed as u64 ^ (n as u64) << 20) & 1 == 1 {
                let v = (mix(seed as u64 + n as u64) % 17) as u32;
                d.set_val(v);
                ext(|| {
                    let mut m = self.m.borrow_mut();
                    let item = m.nd(n).item;
                    m.set_val(item, v);
                });
            }
        };
        let degree = if children { self.m.borrow().kids(tn).len() } else { 1 };
        let total = |s: Size| {
            let d = exp.len() - !children as usize;
            if s.descendants != d || s.degree != degree {
                viol("bfs", &format!("a breadth-first traversal announces {s:?}, not {degree} children and {d} descendants"));
            }
        };
        // What is done with a traversal, be it mapped or not.
        macro_rules! drive {
            ($b:expr, $f:expr) => {{
                let b = $b;
                total(b.size);
                #[allow(unused_mut)]
                let mut f = $f;
                if map {
                    let b = b.map(|x| {
                        ext(|| {
                            cb(Cb::Map);
                        });
                        x
                    });
                    total(b.size);
                    let mut it = b.iter;
                    let mut n = 0;
                    while n < stop {
                        match it.next() {
                            Some(v) => f(v.data, v.size),
                            None => return true,
                        }
                        n += 1;
                    }
                    false
                } else {
                    let mut n = 0;
                    let mut it = b.iter;
                    while n < stop {
                        match it.next() {
                            Some(v) => f(v.data, v.size),
                            None => return true,
                        }
                        n += 1;
                    }
                    false
                }
            }};
        }
        let out = self.pcall(cx, false, &[rn], || -> bool {
            let top = path.is_empty() && seed & 1 == 1;
            if mutable {
                let f = |d: &mut It<P>, size| {
                    let n = visit(d.id(), size);
                    edit(n, d);
                };
                if at_forest {
                    let Own::F(fo) = &mut own else { harness("forest") };
                    drive!(fo.bfs_mut(), f)
                } else if let (Own::T(t), true) = (&mut own, top) {
                    if children {
                        drive!(t.bfs_children_mut(), f)
                    } else {
                        drive!(t.bfs_mut(), f)
                    }
                } else {
                    let n = own.at(&path, seed).unwrap_or_else(|| harness("no node"));
                    if children {
                        drive!(n.bfs_children_mut(), f)
                    } else {
                        drive!(n.bfs_mut(), f)
                    }
                }
            } else {
                let f = |d: &It<P>, size| {
                    visit(d.id(), size);
                };
                if at_forest {
                    let Own::F(fo) = &mut own else { harness("forest") };
                    drive!(fo.bfs(), f)
                } else {
                    let n = &*own.at(&path, seed).unwrap_or_else(|| harness("no node"));
                    if children {
                        drive!(n.bfs_children(), f)
                    } else {
                        drive!(n.bfs(), f)
                    }
                }
            }
        });
        if let Some(ended) = self.judge(cx, Ok, out) {
            if ended && pos.get() != exp.len() {
                viol("bfs", &format!("a breadth-first traversal ends after {} of {} nodes", pos.get(), exp.len()));
            }
            self.note(cx, "visited", &[pos.get() as u64]);
        } else {
            self.probe("borrowing traversal interrupted");
        }
        let s2 = self.sure("reading a structure", || own.snap());
        self.m.borrow().verify(&s2, rn, "structure after a breadth-first traversal");
        self.back(id, s.actor, own.into_obj(rn));
        true
    }

    // ---- copies ----

    fn op_clone(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((actor, mut own, rn)) = self.take_own(a[0]) else { return false };
        let whole = cx.st.op == Op::CloneAll;
        let how = if whole { a[1] } else { a[2] };
        let (tn, path) = if whole { (rn, vec![]) } else { self.target(rn, a[1] as usize) };
        let at_forest = self.m.borrow().nd(tn).item == NIL;
        let children = !whole && how & 1 == 1;
        let out = self.pcall(cx, false, &[rn], || -> Own<P> {
            if whole || at_forest {
                match &own {
                    Own::T(t) => match how % 3 {
                        0 => Own::T(t.clone()),
                        1 => Own::T(Tree::from(t.bfs().map(|x: &It<P>| x.clone()))),
                        _ => Own::T(t.root().deep_clone()),
                    },
                    Own::F(f) => match how % 2 {
                        0 => Own::F(f.clone()),
                        _ => Own::F(Forest::from(f.bfs().map(|x: &It<P>| x.clone()))),
                    },
                }
            } else {
                let n = &*own.at(&path, how).unwrap_or_else(|| harness("no node"));
                match (children, how & 2 == 2) {
                    (true, false) => Own::F(n.deep_clone_forest()),
                    (true, true) => Own::F(Forest::from(n.bfs_children().map(|x: &It<P>| x.clone()))),
                    (false, false) => Own::T(n.deep_clone()),
                    (false, true) => Own::T(Tree::from(n.bfs().map(|x: &It<P>| x.clone()))),
                }
            }
        });
        if let Some(o) = self.judge(cx, Ok, out) {
            let s = self.sure("reading a copy", || o.snap());
            let n = {
                let mut m = self.m.borrow_mut();
                let deg = m.kids(tn).len();
                if s.deg != deg {
                    viol("structure", &format!("a copy has {} children, not {deg}", s.deg));
                }
                if children && !at_forest {
                    // Copy of the children only: compare below a fake root.
                    let f = m.new_node(NIL);
                    let kids = m.kids(tn).to_vec();
                    for (i, k) in kids.iter().enumerate() {
                        let d = m.kids(*k).len();
                        if s.kids[i].kids.len() != d {
                            viol("structure", "a copy of children differs from them");
                        }
                        let c = m.copied(&s.kids[i], *k, d, "copy");
                        m.link(f, i, c);
                    }
                    f
                } else {
                    m.copied(&s, tn, deg, "copy")
                }
            };
            self.m.borrow_mut().nm(n).owned = true;
            self.note_str(cx, "copy", &self.m.borrow().display(n));
            self.put(cx, o.into_obj(n));
        } else {
            self.probe("copy interrupted");
        }
        let s = self.sure("reading a structure", || own.snap());
        self.m.borrow().verify(&s, rn, "source of a copy");
        self.back(a[0], actor, own.into_obj(rn));
        true
    }

    fn op_oper(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (kind, x, y, refs) = (a[0] % 7, a[1], a[2], a[3]);
        let (rx, ry) = (refs & 1 == 1, refs & 2 == 2);
        let unary = kind == 0 || kind == 4;
        // Operands by the kinds the operator wants.
        let want_x_forest = kind >= 5;
        let want_y_forest = kind == 2 || kind == 6;
        let Some((ax, ox, nx)) = self.take_own(x) else { return false };
        let same = x == y && !unary;
        let put_x = |o: Own<P>| self.back(x, ax, o.into_obj(nx));
        if matches!(ox, Own::F(_)) != want_x_forest || (same && !(rx && ry && want_x_forest == want_y_forest)) {
            put_x(ox);
            return false;
        }
        let mut second = None;
        if !unary && !same {
            match self.take_own(y) {
                Some((ay, oy, ny)) if matches!(oy, Own::F(_)) == want_y_forest => second = Some((ay, oy, ny)),
                Some((ay, oy, ny)) => {
                    self.back(y, ay, oy.into_obj(ny));
                    put_x(ox);
                    return false;
                }
                None => {
                    put_x(ox);
                    return false;
                }
            }
        }
        let ny = if same { nx } else { second.as_ref().map_or(NIL, |s| s.2) };
        let nodes = if ny == NIL { vec![nx] } else { vec![nx, ny] };
        if self.m.borrow().att.len() > 0 && ny != NIL && (self.cyclic(&[nx], ny) || self.cyclic(&[ny], nx)) {
            put_x(ox);
            if let Some((ay, oy, ny)) = second {
                self.back(y, ay, oy.into_obj(ny));
            }
            return false;
        }
        let mut hx = Some(ox);
        let ay = second.as_ref().map_or(0, |s| s.0);
        let mut hy = second.map(|s| s.1);
        // By-value operands move into the call, the others stay here.
        let mx = if rx { None } else { hx.take() };
        let my = if ry || unary || same { None } else { hy.take() };
        let tt = |o: Option<Own<P>>| match o {
            Some(Own::T(t)) => t,
            _ => harness("operand"),
        };
        let ff = |o: Option<Own<P>>| match o {
            Some(Own::F(f)) => f,
            _ => harness("operand"),
        };
        let out = {
            let bx = hx.as_ref();
            let by = if same { bx } else { hy.as_ref() };
            let tr = |o: Option<&'_ Own<P>>| -> *const T<P> {
                match o {
                    Some(Own::T(t)) => t,
                    _ => harness("operand"),
                }
            };
            let fr = |o: Option<&'_ Own<P>>| -> *const F<P> {
                match o {
                    Some(Own::F(f)) => f,
                    _ => harness("operand"),
                }
            };
            self.pcall(cx, false, &nodes, || unsafe {
                match (kind, rx, ry) {
                    (0, false, _) => Own::F(-tt(mx)),
                    (0, true, _) => Own::F(-&*tr(bx)),
                    (1, false, false) => Own::F(tt(mx) - tt(my)),
                    (1, false, true) => Own::F(tt(mx) - &*tr(by)),
                    (1, true, false) => Own::F(&*tr(bx) - tt(my)),
                    (1, true, true) => Own::F(&*tr(bx) - &*tr(by)),
                    (2, false, false) => Own::T(tt(mx) / ff(my)),
                    (2, false, true) => Own::T(tt(mx) / &*fr(by)),
                    (2, true, false) => Own::T(&*tr(bx) / ff(my)),
                    (2, true, true) => Own::T(&*tr(bx) / &*fr(by)),
                    (3, false, false) => Own::T(tt(mx) / tt(my)),
                    (3, false, true) => Own::T(tt(mx) / &*tr(by)),
                    (3, true, false) => Own::T(&*tr(bx) / tt(my)),
                    (3, true, true) => Own::T(&*tr(bx) / &*tr(by)),
                    (4, false, _) => Own::T(tt(mx) / ()),
                    (4, true, _) => Own::T(&*tr(bx) / ()),
                    (5, false, false) => Own::F(ff(mx) - tt(my)),
                    (5, false, true) => Own::F(ff(mx) - &*tr(by)),
                    (5, true, false) => Own::F(&*fr(bx) - tt(my)),
                    (5, true, true) => Own::F(&*fr(bx) - &*tr(by)),
                    (6, false, false) => Own::F(ff(mx) - ff(my)),
                    (6, false, true) => Own::F(ff(mx) - &*fr(by)),
                    (6, true, false) => Own::F(&*fr(bx) - ff(my)),
                    _ => Own::F(&*fr(bx) - &*fr(by)),
                }
            })
        };
        let res = self.judge(cx, Ok, out);
        if let Some(o) = res {
            let s = self.sure("reading the result of an operator", || o.snap());
            let n = {
                let mut m = self.m.borrow_mut();
                // The left part.
                let part = |m: &mut Model, at: usize, n: N, by_ref: bool| -> N {
                    if !by_ref {
                        m.nm(n).owned = false;
                        return n;
                    }
                    let d = m.kids(n).len();
                    if s.kids.len() <= at || s.kids[at].kids.len() != d {
                        viol("structure", "an operator's result lacks a part");
                    }
                    m.copied(&s.kids[at], n, d, "operand copied")
                };
                let base = if kind <= 1 {
                    let f = m.new_node(NIL);
                    let c = part(&mut m, 0, nx, rx);
                    m.link(f, 0, c);
                    f
                } else if rx {
                    let d = m.kids(nx).len();
                    m.copied(&s, nx, d, "operand copied")
                } else {
                    nx
                };
                if !unary {
                    if want_y_forest {
                        let kids = m.kids(ny).to_vec();
                        for k in kids {
                            let at = m.kids(base).len();
                            if !ry {
                                m.unlink(k);
                            }
                            let c = part(&mut m, at, k, ry);
                            m.link(base, at, c);
                        }
                        if !ry {
                            m.disown(ny);
                        }
                    } else {
                        let at = m.kids(base).len();
                        let c = part(&mut m, at, ny, ry);
                        m.link(base, at, c);
                    }
                }
                m.nm(base).owned = true;
                m.verify(&s, base, "result of an operator");
                base
            };
            self.put(cx, o.into_obj(n));
        } else {
            let mut m = self.m.borrow_mut();
            if !rx {
                m.disown(nx);
            }
            if !ry && !unary {
                m.disown(ny);
            }
        }
        if let Some(o) = hx {
            put_x(o);
        }
        if let Some(o) = hy {
            self.back(y, ay, o.into_obj(ny));
        }
        true
    }

    // ---- rendering and comparing ----

    fn op_fmt(&self, cx: &Cx) -> bool {
        use std::fmt::Write;
        let a = &cx.st.a;
        let (id, idx, kind, limit, panic) = (a[0], a[1] as usize, a[2] % 4, a[3] as usize, a[4] & 1 == 1);
        let Some(s) = self.take(id) else { return false };
        let debug = kind & 1 == 1;
        let node_level = kind & 2 == 2;
        let n0 = match &s.obj {
            Obj::Tree(_, n) | Obj::Forest(_, n) | Obj::Handle(_, n) => *n,
            _ => {
                self.back(id, s.actor, s.obj);
                return false;
            }
        };
        let shared = matches!(s.obj, Obj::Handle(..));
        let (tn, path) = if shared || !node_level { (n0, vec![]) } else { self.target(n0, idx) };
        let (full, exp) = {
            let m = self.m.borrow();
            let mut full = String::new();
            m.render(tn, &mut full, if debug { 'D' } else { 'v' }, !debug);
            let w = m.writer_below(tn);
            (full, if !w { Ok } else if limit == 0 { Refuse } else { Either })
        };
        let mut sink = Sink { buf: String::with_capacity(full.len() * 8 + 256), limit: limit.checked_sub(1), panic, failed: false };
        let ver = self.m.borrow().ver;
        let out = {
            let k = &mut sink;
            let obj = &s.obj;
            self.pcall(cx, shared, &[tn], || match obj {
                Obj::Handle(h, _) => {
                    if debug {
                        write!(k, "{h:?}")
                    } else {
                        write!(k, "{h}")
                    }
                }
                Obj::Tree(t, _) => {
                    if !path.is_empty() || node_level {
                        let mut n = t.root();
                        for i in &path {
                            n = n.iter().nth(*i).unwrap_or_else(|| viol("structure", "a child cannot be reached"));
                        }
                        if debug {
                            write!(k, "{n:?}")
                        } else {
                            write!(k, "{n}")
                        }
                    } else if debug {
                        write!(k, "{t:?}")
                    } else {
                        write!(k, "{t}")
                    }
                }
                Obj::Forest(f, _) => {
                    if let Some((i, rest)) = path.split_first() {
                        let mut n = f.iter().nth(*i).unwrap_or_else(|| viol("structure", "a tree cannot be reached"));
                        for i in rest {
                            n = n.iter().nth(*i).unwrap_or_else(|| viol("structure", "a child cannot be reached"));
                        }
                        if debug {
                            write!(k, "{n:?}")
                        } else {
                            write!(k, "{n}")
                        }
                    } else if debug {
                        write!(k, "{f:?}")
                    } else {
                        write!(k, "{f}")
                    }
                }
                _ => harness("fmt"),
            })
        };
        let edited = self.m.borrow().ver != ver;
        let fired = ENV.with(|e| (e.fired.get(), e.fired_err.get()));
        let exp = if edited || fired.0 + fired.1 > 0 { Either } else { exp };
        let r = self.judge(cx, exp, out);
        let (got, want) = if debug { (strip_debug(&sink.buf), strip_debug(&full)) } else { (sink.buf.clone(), full) };
        let failed = sink.failed || fired.0 + fired.1 > 0;
        if !edited {
            match r {
                Some(Result::Ok(())) => {
                    if failed {
                        viol("render", "a rendering failed but reports success");
                    }
                    if got != want {
                        viol("render", &format!("rendered {got:?} instead of {want:?}"));
                    }
                }
                Some(Err(_)) => {
                    if !failed {
                        viol("render", "a rendering reports failure though nothing failed");
                    }
                }
                None => (),
            }
            if !want.starts_with(&got) {
                viol("render", &format!("delivered {got:?}, which is no prefix of {want:?}"));
            }
            if failed {
                self.probe("rendering interrupted");
            }
            self.note_str(cx, "text", &got);
        }
        self.back(id, s.actor, s.obj);
        self.observe(cx, id);
        true
    }

    fn op_cmp(&self, cx: &Cx) -> bool {
        let (x, y) = (cx.st.a[0], cx.st.a[2]);
        let Some(sx) = self.take(x) else { return false };
        let sy = if x == y { None } else { self.take(y) };
        let done = if x == y || sy.is_some() { self.compare(cx, &sx.obj, &sy.as_ref().unwrap_or(&sx).obj) } else { false };
        if let Some(s) = sy {
            self.back(y, s.actor, s.obj);
        }
        self.back(x, sx.actor, sx.obj);
        done
    }
    fn compare(&self, cx: &Cx, ox: &Obj<P>, oy: &Obj<P>) -> bool {
        use std::cmp::Ordering;
        let a = &cx.st.a;
        let (ix, iy, op) = (a[1] as usize, a[3] as usize, a[4] % 12);
        let (node, nan) = (a[4] / 12 % 2 == 1, a[4] / 24 % 2 == 1 && op != 2);
        enum W<'a, P: Payload> {
            T(&'a T<P>, &'a T<P>),
            N(&'a Node<It<P>>, &'a Node<It<P>>),
            F(&'a F<P>, &'a F<P>),
            H(&'a RcNode<It<P>>, &'a RcNode<It<P>>),
        }
        let (w, nx, ny) = match (ox, oy) {
            (Obj::Tree(t, n), Obj::Tree(u, o)) if !node => (W::T(t, u), *n, *o),
            (Obj::Tree(t, n), Obj::Tree(u, o)) => {
                let (tn, p) = self.target(*n, ix);
                let (un, q) = self.target(*o, iy);
                let find = |t: &T<P>, p: &[usize]| -> *const Node<It<P>> {
                    let mut x = t.root();
                    for i in p {
                        x = x.iter().nth(*i).unwrap_or_else(|| viol("structure", "a child cannot be reached"));
                    }
                    x
                };
                let (f, g) = (find(t, &p), find(u, &q));
                (unsafe { W::N(&*f, &*g) }, tn, un)
            }
            (Obj::Forest(f, n), Obj::Forest(g, o)) => (W::F(f, g), *n, *o),
            (Obj::Handle(h, n), Obj::Handle(g, o)) => (W::H(h, g), *n, *o),
            _ => return false,
        };
        let shared = matches!(w, W::H(..));
        let ver = self.m.borrow().ver;
        if op == 7 {
            // Hashing: equal content, equal hash.
            let m = self.m.borrow();
            let exp = if m.writer_below(nx) { Refuse } else { Ok };
            let key = m.display(nx);
            drop(m);
            struct H(u64);
            impl std::hash::Hasher for H {
                fn finish(&self) -> u64 {
                    self.0
                }
                fn write(&mut self, b: &[u8]) {
                    for x in b {
                        self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
                    }
                }
            }
            let mut h = H(0xcbf29ce484222325);
            let tag = match w {
                W::T(..) => 0,
                W::N(..) => 1,
                W::F(..) => 2,
                W::H(..) => 3,
            };
            let out = {
                use std::hash::Hash;
                let h = &mut h;
                self.pcall(cx, shared, &[nx, ny], || match w {
                    W::T(t, _) => t.hash(h),
                    W::N(t, _) => t.hash(h),
                    W::F(t, _) => t.hash(h),
                    W::H(t, _) => t.hash(h),
                })
            };
            let edited = self.m.borrow().ver != ver;
            if self.judge(cx, if edited { Either } else { exp }, out).is_some() && !edited {
                let mut hs = self.hashes.borrow_mut();
                let e = hs.entry((tag, key)).or_insert(h.0);
                if *e != h.0 {
                    viol("hash", "equal structures have different hashes");
                }
            }
            return true;
        }
        let (want, exp) = {
            let m = self.m.borrow();
            let w = m.writer_below(nx) || m.writer_below(ny);
            let own = nx != ny && (m.nd(nx).wr || m.nd(ny).wr);
            (m.cmp(nx, ny, nan), if own { Refuse } else if w { Either } else { Ok })
        };
        let out = {
            macro_rules! ask {
                ($a:expr, $b:expr) => {
                    match op {
                        0 => ($a == $b) == (want == Some(Ordering::Equal)),
                        1 => ($a != $b) == (want != Some(Ordering::Equal)),
                        2 => Some($a.cmp($b)) == want,
                        3 => $a.partial_cmp($b) == want,
                        4 => ($a < $b) == (want == Some(Ordering::Less)),
                        5 => ($a >= $b) == want.is_some_and(|o| o != Ordering::Less),
                        8 => ($a <= $b) == want.is_some_and(|o| o != Ordering::Greater),
                        9 => ($a > $b) == (want == Some(Ordering::Greater)),
                        10 => $b.partial_cmp($a) == want.map(Ordering::reverse),
                        11 => ($b != $a) == (want != Some(Ordering::Equal)),
                        _ => ($b == $a) == (want == Some(Ordering::Equal)),
                    }
                };
            }
            let was = ENV.with(|e| e.nan.replace(nan));
            let out = self.pcall(cx, shared, &[nx, ny], || match w {
                W::T(t, u) => ask!(t, u),
                W::N(t, u) => ask!(t, u),
                W::F(t, u) => ask!(t, u),
                W::H(t, u) => ask!(t, u),
            });
            ENV.with(|e| e.nan.set(was));
            out
        };
        let edited = self.m.borrow().ver != ver;
        if edited {
            self.probe("comparison while a tree is edited");
        }
        if let Some(right) = self.judge(cx, if edited { Either } else { exp }, out) {
            if edited {
                return true;
            }
            if !right {
                let m = self.m.borrow();
                viol("compare", &format!("comparison {op} of {} with {} is wrong", m.display(nx), m.display(ny)));
            }
            self.note(cx, "cmp", &[want.map_or(9, |o| o as i8 as u64)]);
        }
        true
    }

    // ---- tuples ----

    /// What a tuple notation says about itself: its sizes, and its events in pre- and postorder.
    fn op_tuple(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (k, forest, how) = (a[0] as usize, a[1] % 2 == 1, a[1] / 2 % 5);
        let sh = Shape::catalog(k, forest);
        let (items, ids) = self.items(&sh, k as u64 ^ a[2] as u64);
        // What is to come: an item with its kind, or the frame of a node.
        let sizes = sh.sizes();
        let mut want: Vec<(u8, u32, Size)> = vec![];
        fn walk(sh: &Shape, ids: &[u32], sizes: &[Size], n: usize, post: bool, want: &mut Vec<(u8, u32, Size)>) {
            let leaf = sh.kids[n].is_empty();
            let own = (leaf as u8, ids[n], sizes[n]);
            if leaf {
                return want.push(own);
            }
            let frame = (2, NIL, sizes[n]);
            want.push(if post { frame } else { own });
            for k in &sh.kids[n] {
                walk(sh, ids, sizes, *k, post, want);
            }
            want.push(if post { own } else { frame });
        }
        let post = how == 2 || how == 4;
        if forest {
            for k in &sh.kids[0] {
                walk(&sh, &ids, &sizes, *k, post, &mut want);
            }
        } else {
            walk(&sh, &ids, &sizes, 0, post, &mut want);
        }
        let mut levels = vec![];
        let mut level: Vec<usize> = vec![0];
        loop {
            level = level.iter().flat_map(|n| sh.kids[*n].iter().copied()).collect();
            if level.is_empty() {
                break;
            }
            levels.push(level.len());
        }
        let height = levels.len() + !forest as usize;
        let mut items = items.into_iter();
        let mut got = 0;
        let out = {
            let (got, want, levels, sizes) = (&mut got, &want, &levels, &sizes);
            let mut make = || items.next().unwrap_or_else(|| harness("catalogue"));
            let mut hear = |e: crate::tupleop::Ev<P>| match e {
                crate::tupleop::Ev::Facts(size, h, l) => {
                    if size.degree != sizes[0].degree || size.descendants != sizes[0].descendants {
                        viol("tuple", &format!("the size of a tuple is {size:?}, not {:?}", sizes[0]));
                    }
                    if h != height {
                        viol("tuple", &format!("the height of a tuple is {h}, not {height}"));
                    }
                    if l.iter().enumerate().any(|(i, n)| *n != levels.get(i).copied().unwrap_or(0)) {
                        viol("tuple", &format!("the levels of a tuple have {l:?} nodes, not {levels:?}"));
                    }
                }
                crate::tupleop::Ev::Visit(v, size) => {
                    use trees::tuple::Visit as V;
                    cb(Cb::Map);
                    let Some(w) = want.get(*got) else { viol("tuple", "a tuple visits more than its nodes") };
                    *got += 1;
                    let (kind, item) = match &v {
                        V::Branch(i) => (0, i.id()),
                        V::Leaf(i) => (1, i.id()),
                        V::Frame => (2, NIL),
                    };
                    if (kind, item) != (w.0, w.1) {
                        viol("tuple", &format!("event {} of a tuple is {kind} of item {}, not {} of {}", *got - 1, item as i32, w.0, w.1 as i32));
                    }
                    if let Some(s) = size {
                        if s.degree != w.2.degree || s.descendants != w.2.descendants {
                            viol("tuple", &format!("event {} of a tuple has size {s:?}, not {:?}", *got - 1, w.2));
                        }
                    }
                }
            };
            self.pcall(cx, false, &[], || {
                if forest {
                    crate::tuples::forest_events(k % crate::tuples::FORESTS.len(), how, &mut make, &mut hear)
                } else {
                    crate::tuples::tree_events(k % crate::tuples::TREES.len(), how, &mut make, &mut hear)
                }
            })
        };
        drop(items);
        let done = self.judge(cx, Ok, out).is_some();
        if done && how != 0 && got != want.len() {
            viol("tuple", &format!("a tuple visits {got} of {} events", want.len()));
        }
        self.note(cx, "tuple", &[got as u64]);
        true
    }

    // ---- streams ----

    fn op_stream(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let (forest, size, seed) = (a[0] & 1 == 1, (a[1] % 40) as usize, a[2]);
        let (corr, pos, delta) = (a[3], a[4] as usize, a[5]);
        let sh = Shape::random(size.max(1 - forest as usize), seed as u64, forest);
        let (list, outer) = corrupt(&sh, corr, pos, delta);
        let items: Vec<It<P>> = list.iter().map(|x| self.mk((mix(seed as u64 ^ (x.key as u64) << 32) % 17) as u32)).collect();
        let ids: Vec<u32> = items.iter().map(|i| i.id()).collect();
        let sizes: Vec<Size> = list.iter().map(|x| x.size).collect();
        let hint = a[0] / 2 % 8;
        let src = Src { it: items.into_iter().zip(sizes.clone()), hint, end: End(Cb::Src) };
        let out = self.pcall(cx, false, &[], || {
            if forest {
                Own::F(Forest::from(bfs::BfsForest { iter: src, size: outer }))
            } else {
                Own::T(Tree::from(bfs::BfsTree { iter: src, size: outer }))
            }
        });
        // Which trees may come of it: one described by the whole stream, or by a prefix if something was added.
        let whole = stream_shape(&sizes, forest, outer);
        let prefix = if whole.is_none() { (0..sizes.len()).rev().find_map(|k| stream_shape(&sizes[..k], forest, outer).map(|s| (k, s))) } else { None };
        let outer_ok = {
            let (d, n) = match &whole {
                Some(s) => (if forest { s.kids[0].len() } else { 1 }, s.kids.len() - 1),
                None => (outer.degree, outer.descendants),
            };
            outer.degree == d && outer.descendants == n
        };
        let exp = match (&whole, &prefix) {
            (Some(_), _) if outer_ok && hint < TRUE_HINTS => Ok,
            (Some(_), _) => Either,
            (None, Some(_)) => Either,
            (None, None) => Refuse,
        };
        if exp != Ok {
            self.probe("stream that describes no tree");
        }
        if let Some(o) = self.judge(cx, exp, out) {
            let s = self.sure("reading a new structure", || o.snap());
            let sh = match (whole, prefix) {
                (Some(s), _) => s,
                (None, Some((_, s))) => s,
                _ => harness("stream"),
            };
            let mut it = vec![];
            if forest {
                it.push(NIL);
            }
            it.extend_from_slice(&ids[..sh.kids.len() - forest as usize]);
            let n = self.model_of(&sh, &it);
            self.m.borrow().verify(&s, n, "structure built from a stream");
            self.put(cx, o.into_obj(n));
        }
        true
    }

    /// Consumes a structure and builds an equal one at once.
    fn op_rebuild(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((_, own, rn)) = self.take_own(a[0]) else { return false };
        let map = a[1] & 1 == 1;
        // (If what is not moved to the library were dropped here, a panic would leak the result.)
        let id = || {
            let end = End(Cb::Map);
            move |x: It<P>| {
                let _ = &end;
                ext(|| {
                    cb(Cb::Map);
                });
                x
            }
        };
        let out = self.pcall(cx, false, &[rn], || match (own, map) {
            (Own::T(t), false) => Own::T(Tree::from(t.into_bfs())),
            (Own::T(t), true) => Own::T(Tree::from(t.into_bfs().map(id()))),
            (Own::F(f), false) => Own::F(Forest::from(f.into_bfs())),
            (Own::F(f), true) => Own::F(Forest::from(f.into_bfs().map(id()))),
        });
        match self.judge(cx, Ok, out) {
            Some(o) => {
                let s = self.sure("reading a structure", || o.snap());
                self.m.borrow().verify(&s, rn, "rebuilt structure");
                self.put(cx, o.into_obj(rn));
            }
            None => self.m.borrow_mut().disown(rn),
        }
        true
    }

    // ---- depth-first cursors ----

    fn op_walk_new(&self, cx: &Cx) -> bool {
        let Some((_, own, rn)) = self.take_own(cx.st.a[0]) else { return false };
        let wm = WalkM::new(&self.m.borrow(), rn);
        let out = self.pcall(cx, false, &[rn], || match own {
            Own::T(t) => Obj::TWalk(TreeWalk::from(t), wm),
            Own::F(f) => Obj::FWalk(ForestWalk::from(f), wm),
        });
        match self.judge(cx, Ok, out) {
            Some(o) => {
                let id = self.put(cx, o);
                self.observe(cx, id);
            }
            None => self.m.borrow_mut().disown(rn),
        }
        true
    }
    fn op_walk_cmd(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some(mut s) = self.take(a[0]) else { return false };
        if self.cfg.threads && s.actor != cx.st.actor {
            self.probe("cursor read by a thread that does not own it");
        }
        let (cmd, n) = (a[1] % 10, a[2] as usize);
        macro_rules! run {
            ($w:expr, $wm:expr) => {{
                let (w, wm) = ($w, $wm);
                let was = RefCell::new(wm.clone()); // before the last single command
                let root = wm.root;
                let out = self.pcall(cx, false, &[root], || {
                    ext(|| wm.step(&self.m.borrow(), cmd, n));
                    let m = ext(|| self.m.borrow());
                    match cmd {
                        0 => wm.answer(&m, w.next()),
                        1 => w.forward(),
                        2 => wm.answer(&m, w.to_parent()),
                        3 => wm.answer(&m, w.to_child(n)),
                        4 => wm.answer(&m, w.to_sib(n)),
                        5 => w.revisit(),
                        6 => wm.answer(&m, w.get()),
                        7 => (),
                        _ => {
                            // The rest of the traversal, in at most twice the number of nodes, or the next n events of it.
                            let mut left = 2 * m.pre(root).len() + 2;
                            let mut stop = if cmd == 9 { n } else { usize::MAX };
                            while !wm.done() && stop > 0 {
                                stop -= 1;
                                if left == 0 {
                                    viol("cursor", "the traversal takes more steps than there are events");
                                }
                                left -= 1;
                                ext(|| {
                                    *was.borrow_mut() = wm.clone();
                                    wm.step(&m, 0, 0)
                                });
                                wm.answer(&m, w.next());
                                let (now, up) = (w.get(), w.get_parent());
                                wm.check(&m, now, up);
                            }
                            for _ in 0..if cmd == 9 { 0 } else { 3 } {
                                wm.answer(&m, w.next());
                            }
                        }
                    }
                });
                if self.judge(cx, Ok, out).is_none() {
                    wm.either(&was.borrow());
                    self.probe("cursor command interrupted");
                } else {
                    self.note(cx, "at", &wm.log(&self.m.borrow()));
                }
            }};
        }
        match &mut s.obj {
            Obj::TWalk(w, wm) => run!(w, wm),
            Obj::FWalk(w, wm) => run!(w, wm),
            _ => {
                self.back(a[0], s.actor, s.obj);
                return false;
            }
        }
        self.back(a[0], s.actor, s.obj);
        self.observe(cx, a[0]);
        true
    }
    fn op_walk_done(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some(s) = self.take(a[0]) else { return false };
        let (own, rn) = match s.obj {
            Obj::TWalk(w, wm) => (self.sure("taking the tree back", || Own::T(Tree::from(w))), wm.root),
            Obj::FWalk(w, wm) => (self.sure("taking the forest back", || Own::F(Forest::from(w))), wm.root),
            o => {
                self.back(a[0], s.actor, o);
                return false;
            }
        };
        let sn = self.sure("reading a structure", || own.snap());
        self.m.borrow().verify(&sn, rn, "structure taken back from a cursor");
        self.put(cx, own.into_obj(rn));
        true
    }

    // ---- shared trees ----

    fn op_to_rc(&self, cx: &Cx) -> bool {
        let Some((_, t, rn)) = self.take_tree(cx.st.a[0]) else { return false };
        let out = self.pcall(cx, false, &[rn], || RcNode::from(t));
        match self.judge(cx, Ok, out) {
            Some(h) => {
                let mut m = self.m.borrow_mut();
                m.nm(rn).owned = false;
                m.addref(rn);
                drop(m);
                let id = self.put(cx, Obj::Handle(Box::new(h), rn));
                self.observe(cx, id);
            }
            None => self.m.borrow_mut().disown(rn),
        }
        true
    }

    /// A handle on a known node came out of the library.
    fn got_handle(&self, cx: &Cx, h: RcNode<It<P>>, n: N) -> u32 {
        let id = self.put(cx, Obj::Handle(Box::new(h), n));
        let mut m = self.m.borrow_mut();
        m.addref(n);
        if !m.nd(n).wr && !self.soft(n) {
            let item = m.nd(n).item;
            let objs = self.objs.borrow();
            let Obj::Handle(h, _) = &objs[&id].obj else { harness("handle") };
            let got = self.sure("data()", || h.data().id());
            if got != item {
                viol("structure", &format!("a handle is on item {got}, not {item}"));
            }
            self.note(cx, "handle", &[m.v(n) as u64]);
        }
        id
    }

    fn op_h_read(&self, cx: &Cx) -> bool {
        use Op::*;
        let a = &cx.st.a;
        let Some((actor, h, n)) = self.take_handle(a[0]) else { return false };
        match cx.st.op {
            HClone => {
                let out = self.pcall(cx, false, &[n], || RcNode::clone(&h));
                if let Some(x) = self.judge(cx, Ok, out) {
                    self.got_handle(cx, x, n);
                }
            }
            HDown => {
                let out = self.pcall(cx, false, &[n], || h.downgrade());
                if let Some(x) = self.judge(cx, Ok, out) {
                    self.m.borrow_mut().nm(n).weaks += 1;
                    self.put(cx, Obj::Weak(x, n));
                }
            }
            HMany => {
                // A crowd of handles comes and goes.
                let (how, k) = (a[1] % 4, (a[1] / 4) as usize);
                let mut crowd = Vec::with_capacity(k);
                let mut weak = Vec::with_capacity(k);
                let out = self.pcall(cx, false, &[n], || {
                    for i in 0..k {
                        match (how + i as u32) % 4 {
                            0 => weak.push(h.downgrade()),
                            1 if i % 5 == 0 => crowd.extend(h.downgrade().upgrade()),
                            _ => crowd.push(RcNode::clone(&h)),
                        }
                    }
                    let up = weak.iter().filter(|x| x.upgrade().is_some()).count();
                    let all = up + crowd.len();
                    if how < 2 {
                        crowd.reverse();
                    }
                    drop(std::mem::take(&mut crowd));
                    drop(std::mem::take(&mut weak));
                    all
                });
                if let Some(r) = self.judge(cx, Ok, out) {
                    if r != k {
                        viol("upgrade", &format!("of {k} handles to a living node {r} are good"));
                    }
                    self.note(cx, "crowd", &[k as u64]);
                }
            }
            HNav => {
                let how = a[1] % 6;
                let nth = (a[1] / 6) as usize;
                let exp = self.sexp(n, false);
                let want = {
                    let m = self.m.borrow();
                    let k = m.kids(n);
                    match how {
                        0 => k.first().copied(),
                        1 => k.last().copied(),
                        2 | 3 => m.parent(n),
                        _ => k.get(nth).copied(),
                    }
                };
                let out = self.pcall(cx, false, &[n], || match how {
                    0 => h.front(),
                    1 => h.back(),
                    2 | 3 => h.parent(),
                    _ => h.iter_rc().nth(nth),
                });
                if let Some(r) = self.judge(cx, exp, out) {
                    match (r, want) {
                        (None, None) => self.note(cx, "none", &[]),
                        (Some(x), Some(w)) => {
                            self.got_handle(cx, x, w);
                        }
                        (r, w) => viol("structure", &format!("navigation {how} from item {} finds {}, not {w:?}", self.m.borrow().nd(n).item, if r.is_some() { "a node" } else { "nothing" })),
                    }
                }
            }
            HAsk => {
                // Looking at a node is fine whenever nobody holds it exclusively, also while others read it.
                let exp = if self.m.borrow().nd(n).wr { Refuse } else { Ok };
                let want = {
                    let m = self.m.borrow();
                    let deg = m.kids(n).len() as u64;
                    let item = m.nd(n).item;
                    match a[1] % 7 {
                        0 => (m.parent(n).is_none()) as u64,
                        1 => (deg == 0) as u64,
                        2 => deg,
                        3 => m.pre(n).len() as u64,
                        4 => item as u64,
                        5 => item as u64 * 2,
                        _ => deg,
                    }
                };
                let out = self.pcall(cx, false, &[n], || match a[1] % 7 {
                    0 => h.is_root() as u64,
                    1 => h.has_no_child() as u64,
                    2 => h.degree() as u64,
                    3 => h.node_count() as u64,
                    4 => h.data().id() as u64,
                    5 => {
                        // Readers do not exclude each other.
                        let (g, k) = (h.data(), h.data());
                        let nodes = h.node_count();
                        g.id() as u64 + k.id() as u64 + (nodes == 0) as u64
                    }
                    _ => {
                        let (lo, hi) = h.iter_rc().size_hint();
                        if lo as u64 <= want && hi.map_or(true, |x| x as u64 >= want) { want } else { lo as u64 }
                    }
                });
                if let Some(r) = self.judge(cx, exp, out) {
                    if r != want {
                        viol("structure", &format!("question {} to item {} is answered with {r}, not {want}", a[1] % 7, self.m.borrow().nd(n).item));
                    }
                    self.note(cx, "ask", &[if matches!(a[1] % 7, 4 | 5) { 0 } else { r }]);
                }
            }
            HGuard => {
                let write = a[1] & 1 == 1;
                let exp = self.sexp(n, write);
                let hb = Box::new(self.sure("clone()", || RcNode::clone(&h)));
                let p: *const RcNode<It<P>> = &*hb;
                let item = self.m.borrow().nd(n).item;
                let bad = |got: u32| {
                    if got != item {
                        viol("structure", &format!("a guard is on item {got}, not {item}"));
                    }
                };
                if write {
                    let out = self.pcall(cx, false, &[n], || unsafe {
                        if a[1] & 2 == 0 {
                            (*p).data_mut()
                        } else {
                            RefMut::map((*p).node_mut(), |x| x.data_mut())
                        }
                    });
                    match self.judge(cx, exp, out) {
                        Some(g) => {
                            bad(g.id());
                            let mut m = self.m.borrow_mut();
                            m.addref(n);
                            m.nm(n).wr = true;
                            drop(m);
                            self.put(cx, Obj::GuardW(Guard { g: ManuallyDrop::new(g), _h: hb }, n));
                        }
                        None => self.sure("dropping a handle", || drop(hb)),
                    }
                } else {
                    let out = self.pcall(cx, false, &[n], || unsafe {
                        if a[1] & 2 == 0 {
                            (*p).data()
                        } else {
                            Ref::map((*p).node(), |x| x.data())
                        }
                    });
                    match self.judge(cx, exp, out) {
                        Some(g) => {
                            bad(g.id());
                            let mut m = self.m.borrow_mut();
                            m.addref(n);
                            m.nm(n).rd += 1;
                            drop(m);
                            self.put(cx, Obj::GuardR(Guard { g: ManuallyDrop::new(g), _h: hb }, n));
                        }
                        None => self.sure("dropping a handle", || drop(hb)),
                    }
                }
            }
            HIter => {
                let exp = self.sexp(n, false);
                let out = self.pcall(cx, false, &[n], || h.iter_rc());
                if let Some(it) = self.judge(cx, exp, out) {
                    let (lo, hi) = it.size_hint();
                    let id = self.put(cx, Obj::Iter(it));
                    let mut m = self.m.borrow_mut();
                    let nodes = m.kids(n).to_vec();
                    let left = nodes.len();
                    let im = IterM { nodes, pos: 0, exact: true, cand: BTreeSet::new(), left };
                    self.check_len(&im, lo, hi);
                    m.iters.insert(id, im);
                }
            }
            _ => {
                // HDeep
                let exp = if self.m.borrow().writer_below(n) { Refuse } else { Ok };
                let ver = self.m.borrow().ver;
                let out = self.pcall(cx, true, &[n], || h.deep_clone());
                let edited = self.m.borrow().ver != ver;
                match self.judge(cx, if edited && exp == Ok { Either } else { exp }, out) {
                    Some(t) => {
                        let s = self.sure("reading a copy", || snap::node(t.root(), 0));
                        if edited {
                            // The source was edited meanwhile: the copy has to be some tree of copies.
                            self.probe("deep_clone while the tree is edited");
                            self.m.borrow_mut().ver += 1;
                            let nn = self.adopt(&s);
                            self.put_tree(cx, t, nn);
                        } else {
                            let mut m = self.m.borrow_mut();
                            let deg = m.kids(n).len();
                            if s.deg != deg {
                                viol("structure", &format!("a copy has {} children, not {deg}", s.deg));
                            }
                            let c = m.copied(&s, n, deg, "deep_clone");
                            drop(m);
                            self.put_tree(cx, t, c);
                        }
                    }
                    None => self.probe("copy interrupted"),
                }
            }
        }
        self.back(a[0], actor, Obj::Handle(h, n));
        self.observe(cx, a[0]);
        true
    }
    /// A model of what was found, for structures whose exact content is open.
    fn adopt(&self, s: &snap::Snap) -> N {
        let (val, src) = ENV.with(|e| {
            let l = e.ledger.borrow();
            let r = &l[s.id as usize];
            (r.val, r.src)
        });
        let n = {
            let mut m = self.m.borrow_mut();
            if src == NONE || m.loc_of(s.id) != Loc::Gone {
                viol("structure", "a copy contains an item that is no copy");
            }
            m.set_val(s.id, val);
            m.new_node(s.id)
        };
        for (i, k) in s.kids.iter().enumerate() {
            let c = self.adopt(k);
            self.m.borrow_mut().link(n, i, c);
        }
        n
    }

    fn op_h_edit(&self, cx: &Cx) -> bool {
        use Op::*;
        let a = &cx.st.a;
        let Some((actor, mut h, n)) = self.take_handle(a[0]) else { return false };
        let keep = |h: Box<RcNode<It<P>>>| self.back(a[0], actor, Obj::Handle(h, n));
        let soft = self.soft(n);
        let exp = self.sexp(n, true);
        match cx.st.op {
            HPush | HIns => {
                if a[0] == a[1] {
                    keep(h);
                    return false;
                }
                let Some((ta, t, tn)) = self.take_tree(a[1]) else {
                    keep(h);
                    return false;
                };
                let par = self.m.borrow().nd(n).par;
                let target = if cx.st.op == HPush { n } else { par };
                if (target != NIL && self.cyclic(&[tn], target)) || self.cyclic(&[tn], n) {
                    keep(h);
                    self.back(a[1], ta, Obj::Tree(t, tn));
                    return false;
                }
                let first = a[2] & 1 == 1;
                let mut exp = exp;
                if cx.st.op == HIns && par == NIL && exp == Ok {
                    exp = Refuse;
                }
                if soft && exp == Refuse && !self.m.borrow().guarded(n) {
                    exp = Either;
                }
                let out = self.pcall(cx, false, &[n, tn], || match (cx.st.op, first) {
                    (HPush, true) => h.push_front(t),
                    (HPush, false) => h.push_back(t),
                    (_, true) => h.insert_prev_sib(t),
                    (_, false) => h.insert_next_sib(t),
                });
                let r = self.judge(cx, exp, out);
                let mut m = self.m.borrow_mut();
                if r.is_some() && target != NIL {
                    let at = match (cx.st.op, first) {
                        (HPush, true) => 0,
                        (HPush, false) => m.kids(n).len(),
                        (_, first) => m.index(n) + !first as usize,
                    };
                    m.link(target, at, tn);
                } else {
                    m.disown(tn);
                }
            }
            HSplice => {
                let Some((ta, f, fnode)) = self.take_forest(a[1]) else {
                    keep(h);
                    return false;
                };
                if self.cyclic(&[fnode], n) {
                    keep(h);
                    self.back(a[1], ta, Obj::Forest(f, fnode));
                    return false;
                }
                let first = a[2] & 1 == 1;
                let out = self.pcall(cx, false, &[n, fnode], || if first { h.prepend(f) } else { h.append(f) });
                if self.judge(cx, exp, out).is_some() {
                    self.spliced(n, fnode, first);
                }
                self.m.borrow_mut().disown(fnode);
            }
            HPop => {
                let first = a[1] & 1 == 1;
                let out = self.pcall(cx, false, &[n], || if first { h.pop_front() } else { h.pop_back() });
                if let Some(r) = self.judge(cx, exp, out) {
                    let kid = {
                        let m = self.m.borrow();
                        let k = m.kids(n);
                        if first { k.first().copied() } else { k.last().copied() }
                    };
                    match (r, kid) {
                        (None, None) => self.note(cx, "none", &[]),
                        (Some(x), Some(k)) => {
                            self.m.borrow_mut().unlink(k);
                            let id = self.got_handle(cx, x, k);
                            self.observe(cx, id);
                        }
                        (r, _) => viol("structure", &format!("pop finds {}", if r.is_some() { "a child where there is none" } else { "no child where there is one" })),
                    }
                }
            }
            HDet => {
                let par = self.m.borrow().nd(n).par;
                let mut exp = exp;
                if par == NIL && exp == Ok {
                    exp = Refuse;
                }
                let out = self.pcall(cx, false, &[n], || h.detach());
                if self.judge(cx, exp, out).is_some() {
                    let mut m = self.m.borrow_mut();
                    m.unlink(n);
                    m.settle(n);
                }
            }
            HExt => {
                let (count, seed) = ((a[1] % 5) as usize, a[2]);
                let roots = RefCell::new(Vec::new());
                // The source may look at the tree that it is extending.
                let look = a[3] % 4;
                let peer = (look > 0).then(|| self.sure("clone()", || RcNode::clone(&h)));
                let (item0, deg0) = {
                    let m = self.m.borrow();
                    (m.nd(n).item, m.kids(n).len())
                };
                let peek = |k: usize| {
                    let Some(p) = &peer else { return };
                    let exp = if self.m.borrow().nd(n).wr { Refuse } else { Ok };
                    match (call(|| if look == 1 { p.data().id() as usize } else { p.degree() }), exp) {
                        (Out::Ok(_), Refuse) => viol("not-refused", "a stream may look at a node that is held exclusively"),
                        (Out::Ok(x), _) => {
                            self.probe("stream looks at the node that it extends");
                            if if look == 1 { x != item0 as usize } else { x < deg0 || x > deg0 + k } {
                                viol("structure", "a stream sees a wrong node that it extends");
                            }
                        }
                        (Out::Lib(msg), Ok) => viol("panic", &format!("looking at a node that is being extended panicked: {msg}")),
                        _ => (),
                    }
                };
                let out = {
                    let mut k = 0;
                    let (roots, peek) = (&roots, &peek);
                    let end = End(Cb::Src);
                    let src = std::iter::from_fn(move || {
                        let _ = &end;
                        let _o = Outside::new();
                        cb(Cb::Src);
                        peek(k);
                        if k == count {
                            return None;
                        }
                        k += 1;
                        let was = heap::set_in_lib(true);
                        let (t, r) = self.fresh(seed.wrapping_add(k as u32 * 7));
                        heap::set_in_lib(was);
                        roots.borrow_mut().push(r);
                        Some(t)
                    });
                    let src = Told { it: src, left: count, hint: a[3] / 4 % TRUE_HINTS };
                    self.pcall(cx, false, &[n], || h.extend(src))
                };
                let exp = if count == 0 { Either } else { exp };
                let r = self.judge(cx, exp, out);
                if let Some(p) = peer {
                    self.sure("dropping a handle", || drop(p));
                }
                let mut m = self.m.borrow_mut();
                let mut gone = false;
                for t in roots.into_inner() {
                    let item = m.nd(t).item;
                    let alive = ENV.with(|e| e.ledger.borrow()[item as usize].alive);
                    if r.is_some() || (alive && !gone && exp != Refuse) {
                        let at = m.kids(n).len();
                        m.link(n, at, t);
                    } else {
                        gone = true;
                        m.disown(t);
                    }
                }
            }
            HSet => {
                let v = a[1] % 17;
                let out = self.pcall(cx, false, &[n], || h.data_mut().set_val(v));
                if self.judge(cx, exp, out).is_some() {
                    let mut m = self.m.borrow_mut();
                    let item = m.nd(n).item;
                    m.set_val(item, v);
                }
            }
            _ => {
                // HSwap
                let Some((ia, item, new)) = self.take_item(a[1]) else {
                    keep(h);
                    return false;
                };
                if self.cyclic(&self.att_roots(new), n) {
                    keep(h);
                    self.back(a[1], ia, Obj::Item(item, new));
                    return false;
                }
                let out = self.pcall(cx, false, &[n], || std::mem::replace(&mut *h.data_mut(), item));
                match self.judge(cx, exp, out) {
                    Some(old) => self.swapped(cx, n, new, old),
                    None => self.m.borrow_mut().item_gone(new),
                }
            }
        }
        keep(h);
        if !soft {
            self.observe(cx, a[0]);
        }
        true
    }

    fn op_h_tree(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some((actor, h, n)) = self.take_handle(a[0]) else { return false };
        let (fit, root) = {
            let m = self.m.borrow();
            let root = m.nd(n).par == NIL;
            let own: Vec<N> = m.pre(n);
            let sole = own.iter().all(|x| {
                let d = m.nd(*x);
                d.refs == (*x == n) as u32 && d.weaks == 0 && !m.guarded(*x) && !m.iter_holds(*x) && d.st == St::Alive
            }) && !m.iters.values().any(|i| i.nodes.iter().chain(i.cand.iter()).any(|x| own.contains(x)));
            (sole || !root, root)
        };
        // An iterator that may hold any node makes the unsafe call's conditions doubtful.
        if !fit {
            self.back(a[0], actor, Obj::Handle(h, n));
            return false;
        }
        let exp = if root { Ok } else { Refuse };
        let out = self.pcall(cx, false, &[n], || unsafe { h.into_tree() });
        match self.judge(cx, exp, out) {
            Some(t) => {
                let mut m = self.m.borrow_mut();
                m.nm(n).refs -= 1;
                m.nm(n).owned = true;
                drop(m);
                self.got_tree(cx, t, n, "tree from a handle");
            }
            None => self.m.borrow_mut().unref(n),
        }
        true
    }

    fn op_w_up(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        let Some(s) = self.take(a[0]) else { return false };
        let Obj::Weak(w, n) = s.obj else {
            self.back(a[0], s.actor, s.obj);
            return false;
        };
        let in_use = self.depth.get() > 1 && self.busy.borrow().iter().any(|(b, _)| b.contains(&n));
        let alive = self.m.borrow().alive(n);
        let out = self.pcall(cx, false, &[n], || w.upgrade());
        if let Some(r) = self.judge(cx, Ok, out) {
            if in_use {
                // The node may be about to die or be kept by the call under way: only the item counts.
                let item = self.m.borrow().nd(n).item;
                if let Some(h) = r {
                    let live = ENV.with(|e| e.ledger.borrow()[item as usize].alive);
                    if !live {
                        viol("resurrected", &format!("a weak handle upgrades although item {item} was dropped"));
                    }
                    if cx.st.op == Op::WUp && alive && self.soft(n) {
                        self.got_handle(cx, h, n);
                    } else {
                        self.sure("dropping a handle", || drop(h));
                    }
                }
            } else {
                match (r, alive) {
                    (Some(h), true) => {
                        if cx.st.op == Op::WProbe {
                            self.sure("dropping a handle", || drop(h));
                        } else {
                            self.got_handle(cx, h, n);
                        }
                    }
                    (None, false) => self.note(cx, "dead", &[]),
                    (Some(_), false) => viol("resurrected", "a weak handle upgrades although its node is dead"),
                    (None, true) => viol("weak", "a weak handle does not upgrade although its node lives"),
                }
            }
        }
        self.back(a[0], s.actor, Obj::Weak(w, n));
        true
    }

    fn op_g_use(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        if !self.observe(cx, a[0]) {
            return false;
        }
        let mut objs = self.objs.borrow_mut();
        let Some(s) = objs.get_mut(&a[0]) else { return false };
        match &mut s.obj {
            Obj::GuardW(g, n) => {
                let item = g.g.id();
                g.g.set_val(a[1] % 17);
                let n = *n;
                self.m.borrow_mut().set_val(item, a[1] % 17);
                self.note(cx, "w", &[n as u64 * 0]);
                true
            }
            Obj::GuardR(..) => true,
            _ => false,
        }
    }

    fn op_it_next(&self, cx: &Cx) -> bool {
        let id = cx.st.a[0];
        let Some(s) = self.take(id) else { return false };
        let Obj::Iter(mut it) = s.obj else {
            self.back(id, s.actor, s.obj);
            return false;
        };
        let im = self.m.borrow().iters[&id].clone();
        if !im.exact && self.m.borrow().any_writer() {
            self.back(id, s.actor, Obj::Iter(it));
            return false;
        }
        let nodes: Vec<N> = im.nodes.iter().chain(im.cand.iter()).copied().collect();
        let out = self.pcall(cx, false, &nodes, || it.next());
        let r = match self.judge(cx, Ok, out) {
            Some(r) => r,
            None => {
                self.back(id, s.actor, Obj::Iter(it));
                return true;
            }
        };
        if im.exact {
            match (r, im.nodes.get(im.pos)) {
                (None, None) => self.note(cx, "end", &[]),
                (Some(h), Some(n)) => {
                    {
                        let mut m = self.m.borrow_mut();
                        let e = m.iters.get_mut(&id).unwrap();
                        e.pos += 1;
                        e.left -= 1;
                    }
                    self.got_handle(cx, h, *n);
                }
                (Some(_), None) => viol("iteration", "iter_rc() yields a node after the last child"),
                (None, Some(_)) => viol("iteration", &format!("iter_rc() ends {} children early", im.nodes.len() - im.pos)),
            }
        } else {
            self.probe("iterator outlived its children");
            match r {
                None => {
                    // It may be over for good or not; nothing is said about that.
                    self.note(cx, "end", &[]);
                    let mut m = self.m.borrow_mut();
                    let e = m.iters.get_mut(&id).unwrap();
                    e.left = e.left.saturating_sub(1);
                }
                Some(h) => {
                    if im.left == 0 {
                        viol("iteration", "iter_rc() yields more children than there were at the start");
                    }
                    let item = self.sure("data()", || h.data().id());
                    let n = match self.m.borrow().loc_of(item) {
                        Loc::Node(n) if self.m.borrow().alive(n) => n,
                        _ => viol("iteration", &format!("iter_rc() yields item {item}, which is in no tree")),
                    };
                    let mut m = self.m.borrow_mut();
                    let sibs = if m.nd(n).par != NIL { m.kids(m.nd(n).par).to_vec() } else { vec![] };
                    let e = m.iters.get_mut(&id).unwrap();
                    e.left -= 1;
                    e.cand.extend(sibs);
                    drop(m);
                    self.got_handle(cx, h, n);
                }
            }
        }
        let (lo, hi) = it.size_hint();
        self.check_len(&self.m.borrow().iters[&id], lo, hi);
        self.back(id, s.actor, Obj::Iter(it));
        true
    }
    fn op_it_clone(&self, cx: &Cx) -> bool {
        let id = cx.st.a[0];
        let Some(s) = self.take(id) else { return false };
        let Obj::Iter(it) = s.obj else {
            self.back(id, s.actor, s.obj);
            return false;
        };
        let nodes = {
            let m = self.m.borrow();
            m.iters[&id].nodes.clone()
        };
        let out = self.pcall(cx, false, &nodes, || it.clone());
        if let Some(c) = self.judge(cx, Ok, out) {
            let nid = self.put(cx, Obj::Iter(c));
            let mut m = self.m.borrow_mut();
            let im = m.iters[&id].clone();
            m.iters.insert(nid, im);
        }
        self.back(id, s.actor, Obj::Iter(it));
        true
    }

    // ---- clients ----

    /// A client dies with everything it holds, in some order, maybe while unwinding.
    fn op_crash(&self, cx: &Cx) -> bool {
        let (actor, mode) = (cx.st.a[0], cx.st.a[1]);
        let mut ids: Vec<u32> = self.objs.borrow().iter().filter(|(_, s)| s.actor == actor).map(|(i, _)| *i).collect();
        if ids.is_empty() {
            return false;
        }
        ids.sort_by_key(|i| mix(*i as u64 ^ (mode as u64) << 32));
        let mut held = Vec::new();
        let mut nodes = Vec::new();
        for id in ids {
            let s = self.take(id).unwrap();
            nodes.extend(self.obj_nodes(id, &s.obj));
            held.push((id, s.obj));
        }
        // As in op_drop(): what the calls work on is known before the model moves.
        let nodes: Vec<N> =
            if cx.st.nest.is_empty() { nodes } else { self.m.borrow().components(&nodes).into_iter().collect() };
        for (id, o) in &held {
            self.release(*id, o);
        }
        let held: Vec<Obj<P>> = held.into_iter().map(|x| x.1).collect();
        self.probe("client crashed");
        if mode & 1 == 1 {
            let out = call(move || {
                let _held = held;
                ext(|| std::panic::panic_any(SimPanic))
            });
            match out {
                Out::Ok(()) | Out::Sim => (),
                _ => viol("panic", "dropping a crashed client's objects panicked"),
            }
        } else {
            let out = self.pcall(cx, false, &nodes, move || drop(held));
            self.judge(cx, Ok, out);
        }
        true
    }

    fn op_attach(&self, cx: &Cx) -> bool {
        let a = &cx.st.a;
        if a[0] == a[1] {
            return false;
        }
        let Some((actor, mut item, id)) = self.take_item(a[0]) else { return false };
        let Some(s) = self.take(a[1]) else {
            self.back(a[0], actor, Obj::Item(item, id));
            return false;
        };
        let mut rec = None;
        match s.obj {
            Obj::Tree(t, n) => {
                item.attach(Box::new(A(t)));
                rec = Some(AttM::Owned(n));
            }
            Obj::Forest(f, n) => {
                item.attach(Box::new(A(f)));
                rec = Some(AttM::Owned(n));
            }
            Obj::Handle(h, n) => {
                item.attach(Box::new(A(h)));
                rec = Some(AttM::Strong(n));
            }
            Obj::Weak(w, n) => {
                item.attach(Box::new(A(w)));
                rec = Some(AttM::Weak(n));
            }
            o => self.back(a[1], s.actor, o),
        }
        let done = rec.is_some();
        if let Some(r) = rec {
            self.m.borrow_mut().att.entry(id).or_default().push(r);
        }
        self.back(a[0], actor, Obj::Item(item, id));
        done
    }

    // ---- the end of a run ----

    /// Looks at everything, then takes everything apart by one way or another.
    pub fn finish(&self, next_id: u32) {
        let end = Step::new(next_id, 0, Op::Obs, vec![]);
        let cx = Cx { st: &end, k: Cell::new(0), armed: Cell::new(true) };
        ENV.with(|e| e.where_.set(next_id));
        if self.cfg.threads {
            let actors: BTreeSet<u32> = self.objs.borrow().values().map(|s| s.actor).collect();
            for a in actors {
                self.threads.on(a, &|| self.observe_all(&cx));
            }
        } else {
            self.observe_all(&cx);
        }
        let mut id = next_id + 1;
        let mut rounds = 0;
        loop {
            let ids: Vec<u32> = self.objs.borrow().keys().copied().collect();
            if ids.is_empty() {
                break;
            }
            rounds += 1;
            if rounds > 400 {
                harness("taking the world apart does not end");
            }
            // One object at a time, so that each effect can be checked.
            let pick = ids[(mix(next_id as u64 ^ (rounds as u64) << 32) % ids.len() as u64) as usize];
            let kind = {
                let objs = self.objs.borrow();
                match &objs[&pick].obj {
                    Obj::Tree(..) | Obj::Forest(..) => mix(pick as u64 + rounds) % 5,
                    Obj::TWalk(..) | Obj::FWalk(..) => 10 + mix(pick as u64) % 2,
                    Obj::Bfs(..) => 20 + mix(pick as u64) % 2,
                    _ => 9,
                }
            };
            let mut steps = vec![];
            let client = if self.cfg.threads { self.objs.borrow()[&pick].actor } else { 0 };
            let mut step = |op, a: Vec<u32>| {
                steps.push(Step::new(id, client, op, a));
                id += 1;
            };
            match kind {
                0 => step(Op::IntoBfs, vec![pick, 0]),
                1 => step(Op::Pop, vec![pick, 0, 12]),
                2 => step(Op::IntoIter, vec![pick]),
                10 => step(Op::WalkDone, vec![pick, 0]),
                20 => {
                    step(Op::BfsNext, vec![pick, 39]);
                    step(Op::Drop, vec![pick]);
                }
                _ => step(Op::Drop, vec![pick]),
            }
            if rounds > 60 {
                steps = ids.iter().map(|i| {
                    id += 1;
                    Step::new(id, if self.cfg.threads { self.objs.borrow()[i].actor } else { 0 }, Op::Drop, vec![*i])
                }).collect();
            }
            for s in steps {
                self.step(&s);
            }
        }
        self.threads.end_all();
        if self.cfg.threads {
            let mut s = self.stats.borrow_mut();
            *s.probes.entry("thread started").or_insert(0) += self.threads.started.get();
            *s.probes.entry("hand-over of control between threads").or_insert(0) += self.threads.handoffs.get();
        }
        if !self.m.borrow().iters.is_empty() {
            harness("iterators left in the model");
        }
    }
}

/// Debug output with the addresses and spaces taken out.
pub fn strip_debug(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '@' {
            while let Some(d) = it.peek() {
                if d.is_ascii_hexdigit() || *d == 'x' {
                    it.next();
                } else {
                    break;
                }
            }
        } else if !c.is_whitespace() {
            out.push(c);
        }
    }
    out
}
