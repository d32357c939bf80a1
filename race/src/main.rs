//! Threads that really overlap: cursors moved between, and read by, threads that run
//! at the same time. This runs in Miri, whose seeded scheduler decides each preemption
//! and which reports data races, dangling accesses and leaks. A scenario (what the
//! threads do) comes from one seed, the schedule from another; see /verif/DESIGN.md.
//!
//! race FROM TO [THREADS ROUNDS OBJECTS]

use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};
use std::sync::mpsc::*;
use trees::walk::{ForestWalk, TreeWalk, Visit};
use trees::*;

#[derive(Clone)]
struct Rng(u64);
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

fn viol(msg: &str) -> ! {
    println!("VIOL thread step 0: {msg}");
    std::process::exit(77)
}

// ---- items; their ledger must not order the threads, so all of it is relaxed ----

const MAX: usize = 1 << 14;
static NEXT: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU8 = AtomicU8::new(0);
static DROPS: [AtomicU8; MAX] = [ZERO; MAX];

struct It {
    id: u32,
    val: Box<u32>,
}
impl It {
    fn new() -> It {
        let id = NEXT.fetch_add(1, Relaxed);
        It { id, val: Box::new(id ^ 0x5a5a) }
    }
    fn read(&self) -> u32 {
        if *self.val != self.id ^ 0x5a5a {
            viol(&format!("item {} is damaged", self.id));
        }
        self.id
    }
}
impl Drop for It {
    fn drop(&mut self) {
        self.read();
        if DROPS[self.id as usize].fetch_add(1, Relaxed) != 0 {
            viol(&format!("item {} was dropped twice", self.id));
        }
    }
}
impl Clone for It {
    fn clone(&self) -> It {
        self.read();
        It::new()
    }
}
impl PartialEq for It {
    fn eq(&self, other: &It) -> bool {
        self.read() == other.read()
    }
}
impl Eq for It {}
impl PartialOrd for It {
    fn partial_cmp(&self, other: &It) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for It {
    fn cmp(&self, other: &It) -> Ordering {
        self.read().cmp(&other.read())
    }
}
impl Hash for It {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.read())
    }
}
impl fmt::Debug for It {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.read())
    }
}
impl fmt::Display for It {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.read())
    }
}

// ---- the model ----

#[derive(Clone, Debug, PartialEq)]
struct M {
    id: u32,
    kids: Vec<M>,
}
impl M {
    fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    fn events(&self, out: &mut Vec<(u8, u32)>) {
        if self.kids.is_empty() {
            out.push((2, self.id));
        } else {
            out.push((0, self.id));
            for k in &self.kids {
                k.events(out);
            }
            out.push((1, self.id));
        }
    }
}
fn look(n: &Node<It>) -> M {
    let m = M { id: n.data().read(), kids: n.iter().map(look).collect() };
    if n.degree() != m.kids.len() || n.node_count() != m.count() {
        viol(&format!("the counts of item {} are wrong", m.id));
    }
    m
}

/// One of the other views of a node.
fn view(n: &Node<It>, r: &mut Rng) {
    let ok = match r.below(7) {
        0 => n.iter().all(|c| c.parent().map(|p| p.data().read()) == Some(n.data().read())),
        1 => {
            let ends = (n.front().map(|c| c.data().read()), n.back().map(|c| c.data().read()));
            ends == (n.iter().next().map(|c| c.data().read()), n.iter().last().map(|c| c.data().read()))
                && n.has_no_child() == ends.0.is_none()
        }
        2 => n.bfs().iter.map(|v| v.data.read()).count() == n.node_count(),
        3 => n == n && n.cmp(n) == Ordering::Equal && n.partial_cmp(n) == Some(Ordering::Equal),
        4 => {
            let mut h = [std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new()];
            n.hash(&mut h[0]);
            n.hash(&mut h[1]);
            h[0].finish() == h[1].finish()
        }
        5 => {
            let f = n.deep_clone_forest();
            f.node_count() + 1 == n.node_count() && f.degree() == n.degree()
        }
        _ => !format!("{n:?}").is_empty(),
    };
    if !ok {
        viol("the views of a shared node do not agree");
    }
}

enum Own {
    T(Tree<It>, M),
    F(Forest<It>, Vec<M>),
}
struct Cur {
    w: W,
    m: Vec<M>,
    forest: bool,
    ev: Vec<(u8, u32)>,
    pos: usize,
}
enum W {
    T(TreeWalk<It>),
    F(ForestWalk<It>),
}
impl W {
    fn next(&mut self) -> Option<Visit<'_, It>> {
        match self {
            W::T(w) => w.next(),
            W::F(w) => w.next(),
        }
    }
    fn get(&self) -> Option<Visit<'_, It>> {
        match self {
            W::T(w) => w.get(),
            W::F(w) => w.get(),
        }
    }
    fn parent(&self) -> Option<u32> {
        match self {
            W::T(w) => w.get_parent().map(|n| n.data().read()),
            W::F(w) => w.get_parent().map(|n| n.data().read()),
        }
    }
    fn revisit(&mut self) {
        match self {
            W::T(w) => w.revisit(),
            W::F(w) => w.revisit(),
        }
    }
}
fn seen(v: Option<Visit<It>>) -> Option<(u8, u32)> {
    v.map(|v| match v {
        Visit::Begin(n) => (0, n.data().read()),
        Visit::End(n) => (1, n.data().read()),
        Visit::Leaf(n) => (2, n.data().read()),
    })
}

impl Cur {
    fn new(o: Own) -> Cur {
        let (w, m, forest) = match o {
            Own::T(t, m) => (W::T(TreeWalk::from(t)), vec![m], false),
            Own::F(f, m) => (W::F(ForestWalk::from(f)), m, true),
        };
        let mut ev = vec![];
        for k in &m {
            k.events(&mut ev);
        }
        Cur { w, m, forest, ev, pos: 0 }
    }
    fn want(&self) -> Option<(u8, u32)> {
        self.ev.get(self.pos).copied()
    }
    fn read(&self) {
        let got = seen(self.w.get());
        if got != self.want() {
            viol(&format!("get() is {got:?}, not {:?}", self.want()));
        }
    }
    fn next(&mut self) {
        self.pos = (self.pos + 1).min(self.ev.len());
        let want = self.want();
        let got = seen(self.w.next());
        if got != want {
            viol(&format!("next() is {got:?}, not {want:?}"));
        }
    }
    /// What a thread that shares the cursor may do.
    fn shared(&self, r: &mut Rng) {
        for _ in 0..1 + r.below(3) {
            match r.below(9) {
                0 => self.read(),
                1 => drop(self.w.parent()),
                5..=8 => {
                    if let Some(v) = self.w.get() {
                        let n = v.node();
                        view(n, r);
                        if let Some(p) = n.parent() {
                            view(p, r);
                        }
                    }
                }
                2 => {
                    if let Some(v) = self.w.get() {
                        look(v.node());
                    }
                }
                3 => {
                    if let Some(v) = self.w.get() {
                        let n = v.node();
                        let c = n.deep_clone();
                        if c.node_count() != n.node_count() {
                            viol("a copy has another size");
                        }
                    }
                }
                _ => {
                    if let Some(v) = self.w.get() {
                        let s = v.node().to_string();
                        if s.is_empty() {
                            viol("nothing was rendered");
                        }
                    }
                }
            }
        }
    }
    fn back(self) -> Own {
        match self.w {
            W::T(w) => {
                let t = Tree::from(w);
                let m = self.m.into_iter().next().unwrap();
                if look(t.root()) != m {
                    viol("the tree taken back is another one");
                }
                Own::T(t, m)
            }
            W::F(w) => {
                let f = Forest::from(w);
                if f.iter().map(look).collect::<Vec<_>>() != self.m {
                    viol("the forest taken back is another one");
                }
                debug_assert!(self.forest);
                Own::F(f, self.m)
            }
        }
    }
}

// ---- building ----

fn scattered(r: &mut Rng, depth: usize) -> Tree<It> {
    let mut t = Tree::new(It::new());
    if depth > 0 {
        for _ in 0..r.below(4) {
            t.push_back(scattered(r, depth - 1));
        }
    }
    t
}
fn build(r: &mut Rng) -> Own {
    let x = It::new;
    match r.below(6) {
        0 => {
            let t = scattered(r, 2);
            let m = look(t.root());
            Own::T(t, m)
        }
        1 => {
            let mut f = Forest::new();
            for _ in 0..r.below(3) {
                f.push_back(scattered(r, 1));
            }
            let m = f.iter().map(look).collect();
            Own::F(f, m)
        }
        2 => {
            let t = Tree::<It>::from_tuple((x(), x(), (x(), x(), x()), x()));
            let m = look(t.root());
            Own::T(t, m)
        }
        3 => {
            let f = Forest::<It>::from_tuple((x(), (x(), x(), x()), (x(), x())));
            let m = f.iter().map(look).collect();
            Own::F(f, m)
        }
        4 => {
            let t = scattered(r, 2).deep_clone();
            let m = look(t.root());
            Own::T(t, m)
        }
        _ => {
            let a = Tree::<It>::from_tuple((x(), x(), x()));
            let t = Tree::new(x()) / a / Tree::<It>::from_tuple((x(), (x(), x()))) / scattered(r, 1);
            let m = look(t.root());
            Own::T(t, m)
        }
    }
}

/// Takes part of a structure off, so that both may share storage.
fn split(r: &mut Rng, o: &mut Own) -> Option<Own> {
    let (t, m) = match o {
        Own::T(t, m) => {
            let n = m.kids.len();
            if n == 0 {
                return None;
            }
            match r.below(3) {
                0 => (t.pop_front()?, m.kids.remove(0)),
                1 => (t.pop_back()?, m.kids.pop()?),
                _ => {
                    let i = r.below(n);
                    (t.iter_mut().nth(i)?.detach(), m.kids.remove(i))
                }
            }
        }
        Own::F(f, m) => {
            let n = m.len();
            if n == 0 {
                return None;
            }
            match r.below(3) {
                0 => (f.pop_front()?, m.remove(0)),
                1 => (f.pop_back()?, m.pop()?),
                _ => {
                    let i = r.below(n);
                    (f.iter_mut().nth(i)?.detach(), m.remove(i))
                }
            }
        }
    };
    Some(Own::T(t, m))
}
fn join(r: &mut Rng, o: &mut Own, c: Own) {
    let front = r.pct(50);
    match (o, c) {
        (Own::T(t, m), Own::T(c, k)) => {
            if front {
                t.push_front(c);
                m.kids.insert(0, k)
            } else {
                t.push_back(c);
                m.kids.push(k)
            }
        }
        (Own::F(t, m), Own::T(c, k)) => {
            if front {
                t.push_front(c);
                m.insert(0, k)
            } else {
                t.push_back(c);
                m.push(k)
            }
        }
        (Own::T(t, m), Own::F(c, k)) => {
            t.append(c);
            m.kids.extend(k)
        }
        (Own::F(t, m), Own::F(c, k)) => {
            t.append(c);
            m.extend(k)
        }
    }
}

// ---- shared handles, which stay on their thread while other nodes of the same storage may not ----

struct Shr {
    root: RcNode<It>,
    m: M,
    hs: Vec<(RcNode<It>, u32)>,
    ws: Vec<(WeakNode<It>, u32)>,
}
fn held(h: RcNode<It>) -> (RcNode<It>, u32) {
    let id = h.data().read();
    (h, id)
}
impl Shr {
    fn new(t: Tree<It>, m: M) -> Shr {
        Shr { root: RcNode::from(t), m, hs: vec![], ws: vec![] }
    }
    fn step(&mut self, r: &mut Rng) {
        match r.below(12) {
            0 => {
                let h = self.root.clone();
                self.hs.push(held(h));
            }
            1 => {
                let i = r.below(self.m.kids.len());
                let h = match r.below(3) {
                    0 => self.root.front(),
                    1 => self.root.back(),
                    _ => self.root.iter_rc().nth(i),
                };
                if h.is_none() != self.m.kids.is_empty() {
                    viol("a child of a shared node is missing");
                }
                self.hs.extend(h.map(held));
            }
            2 | 3 => {
                if !self.hs.is_empty() {
                    let i = r.below(self.hs.len());
                    self.hs.swap_remove(i);
                }
            }
            4 | 5 => {
                let i = r.below(self.hs.len() + 1);
                let (h, id) = self.hs.get(i).map_or((&self.root, self.m.id), |h| (&h.0, h.1));
                self.ws.push((h.downgrade(), id));
            }
            6 | 7 => {
                for (w, id) in &self.ws {
                    // Nodes with handles stay on this thread, and so does what happens to them.
                    let alive = DROPS[*id as usize].load(Relaxed) == 0;
                    match w.upgrade() {
                        Some(h) if !alive || h.data().read() != *id => viol("a weak handle upgrades to another node"),
                        None if alive => viol("a weak handle does not upgrade although its node lives"),
                        Some(h) if r.pct(20) => self.hs.push(held(h)),
                        _ => (),
                    }
                }
            }
            8 => {
                if !self.ws.is_empty() {
                    let i = r.below(self.ws.len());
                    self.ws.swap_remove(i);
                }
            }
            9 => {
                if !self.m.kids.is_empty() {
                    let (h, m) = if r.pct(50) {
                        (self.root.pop_front(), self.m.kids.remove(0))
                    } else {
                        (self.root.pop_back(), self.m.kids.pop().unwrap())
                    };
                    let Some(h) = h else { viol("a child of a shared node is missing") };
                    if look(&*unsafe { h.node() }) != m {
                        viol("what was popped is another node");
                    }
                    if r.pct(50) {
                        self.hs.push(held(h));
                    }
                }
            }
            10 => {
                for (h, id) in &self.hs {
                    if h.data().read() != *id {
                        viol("a handle is one of another node");
                    }
                }
                if look(&*unsafe { self.root.node() }) != self.m {
                    viol("a shared tree is another one");
                }
            }
            _ => {
                let t = scattered(r, 1);
                self.m.kids.push(look(t.root()));
                self.root.push_back(t);
            }
        }
    }
    fn back(self) -> Own {
        drop((self.hs, self.ws));
        Own::T(unsafe { self.root.into_tree() }, self.m)
    }
}

// ---- the threads ----

struct Silent;

fn client(me: usize, mut r: Rng, rounds: usize, storm: bool, mut curs: Vec<Cur>, inbox: Receiver<Cur>, out: Vec<Sender<Cur>>) {
    let mut owns: Vec<Own> = vec![];
    let mut shared: Vec<Shr> = vec![];
    for _ in 0..rounds {
        // In a storm, threads take apart what they hold of the same storage.
        let op = if storm { [7, 9, 9, 11, 12, 13, 14, 14, 15, 15][r.below(10)] } else { r.below(16) };
        match op {
            0 | 1 | 2 => {
                if !curs.is_empty() {
                    let i = r.below(curs.len());
                    for _ in 0..1 + r.below(5) {
                        curs[i].next();
                    }
                    curs[i].read();
                    if curs[i].want().is_none() {
                        curs[i].w.revisit();
                        curs[i].pos = 0;
                        curs[i].read();
                    }
                }
            }
            3 => {
                if !curs.is_empty() {
                    let i = r.below(curs.len());
                    let to = r.below(out.len());
                    if to != me {
                        if let Err(SendError(c)) = out[to].send(curs.swap_remove(i)) {
                            curs.push(c); // that client is gone
                        }
                    }
                }
            }
            4 | 5 => {
                while let Ok(c) = inbox.try_recv() {
                    c.read();
                    curs.push(c);
                }
            }
            6 => {
                if !curs.is_empty() {
                    let c = &curs[r.below(curs.len())];
                    let (mut a, mut b) = (Rng(r.next()), Rng(r.next()));
                    std::thread::scope(|s| {
                        s.spawn(move || c.shared(&mut a));
                        c.shared(&mut b);
                    });
                }
            }
            7 | 8 => {
                if !curs.is_empty() {
                    let i = r.below(curs.len());
                    owns.push(curs.swap_remove(i).back());
                }
            }
            9 => {
                if !owns.is_empty() {
                    let i = r.below(owns.len());
                    if let Some(p) = split(&mut r, &mut owns[i]) {
                        if r.pct(50) {
                            owns.push(p);
                        }
                    }
                    if owns.len() > 1 && r.pct(40) {
                        let c = owns.swap_remove(0);
                        let i = r.below(owns.len());
                        join(&mut r, &mut owns[i], c);
                    }
                }
            }
            10 => {
                if !owns.is_empty() {
                    let i = r.below(owns.len());
                    curs.push(Cur::new(owns.swap_remove(i)));
                }
            }
            11 => {
                if owns.is_empty() && !curs.is_empty() {
                    owns.push(curs.remove(0).back());
                }
                if !owns.is_empty() {
                    let i = r.below(owns.len());
                    match owns.swap_remove(i) {
                        Own::T(t, m) => shared.push(Shr::new(t, m)),
                        o => owns.push(o),
                    }
                }
            }
            12 | 13 | 14 => {
                if !shared.is_empty() {
                    let i = r.below(shared.len());
                    for _ in 0..1 + r.below(5) {
                        shared[i].step(&mut r);
                    }
                    match r.below(8) {
                        0 => drop(shared.swap_remove(i)),
                        1 => owns.push(shared.swap_remove(i).back()),
                        _ => (),
                    }
                }
            }
            _ => {
                if r.pct(50) && !curs.is_empty() {
                    let i = r.below(curs.len());
                    drop(curs.swap_remove(i));
                } else if !owns.is_empty() {
                    let i = r.below(owns.len());
                    drop(owns.swap_remove(i));
                }
            }
        }
    }
    if r.pct(20) {
        std::panic::panic_any(Silent); // a crash: everything is dropped as the thread unwinds
    }
}

fn scenario(seed: u64, max_threads: usize, max_rounds: usize, max_objects: usize) {
    let mut r = Rng(mix(seed));
    let n = (2 + r.below(2)).min(max_threads);
    let storm = r.pct(40);
    let rounds = (3 + r.below(if storm { 16 } else { 8 })).min(max_rounds);
    let from = NEXT.load(Relaxed);
    let mut all = vec![];
    if storm {
        let mut t = Tree::new(It::new());
        for _ in 0..3 + r.below(6) {
            t.push_back(scattered(&mut r, 1));
        }
        let t = t.deep_clone();
        let m = look(t.root());
        all.push(Own::T(t, m));
    }
    for _ in storm as usize..1 + r.below(3) {
        all.push(build(&mut r));
    }
    for _ in 0..r.below(if storm { 9 } else { 6 }) {
        let i = if storm { 0 } else { r.below(all.len()) };
        if let Some(p) = split(&mut r, &mut all[i]) {
            all.push(p);
        }
    }
    all.truncate(max_objects);
    let mut given: Vec<Vec<Cur>> = (0..n).map(|_| vec![]).collect();
    for o in all {
        let mut c = Cur::new(o);
        for _ in 0..r.below(4) {
            c.next();
        }
        given[r.below(n)].push(c);
    }
    let (tx, rx): (Vec<_>, Vec<_>) = (0..n).map(|_| channel()).unzip();
    let mut hs = vec![];
    for (i, (cs, inbox)) in given.into_iter().zip(rx).enumerate() {
        let (r, tx) = (Rng(r.next()), tx.clone());
        hs.push(std::thread::spawn(move || client(i, r, rounds, storm, cs, inbox, tx)));
    }
    drop(tx);
    for h in hs {
        if let Err(p) = h.join() {
            if !p.is::<Silent>() {
                viol("a client panicked");
            }
        }
    }
    for i in from..NEXT.load(Relaxed) {
        let d = DROPS[i as usize].load(Relaxed);
        if d != 1 {
            viol(&format!("item {i} was dropped {d} times"));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Silent>() {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string());
            let m = m.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            println!("PANIC {m} at {:?}", i.location());
        }
    }));
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("a number")).collect();
    let g = |i: usize, d: usize| a.get(i).map_or(d, |x| *x as usize);
    let mut seed = a[0];
    while seed < a[1] {
        println!("S {seed}");
        scenario(seed, g(2, 9), g(3, 99), g(4, 99));
        seed += 1;
    }
    println!("DONE {}", NEXT.load(Relaxed));
}
