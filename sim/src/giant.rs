//! Broad and deep structures, beyond what counters of one or two bytes hold: a short simulation of its own,
//! one step of a run. Items count themselves; storage is told by the heap.

use crate::heap;
use crate::item::{ext, viol};
use crate::rng::Rng;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use trees::walk::Visit;
use trees::{Forest, Node, RcNode, Size, Tree, TreeWalk};

thread_local!(static ALIVE: Cell<i64> = const { Cell::new(0) });

#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Num(u32);
fn num(v: u32) -> Num {
    ALIVE.with(|c| c.set(c.get() + 1));
    Num(v)
}
impl Clone for Num {
    fn clone(&self) -> Num {
        num(self.0)
    }
}
impl Drop for Num {
    fn drop(&mut self) {
        ALIVE.with(|c| c.set(c.get() - 1));
    }
}
impl std::fmt::Display for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

struct Nd {
    v: u32,
    par: u32,
    kids: Vec<u32>,
}
const NONE: u32 = u32::MAX;

struct G {
    r: Rng,
    n: Vec<Nd>,
    root: u32,
    sum: u64,
}

fn bad(what: &str, msg: String) -> ! {
    viol(what, &format!("large structure: {msg}"))
}
fn is<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) {
    if got != want {
        bad("structure", format!("{what} is {got:?}, not {want:?}"));
    }
}
fn hash(t: &Tree<Num>) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl G {
    fn node(&mut self, par: u32) -> u32 {
        let v = self.r.below(10) as u32;
        let k = self.n.len() as u32;
        self.n.push(Nd { v, par, kids: vec![] });
        if par != NONE {
            self.n[par as usize].kids.push(k);
        }
        k
    }
    fn nd(&self, k: u32) -> &Nd {
        &self.n[k as usize]
    }
    fn pre(&self, root: u32) -> Vec<u32> {
        let (mut out, mut stack) = (vec![], vec![root]);
        while let Some(k) = stack.pop() {
            out.push(k);
            stack.extend(self.nd(k).kids.iter().rev());
        }
        out
    }
    fn level(&self, roots: &[u32]) -> Vec<u32> {
        let mut out = roots.to_vec();
        let mut i = 0;
        while i < out.len() {
            out.extend(&self.n[out[i] as usize].kids);
            i += 1;
        }
        out
    }
    /// Nodes below each.
    fn below(&self, roots: &[u32]) -> Vec<usize> {
        let mut c = vec![0; self.n.len()];
        let order = self.level(roots);
        for k in order.iter().rev() {
            let s = self.nd(*k).kids.iter().map(|x| c[*x as usize] + 1).sum();
            c[*k as usize] = s;
        }
        c
    }
    fn text(&self, root: u32) -> String {
        let mut out = String::new();
        let mut stack = vec![(root, 0)];
        while let Some((k, i)) = stack.pop() {
            let kids = &self.nd(k).kids;
            if i == 0 {
                write!(out, "{}", self.nd(k).v).unwrap();
                if kids.is_empty() {
                    continue;
                }
                out.push_str("( ");
            } else {
                out.push(' ');
            }
            match kids.get(i) {
                Some(x) => stack.extend([(k, i + 1), (*x, 0)]),
                None => out.push(')'),
            }
        }
        out
    }
    fn shape(&mut self, n: usize) -> u32 {
        let root = self.node(NONE);
        match self.r.below(if n < 1000 { 5 } else { 4 }) {
            0 => {
                for _ in 1..n {
                    self.node(root);
                }
            }
            1 => {
                for _ in 0..n / 2 {
                    let b = self.node(root);
                    self.node(b);
                }
            }
            2 => {
                self.node(root);
                let mut at = self.node(root);
                for _ in 0..self.r.below(4) {
                    at = self.node(at);
                }
                for _ in 1..n {
                    self.node(at);
                }
                self.node(root);
            }
            3 => {
                let a = self.node(root);
                let b = self.node(root);
                for i in 1..n {
                    self.node([a, b][i % 2]);
                }
            }
            _ => {
                let mut at = root;
                for _ in 0..n {
                    if self.r.pct(30) {
                        self.node(at);
                    }
                    at = self.node(at);
                    if self.r.pct(30) {
                        let p = self.nd(at).par;
                        self.node(p);
                    }
                }
            }
        }
        root
    }
    /// The tree of the model's nodes, made one by one or at once.
    fn real(&mut self, root: u32) -> Tree<Num> {
        let below = self.below(&[root]);
        // Joining trees may take as long as counting their nodes.
        let steep = below.iter().sum::<usize>() > 20_000_000;
        if self.r.pct(50) || steep {
            let order = self.level(&[root]);
            let visits: Vec<_> = order
                .iter()
                .map(|k| trees::bfs::Visit {
                    data: num(self.nd(*k).v),
                    size: Size { degree: self.nd(*k).kids.len(), descendants: below[*k as usize] },
                })
                .collect();
            let size = Size { degree: 1, descendants: below[root as usize] + 1 };
            return Tree::from(trees::bfs::BfsTree { iter: visits.into_iter(), size });
        }
        // From the last level up, so that no path is longer than it must be.
        let order = self.level(&[root]);
        let mut made: Vec<Option<Tree<Num>>> = (0..self.n.len()).map(|_| None).collect();
        let front = self.r.pct(30);
        for k in order.iter().rev() {
            let mut t = Tree::new(num(self.nd(*k).v));
            if front {
                for x in self.nd(*k).kids.iter().rev() {
                    t.push_front(made[*x as usize].take().unwrap());
                }
            } else {
                for x in &self.nd(*k).kids {
                    t.push_back(made[*x as usize].take().unwrap());
                }
            }
            made[*k as usize] = Some(t);
        }
        made[root as usize].take().unwrap()
    }
    fn agree(&self, t: &Node<Num>, root: u32) {
        let below = self.below(&[root]);
        let mut stack: Vec<(&Node<Num>, u32)> = vec![(t, root)];
        // Counting may take as long as there are nodes: of the large counts only some are asked for.
        let mut counted = 0;
        while let Some((x, k)) = stack.pop() {
            let kids = &self.nd(k).kids;
            is("an item", x.data().0, self.nd(k).v);
            is("degree()", x.degree(), kids.len());
            if below[k as usize] < 16 || counted < 1_000_000 || k % 4099 == 0 {
                counted += below[k as usize];
                is("node_count()", x.node_count(), below[k as usize] + 1);
            }
            is("has_no_child()", x.has_no_child(), kids.is_empty());
            is("iter().len()", x.iter().len(), kids.len());
            is("front()", x.front().map(|x| x.data().0), kids.first().map(|k| self.nd(*k).v));
            is("back()", x.back().map(|x| x.data().0), kids.last().map(|k| self.nd(*k).v));
            let mut i = 0;
            for c in x.iter() {
                if i >= kids.len() {
                    bad("structure", "there are too many children".into());
                }
                if !c.parent().is_some_and(|p| std::ptr::eq(p, x)) {
                    bad("structure", format!("child {i} has another parent"));
                }
                stack.push((c, kids[i]));
                i += 1;
            }
            is("number of children", i, kids.len());
        }
    }
    fn alive(&self, want: usize) {
        let k = ALIVE.with(|c| c.get());
        if k != want as i64 {
            bad("ledger", format!("{k} items are alive, not {want}"));
        }
    }
    fn count(&self, k: u32) -> usize {
        self.pre(k).len()
    }
    fn place(&mut self, len: usize) -> usize {
        match self.r.below(5) {
            0 => 0,
            1 => len - 1,
            2 => len.saturating_sub(2),
            3 => 256.min(len - 1),
            _ => self.r.u(len),
        }
    }
    /// The way to the broadest node, and that node.
    fn broadest(&self) -> (Vec<usize>, u32) {
        let b = *self.pre(self.root).iter().max_by_key(|k| self.nd(**k).kids.len()).unwrap();
        let (mut path, mut x) = (vec![], b);
        while x != self.root {
            let p = self.nd(x).par;
            path.push(self.nd(p).kids.iter().position(|k| *k == x).unwrap());
            x = p;
        }
        path.reverse();
        (path, b)
    }
    fn cut(&mut self, k: u32) {
        let p = std::mem::replace(&mut self.n[k as usize].par, NONE);
        self.n[p as usize].kids.retain(|x| *x != k);
    }
    fn step(&mut self, mut t: Tree<Num>) -> Option<Tree<Num>> {
        let total = self.count(self.root);
        let (path, broad) = self.broadest();
        let kids = self.nd(broad).kids.clone();
        let op = self.r.below(16);
        self.sum = self.sum.wrapping_mul(31).wrapping_add(op * 1_000_003 + total as u64 * 7 + kids.len() as u64);
        macro_rules! broad {
            () => {{
                let mut x = t.root_mut();
                for k in &path {
                    x = unsafe { x.get_unchecked_mut() }.iter_mut().nth(*k).unwrap();
                }
                unsafe { x.get_unchecked_mut() }
            }};
        }
        match op {
            0 => is("to_string()", t.to_string() == self.text(self.root), true),
            1 | 2 => {
                let below = self.below(&[self.root]);
                let order = self.level(&[self.root]);
                let (mut i, how) = (0, self.r.below(3));
                let mut check = |v: u32, s: Size| {
                    let k = *order.get(i).unwrap_or_else(|| bad("bfs", "there are too many nodes".into()));
                    let want = (self.nd(k).v, self.nd(k).kids.len(), below[k as usize]);
                    if (v, s.degree, s.descendants) != want {
                        bad("bfs", format!("node {i} is {:?}, not {want:?}", (v, s.degree, s.descendants)));
                    }
                    i += 1;
                };
                let mut out = None;
                match how {
                    0 => {
                        t.bfs().iter.for_each(|v| check(v.data.0, v.size));
                        out = Some(t);
                    }
                    1 => {
                        t.bfs_mut().iter.for_each(|v| check(v.data.0, v.size));
                        out = Some(t);
                    }
                    _ => t.into_bfs().iter.for_each(|v| check(v.data.0, v.size)),
                }
                if i != order.len() {
                    bad("bfs", format!("{i} nodes, not {}", order.len()));
                }
                if out.is_none() {
                    self.alive(0);
                }
                return out;
            }
            3 => t = Tree::from(t.into_bfs()),
            4 => t = Tree::from(t.bfs().map(|x| x.clone())),
            5 | 6 => {
                let mut c = if self.r.pct(50) { t.clone() } else { t.deep_clone() };
                self.alive(2 * total);
                if c != t || c.cmp(&t) != Ordering::Equal || hash(&c) != hash(&t) {
                    bad("compare", "a copy is not equal".into());
                }
                // The last leaf decides.
                let mut x = c.root_mut();
                while !x.has_no_child() {
                    x = unsafe { x.get_unchecked_mut() }.back_mut().unwrap();
                }
                let x = unsafe { x.get_unchecked_mut() };
                if self.r.pct(50) {
                    x.data_mut().0 += 1;
                } else {
                    x.push_back(Tree::new(num(0)));
                }
                if c == t || t == c || c.cmp(&t) != Ordering::Greater || t.partial_cmp(&c) != Some(Ordering::Less) {
                    bad("compare", "a difference at the end is not seen".into());
                }
                if self.r.pct(50) {
                    self.agree(&t, self.root);
                    t.push_back(Tree::new(num(0)));
                    let r = self.root;
                    let k = self.node(r);
                    self.n[k as usize].v = 0;
                }
            }
            7 | 8 => {
                let mut w = TreeWalk::from(t);
                if self.r.pct(50) || kids.len() > 2000 {
                    // To the broadest node, then here and there among its children.
                    for k in &path {
                        w.to_child(*k);
                    }
                    let i = self.place(kids.len());
                    let d = |v: Option<Visit<Num>>| v.map(|v| v.node().data().0);
                    is("to_child()", d(w.to_child(i)), Some(self.nd(kids[i]).v));
                    is("get_parent()", w.get_parent().map(|x| x.data().0), Some(self.nd(broad).v));
                    let j = self.r.u(kids.len() - i);
                    is("to_sib()", d(w.to_sib(j)), Some(self.nd(kids[i + j]).v));
                    is("to_parent()", d(w.to_parent()), Some(self.nd(broad).v));
                    is("to_child() of none", d(w.to_child(kids.len())), None);
                }
                let mut w = TreeWalk::from(Tree::from(w));
                let mut events = vec![];
                let mut guard = 2 * total + 2;
                while let Some(v) = w.get() {
                    guard -= 1;
                    if guard == 0 {
                        bad("walk", "too many steps".into());
                    }
                    let (c, x) = match v {
                        Visit::Begin(x) => (1, x),
                        Visit::End(x) => (2, x),
                        Visit::Leaf(x) => (3, x),
                    };
                    events.push((c, x.data().0));
                    w.forward();
                }
                let mut want = vec![];
                let mut stack = vec![(self.root, 0)];
                while let Some((k, i)) = stack.pop() {
                    let x = self.nd(k);
                    if x.kids.is_empty() {
                        want.push((3, x.v));
                        continue;
                    }
                    if i == 0 {
                        want.push((1, x.v));
                    }
                    match x.kids.get(i) {
                        Some(c) => stack.extend([(k, i + 1), (*c, 0)]),
                        None => want.push((2, x.v)),
                    }
                }
                if events != want {
                    bad("walk", format!("{} events, not the {} of the tree", events.len(), want.len()));
                }
                t = Tree::from(w);
            }
            9 => {
                for _ in 0..self.r.range(1, 4) {
                    let back = self.r.pct(50);
                    let x = broad!();
                    let got = if back { x.pop_back() } else { x.pop_front() };
                    let now = &self.nd(broad).kids;
                    let k = if back { now.last() } else { now.first() }.copied();
                    is("pop", got.is_some(), k.is_some());
                    if let (Some(x), Some(k)) = (got, k) {
                        self.agree(&x, k);
                        self.cut(k);
                    }
                }
            }
            10 => {
                // Beside, or out of, the middle of many.
                for _ in 0..self.r.range(1, 3) {
                    if self.nd(broad).kids.is_empty() {
                        break;
                    }
                    let len = self.nd(broad).kids.len();
                    let i = self.place(len);
                    let x = broad!().iter_mut().nth(i).unwrap();
                    let x = unsafe { x.get_unchecked_mut() };
                    let k = self.nd(broad).kids[i];
                    match self.r.below(3) {
                        0 => {
                            let got = x.detach();
                            self.agree(&got, k);
                            self.cut(k);
                        }
                        how => {
                            let new = self.node(NONE);
                            self.n[new as usize].par = broad;
                            let sib = Tree::new(num(self.nd(new).v));
                            if how == 1 {
                                x.insert_prev_sib(sib);
                                self.n[broad as usize].kids.insert(i, new);
                            } else {
                                x.insert_next_sib(sib);
                                self.n[broad as usize].kids.insert(i + 1, new);
                            }
                        }
                    }
                }
            }
            11 => {
                // Off with the children, and onto another.
                let f = t.abandon();
                is("degree() of what is abandoned", t.degree(), 0);
                is("node_count() of what is abandoned", t.node_count(), 1);
                is("forest.node_count()", f.node_count(), total - 1);
                let all = std::mem::take(&mut self.n[self.root as usize].kids);
                is("forest.degree()", f.degree(), all.len());
                let r = self.root;
                let a = self.node(r);
                let mut new = Tree::new(num(self.nd(a).v));
                let (pre, deep) = (self.r.pct(50), self.r.pct(50));
                if deep {
                    let b = self.node(a);
                    new.push_back(Tree::new(num(self.nd(b).v)));
                }
                if pre {
                    new.prepend(f);
                } else {
                    new.append(f);
                }
                let own = std::mem::take(&mut self.n[a as usize].kids);
                let both = if pre { [all, own].concat() } else { [own, all].concat() };
                for k in &both {
                    self.n[*k as usize].par = a;
                }
                self.n[a as usize].kids = both;
                t.push_back(new);
            }
            12 => {
                // Handles to many, which outlive what they were children of.
                let h = RcNode::from(t);
                let at = path.iter().fold(h.clone(), |x, k| x.iter_rc().nth(*k).unwrap());
                let mut held = vec![];
                let mut i = 0;
                let mut it = at.iter_rc();
                loop {
                    if i <= kids.len() {
                        is("iter_rc().size_hint()", it.size_hint().0, kids.len() - i);
                    }
                    let Some(x) = it.next() else { break };
                    let k = *kids.get(i).unwrap_or_else(|| bad("iteration", "there are too many children".into()));
                    is("a shared item", x.data().0, self.nd(k).v);
                    if i % 3 != 1 {
                        held.push((x, k));
                    }
                    i += 1;
                }
                is("number of shared children", i, kids.len());
                let weak: Vec<_> = h.iter_rc().map(|x| x.downgrade()).collect();
                is("shared degree()", at.degree(), kids.len());
                is("shared node_count()", h.node_count(), total);
                if self.r.pct(50) {
                    let f = std::mem::take(&mut held);
                    let j = self.r.u(f.len().max(1));
                    for (i, (x, k)) in f.into_iter().enumerate() {
                        if i >= j && i < j + 3 {
                            x.detach();
                            self.cut(k);
                        }
                        if i % 5 == 0 || (i >= j && i < j + 3) {
                            held.push((x, k));
                        }
                    }
                }
                self.agree(&h.deep_clone(), self.root);
                is("shared to_string()", h.to_string() == self.text(self.root), true);
                drop((it, at, h));
                let left = held.iter().map(|(_, k)| self.count(*k)).sum();
                self.alive(left);
                for (x, k) in &held {
                    if !x.is_root() || x.node_count() != self.count(*k) || x.data().0 != self.nd(*k).v {
                        bad("structure", "what was held is not the root of its own tree".into());
                    }
                }
                let up = weak.iter().filter(|x| x.upgrade().is_some()).count();
                let tops = &self.nd(self.root).kids;
                let held_tops = if broad == self.root { held.iter().filter(|(_, k)| tops.contains(k)).count() } else { 0 };
                // Those that were cut off are held, but no longer children.
                let cut = if broad == self.root { held.len() - held_tops } else { 0 };
                is("number of good weak handles", up, held_tops + cut);
                drop(held);
                self.alive(0);
                is("number of good weak handles at the end", weak.iter().filter(|x| x.upgrade().is_some()).count(), 0);
                return None;
            }
            13 => {
                // Consumed in part.
                let f = if self.r.pct(50) {
                    t.abandon()
                } else {
                    let mut f = Forest::new();
                    while let Some(x) = t.pop_front() {
                        f.push_back(x);
                    }
                    f
                };
                drop(t);
                self.alive(total - 1);
                let all = self.nd(self.root).kids.clone();
                is("forest.iter().len()", f.iter().len(), all.len());
                let mut it = f.into_iter();
                let stop = if self.r.pct(30) { all.len() } else { self.place(all.len() + 1) };
                for (i, k) in all.iter().take(stop).enumerate() {
                    is("into_iter().len()", it.len(), all.len() - i);
                    match it.next() {
                        Some(x) => {
                            is("a tree of the forest", x.data().0, self.nd(*k).v);
                            is("its degree", x.degree(), self.nd(*k).kids.len());
                        }
                        None => bad("iteration", format!("no tree {i} of {}", all.len())),
                    }
                }
                drop(it);
                self.alive(0);
                return None;
            }
            14 => {
                // All at once, by mutable references.
                let mut i = 0;
                let vs: Vec<u32> = kids.iter().map(|_| self.r.below(10) as u32).collect();
                for x in broad!().iter_mut() {
                    if i >= kids.len() {
                        bad("iteration", "there are too many children".into());
                    }
                    unsafe { x.get_unchecked_mut() }.data_mut().0 = vs[i];
                    i += 1;
                }
                is("number of children changed", i, kids.len());
                for (k, v) in kids.iter().zip(vs) {
                    self.n[*k as usize].v = v;
                }
            }
            _ => {
                let h = RcNode::from(t);
                let at = path.iter().fold(h.clone(), |x, k| x.iter_rc().nth(*k).unwrap());
                let m = self.r.range(1, 300);
                let new: Vec<Tree<Num>> = (0..m)
                    .map(|_| {
                        let k = self.node(broad);
                        Tree::new(num(self.nd(k).v))
                    })
                    .collect();
                let mut y = at.clone();
                y.extend(new);
                is("shared degree()", at.degree(), kids.len() + m);
                drop((at, y));
                t = h.deep_clone();
                let n = self.count(self.root);
                self.alive(2 * n);
                drop(h);
                self.alive(n);
            }
        }
        Some(t)
    }
}

pub fn run(seed: u64) -> u64 {
    let mut g = G { r: Rng::new(seed), n: vec![], root: 0, sum: 0 };
    let huge = g.r.pct(25);
    let n = if huge { 65_500 + g.r.u(300) } else { 240 + g.r.u(300) };
    if !huge || g.r.pct(92) {
        g.root = g.shape(n);
        return g.go(if huge { 3 } else { 6 });
    }
    // So many levels: what recurses needs more stack than there is.
    g.root = g.node(NONE);
    let mut at = g.root;
    for _ in 0..n {
        if g.r.pct(2) {
            g.node(at);
        }
        at = g.node(at);
        if g.r.pct(2) {
            let p = g.nd(at).par;
            g.node(p);
        }
    }
    let deep = move || {
        heap::set_in_lib(true);
        let sum = g.go(2);
        heap::set_in_lib(false);
        sum
    };
    ext(|| match std::thread::Builder::new().stack_size(1 << 30).spawn(deep) {
        Ok(t) => t.join().unwrap_or_else(|_| bad("panic", "a call has panicked".into())),
        Err(_) => 0,
    })
}

impl G {
    fn go(mut self, steps: usize) -> u64 {
        ALIVE.with(|c| c.set(0));
        let mut t = self.real(self.root);
        for _ in 0..steps {
            self.agree(&t, self.root);
            self.alive(self.count(self.root));
            match self.step(t) {
                Some(x) => t = x,
                None => return self.sum,
            }
        }
        self.agree(&t, self.root);
        self.alive(self.count(self.root));
        drop(t);
        self.alive(0);
        self.sum
    }
}
