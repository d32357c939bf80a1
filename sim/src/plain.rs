//! Items without a destructor, of no size, or of plain data: a small simulation of its own, one step of a run.
//! What lives is told by weak handles and by the heap, not by the ledger of items.

use crate::item::viol;
use crate::rng::Rng;
use std::fmt::Display;
use std::pin::Pin;
use trees::walk::Visit;
use trees::{Forest, Node, RcNode, Size, Tree, TreeWalk, WeakNode};

pub trait Plain: Clone + PartialEq + Display {
    fn mk(v: u32) -> Self;
    /// How many there are, if they count themselves.
    fn live() -> Option<i64> {
        None
    }
}
impl Plain for u8 {
    fn mk(v: u32) -> u8 {
        v as u8
    }
}
impl Plain for &'static str {
    fn mk(v: u32) -> &'static str {
        ["", "a", "bc", "()", " "][v as usize % 5]
    }
}
/// No size, nothing to drop.
#[derive(Clone, PartialEq)]
pub struct Nil;
impl Plain for Nil {
    fn mk(_: u32) -> Nil {
        Nil
    }
}
impl Display for Nil {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("n")
    }
}
/// No size, but something to drop.
#[derive(PartialEq)]
pub struct Coin;
thread_local!(static COINS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
impl Plain for Coin {
    fn mk(_: u32) -> Coin {
        COINS.with(|c| c.set(c.get() + 1));
        Coin
    }
    fn live() -> Option<i64> {
        Some(COINS.with(|c| c.get()))
    }
}
impl Clone for Coin {
    fn clone(&self) -> Coin {
        Coin::mk(0)
    }
}
impl Drop for Coin {
    fn drop(&mut self) {
        COINS.with(|c| c.set(c.get() - 1));
    }
}
impl Display for Coin {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("c")
    }
}
/// Much plain data.
#[derive(Clone, Copy, PartialEq)]
#[repr(align(32))]
pub struct Wide([u32; 20]);
impl Plain for Wide {
    fn mk(v: u32) -> Wide {
        Wide([v; 20])
    }
}
impl Display for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.iter().any(|x| *x != self.0[0]) {
            return f.write_str("broken");
        }
        write!(f, "{}", self.0[0])
    }
}

struct Nd {
    v: u32,
    par: Option<usize>,
    kids: Vec<usize>,
    held: usize,
    dead: bool,
}
struct W<T> {
    r: Rng,
    n: Vec<Nd>,
    trees: Vec<(Tree<T>, usize)>,
    forests: Vec<(Forest<T>, Vec<usize>)>,
    handles: Vec<(RcNode<T>, usize)>,
    weaks: Vec<(WeakNode<T>, usize)>,
}

fn at<'a, T>(t: &'a mut Tree<T>, path: &[usize]) -> Pin<&'a mut Node<T>> {
    let mut n = t.root_mut();
    for k in path {
        n = unsafe { n.get_unchecked_mut() }.iter_mut().nth(*k).unwrap();
    }
    n
}

impl<T: Plain> W<T> {
    fn new_node(&mut self) -> usize {
        let v = self.r.below(90) as u32;
        self.n.push(Nd { v, par: None, kids: vec![], held: 0, dead: false });
        self.n.len() - 1
    }
    fn text(&self, n: usize, out: &mut String) {
        out.push_str(&T::mk(self.n[n].v).to_string());
        if !self.n[n].kids.is_empty() {
            out.push_str("( ");
            for k in &self.n[n].kids {
                self.text(*k, out);
                out.push(' ');
            }
            out.push(')');
        }
    }
    fn pre(&self, n: usize, out: &mut Vec<usize>) {
        out.push(n);
        for k in &self.n[n].kids {
            self.pre(*k, out);
        }
    }
    fn count(&self, n: usize) -> usize {
        let mut v = vec![];
        self.pre(n, &mut v);
        v.len()
    }
    fn agree(&self, what: &str, root: usize, text: String, nodes: usize, deg: usize) {
        let mut want = String::new();
        self.text(root, &mut want);
        if text != want || nodes != self.count(root) || deg != self.n[root].kids.len() {
            viol("structure", &format!("plain items: {what} is {text} with {nodes} nodes, {deg} children, instead of {want}"));
        }
    }
    fn look(&mut self, all: bool) {
        if let Some(k) = T::live() {
            let want = self.n.iter().filter(|x| !x.dead).count() as i64;
            if k != want {
                viol("ledger", &format!("plain items: {k} are alive, not {want}"));
            }
        }
        for (t, n) in self.trees.iter().rev().take(if all { 99 } else { 2 }) {
            self.agree("a tree", *n, t.to_string(), t.node_count(), t.degree());
        }
        for (f, k) in self.forests.iter().rev().take(if all { 99 } else { 1 }) {
            let got = f.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            let want = k
                .iter()
                .map(|n| {
                    let mut s = String::new();
                    self.text(*n, &mut s);
                    s
                })
                .collect::<Vec<_>>();
            let nodes: usize = k.iter().map(|n| self.count(*n)).sum();
            if got != want || f.node_count() != nodes || f.degree() != k.len() {
                viol("structure", &format!("plain items: a forest is {got:?}, not {want:?}"));
            }
        }
        for (h, n) in self.handles.iter().rev().take(if all { 99 } else { 3 }) {
            self.agree("a shared tree", *n, h.to_string(), h.node_count(), h.degree());
            if h.is_root() != self.n[*n].par.is_none() {
                viol("structure", "plain items: is_root() is wrong");
            }
        }
        for (w, n) in self.weaks.iter() {
            let up = w.upgrade();
            if up.is_some() == self.n[*n].dead {
                viol("upgrade", &format!("plain items: a weak handle to a {} node upgrades wrongly", if self.n[*n].dead { "dead" } else { "living" }));
            }
            if let Some(h) = up {
                if *h.data() != T::mk(self.n[*n].v) {
                    viol("upgrade", "plain items: a weak handle upgrades to another node");
                }
            }
        }
    }
    fn some(&mut self, root: usize) -> (usize, Vec<usize>) {
        let mut v = vec![];
        self.pre(root, &mut v);
        let n = v[self.r.u(v.len())];
        let mut path = vec![];
        let mut x = n;
        while x != root {
            let p = self.n[x].par.unwrap();
            path.push(self.n[p].kids.iter().position(|k| *k == x).unwrap());
            x = p;
        }
        path.reverse();
        (n, path)
    }
    fn make(&mut self) -> (Tree<T>, usize) {
        let root = self.new_node();
        let mk = |w: &mut Self, par: usize| {
            let k = w.new_node();
            w.n[k].par = Some(par);
            w.n[par].kids.push(k);
            T::mk(w.n[k].v)
        };
        let t = match self.r.below(5) {
            0 => Tree::new(T::mk(self.n[root].v)),
            1 => {
                let mut t = Tree::new(T::mk(self.n[root].v));
                for _ in 0..self.r.below(6) {
                    let x = mk(self, root);
                    t.push_back(Tree::new(x));
                }
                t
            }
            2 => Tree::from_tuple((T::mk(self.n[root].v), mk(self, root), mk(self, root))),
            3 => {
                let (a, b) = (T::mk(self.n[root].v), mk(self, root));
                let kid = self.n[root].kids[0];
                let (c, d) = (mk(self, kid), mk(self, kid));
                let e = mk(self, root);
                Tree::from_tuple((a, (b, c, d), e))
            }
            _ => {
                if self.trees.is_empty() {
                    return (Tree::new(T::mk(self.n[root].v)), root);
                }
                self.n.pop();
                let i = self.r.u(self.trees.len());
                let t = self.trees[i].0.clone();
                let n = self.copy(self.trees[i].1);
                return (t, n);
            }
        };
        (t, root)
    }
    fn copy(&mut self, n: usize) -> usize {
        let v = self.n[n].v;
        self.n.push(Nd { v, par: None, kids: vec![], held: 0, dead: false });
        let c = self.n.len() - 1;
        for k in self.n[n].kids.clone() {
            let k = self.copy(k);
            self.n[k].par = Some(c);
            self.n[c].kids.push(k);
        }
        c
    }
    fn adopt(&mut self, par: usize, at: usize, kids: &[usize]) {
        for (i, k) in kids.iter().enumerate() {
            self.n[*k].par = Some(par);
            self.n[par].kids.insert(at + i, *k);
        }
    }
    fn unlink(&mut self, k: usize) {
        if let Some(p) = self.n[k].par.take() {
            self.n[p].kids.retain(|x| *x != k);
        }
    }
    /// A node lost an owner.
    fn release(&mut self, n: usize) {
        if self.n[n].held > 0 || self.n[n].par.is_some() || self.n[n].dead {
            return;
        }
        self.n[n].dead = true;
        for k in std::mem::take(&mut self.n[n].kids) {
            self.n[k].par = None;
            self.release(k);
        }
    }
    fn kill(&mut self, n: usize) {
        let mut v = vec![];
        self.pre(n, &mut v);
        for n in v {
            self.n[n].dead = true;
        }
    }
    fn hold(&mut self, h: RcNode<T>, n: usize) {
        self.n[n].held += 1;
        self.handles.push((h, n));
    }
    fn let_go(&mut self, i: usize) {
        let (h, n) = self.handles.swap_remove(i);
        drop(h);
        self.n[n].held -= 1;
        self.release(n);
    }
    /// An iterator of some kind, over what is left of it.
    fn iterate(&mut self, i: usize, n: usize, path: &[usize]) {
        let text = |w: &Self, n: &usize| {
            let mut s = String::new();
            w.text(*n, &mut s);
            s
        };
        let root = self.trees[i].1;
        let kids: Vec<String> = self.n[n].kids.iter().map(|k| text(self, k)).collect();
        let level = |w: &Self, top: Vec<usize>| {
            let (mut all, mut j) = (top, 0);
            while j < all.len() {
                all.extend(w.n[all[j]].kids.clone());
                j += 1;
            }
            all.iter().map(|k| T::mk(w.n[*k].v).to_string()).collect::<Vec<_>>()
        };
        let whole = level(self, vec![n]);
        let inner = level(self, self.n[n].kids.clone());
        let mut r = Rng::new(self.r.next());
        let r = &mut r;
        let how = r.below(13);
        if how < 8 {
            let x = unsafe { at(&mut self.trees[i].0, path).get_unchecked_mut() };
            match how {
                0 => protocol(r, "iter()", x.iter(), kids, true, |x| x.to_string()),
                1 => protocol(r, "iter_mut()", x.iter_mut(), kids, true, |x| x.to_string()),
                2 => {
                    let own = vec![x.to_string()];
                    if r.pct(50) {
                        protocol(r, "&node", (&*x).into_iter(), own, true, |x| x.to_string());
                    } else {
                        let x = unsafe { Pin::new_unchecked(x) };
                        protocol(r, "a pinned node", x.into_iter(), own, true, |x| x.to_string());
                    }
                }
                3 => protocol(r, "bfs()", x.bfs().iter, whole, false, |v| v.data.to_string()),
                4 => protocol(r, "bfs_mut()", x.bfs_mut().iter, whole, false, |v| v.data.to_string()),
                5 => protocol(r, "bfs_children()", x.bfs_children().iter, inner, false, |v| v.data.to_string()),
                6 => protocol(r, "bfs_children_mut()", x.bfs_children_mut().iter, inner, false, |v| v.data.to_string()),
                _ => protocol(r, "bfs().map()", x.bfs().map(|x| x.to_string()).iter, whole, false, |v| v.data.clone()),
            }
            return;
        }
        if how == 8 {
            if let Some((h, n)) = self.handles.last() {
                let kids = self.n[*n].kids.iter().map(|k| text(self, k)).collect();
                let mut kids: Vec<String> = kids;
                let mut it = h.iter_rc();
                let first = r.u(3);
                for _ in 0..first {
                    it.next();
                }
                if r.pct(40) {
                    // What is left of the clone of an iterator is what was left of it.
                    let mut twin = self.handles[r.u(self.handles.len())].0.iter_rc();
                    if r.pct(50) {
                        for _ in 0..r.u(3) {
                            twin.next();
                        }
                        twin.clone_from(&it);
                    } else {
                        twin = it.clone();
                    }
                    let left = kids.split_off(first.min(kids.len()));
                    protocol(r, "iter_rc().clone()", twin, left.clone(), false, |x| x.to_string());
                    kids = left;
                } else {
                    kids.drain(..first.min(kids.len()));
                }
                protocol(r, "iter_rc()", it, kids, false, |x| x.to_string());
            }
            return;
        }
        // Those that consume.
        let (mut t, _) = self.trees.swap_remove(i);
        let own = text(self, &root);
        let tops: Vec<String> = self.n[root].kids.iter().map(|k| text(self, k)).collect();
        let whole = level(self, vec![root]);
        let inner = level(self, self.n[root].kids.clone());
        self.kill(root);
        match how {
            9 => protocol(r, "tree.into_iter()", t.into_iter(), vec![own], true, |x| x.to_string()),
            10 => protocol(r, "forest.into_iter()", t.abandon().into_iter(), tops, true, |x| x.to_string()),
            11 => protocol(r, "tree.into_bfs()", t.into_bfs().iter, whole, false, |v| v.data.to_string()),
            _ => protocol(r, "forest.into_bfs()", t.abandon().into_bfs().iter, inner, false, |v| v.data.to_string()),
        }
    }
    /// A structure that becomes the copy of another: what it was is gone.
    fn made_equal(&mut self, i: usize) {
        match self.r.below(4) {
            0 | 1 => {
                let (mut t, n) = self.trees.swap_remove(i);
                if self.trees.is_empty() {
                    return self.trees.push((t, n));
                }
                let j = self.r.u(self.trees.len());
                let (of, m) = &self.trees[j];
                t.clone_from(of);
                if t != *of {
                    viol("value", "plain items: a tree made the clone of another differs from it");
                }
                let m = *m;
                self.kill(n);
                let c = self.copy(m);
                self.trees.push((t, c));
            }
            2 => {
                let Some((mut f, old)) = self.forests.pop() else { return };
                let (g, kids) = if self.r.pct(50) && !self.forests.is_empty() {
                    let j = self.r.u(self.forests.len());
                    self.forests.swap_remove(j)
                } else {
                    let (mut t, n) = self.make();
                    let g = t.abandon();
                    drop(t);
                    let kids = std::mem::take(&mut self.n[n].kids);
                    for k in &kids {
                        self.n[*k].par = None;
                    }
                    self.n[n].dead = true;
                    (g, kids)
                };
                f.clone_from(&g);
                for k in old {
                    self.kill(k);
                }
                if f != g {
                    viol("value", "plain items: a forest made the clone of another differs from it");
                }
                let copies = kids.iter().map(|k| self.copy(*k)).collect();
                self.forests.push((g, kids));
                self.forests.push((f, copies));
            }
            _ => {
                if self.handles.is_empty() {
                    return;
                }
                let (a, b) = (self.r.u(self.handles.len()), self.r.u(self.handles.len()));
                let (h, n) = (self.handles[b].0.clone(), self.handles[b].1);
                self.handles[a].0.clone_from(&h);
                let old = std::mem::replace(&mut self.handles[a].1, n);
                self.n[n].held += 1;
                self.n[old].held -= 1;
                self.release(old);
            }
        }
    }
    fn step(&mut self) {
        let op = self.r.below(19);
        if self.trees.is_empty() || op == 0 {
            let t = self.make();
            self.trees.push(t);
            return;
        }
        let i = self.r.u(self.trees.len());
        let root = self.trees[i].1;
        let (n, path) = self.some(root);
        match op {
            1 | 2 => {
                let (t, k) = self.make();
                let at_ = at(&mut self.trees[i].0, &path);
                let at_ = unsafe { at_.get_unchecked_mut() };
                let len = self.n[n].kids.len();
                if self.r.pct(50) {
                    at_.push_back(t);
                    self.adopt(n, len, &[k]);
                } else {
                    at_.push_front(t);
                    self.adopt(n, 0, &[k]);
                }
            }
            3 | 4 => {
                let back = self.r.pct(50);
                let x = unsafe { at(&mut self.trees[i].0, &path).get_unchecked_mut() };
                let t = if back { x.pop_back() } else { x.pop_front() };
                let k = if back { self.n[n].kids.last() } else { self.n[n].kids.first() }.copied();
                if t.is_some() != k.is_some() {
                    viol("structure", "plain items: popping is wrong");
                }
                if let (Some(t), Some(k)) = (t, k) {
                    self.unlink(k);
                    self.trees.push((t, k));
                }
            }
            5 if n != root => {
                let t = unsafe { at(&mut self.trees[i].0, &path).get_unchecked_mut() }.detach();
                self.unlink(n);
                self.trees.push((t, n));
            }
            6 if n != root => {
                let (t, k) = self.make();
                let p = self.n[n].par.unwrap();
                let j = *path.last().unwrap();
                let x = unsafe { at(&mut self.trees[i].0, &path).get_unchecked_mut() };
                if self.r.pct(50) {
                    x.insert_prev_sib(t);
                    self.adopt(p, j, &[k]);
                } else {
                    x.insert_next_sib(t);
                    self.adopt(p, j + 1, &[k]);
                }
            }
            7 => {
                let f = self.trees[i].0.abandon();
                let kids = std::mem::take(&mut self.n[root].kids);
                for k in &kids {
                    self.n[*k].par = None;
                }
                self.forests.push((f, kids));
            }
            8 => {
                if let Some((f, k)) = self.forests.pop() {
                    let x = unsafe { at(&mut self.trees[i].0, &path).get_unchecked_mut() };
                    let len = self.n[n].kids.len();
                    if self.r.pct(50) {
                        x.append(f);
                        self.adopt(n, len, &k);
                    } else {
                        x.prepend(f);
                        self.adopt(n, 0, &k);
                    }
                }
            }
            9 => {
                // A consuming iteration or traversal, cancelled somewhere.
                let (mut t, _) = self.trees.swap_remove(i);
                let stop = self.r.u(6);
                self.kill(root);
                if self.r.pct(15) {
                    // A traversal taken for one of the other kind is none.
                    let none = if self.r.pct(50) {
                        let borrowed = t.bfs().wrap().forest_iter().is_none() && t.bfs_children().wrap().tree_iter().is_none();
                        borrowed && t.into_bfs().wrap().forest_iter().is_none()
                    } else {
                        t.abandon().into_bfs().wrap().tree_iter().is_none()
                    };
                    if !none {
                        viol("bfs", "a traversal is of both kinds");
                    }
                } else if self.r.pct(50) {
                    let kids = std::mem::take(&mut self.n[root].kids);
                    let it = t.abandon().into_iter();
                    for (t, k) in it.take(stop).zip(kids) {
                        self.n[k].par = None;
                        let mut v = vec![];
                        self.pre(k, &mut v);
                        for n in v {
                            self.n[n].dead = false;
                        }
                        self.trees.push((t, k));
                    }
                } else {
                    let got: Vec<String> = t.into_bfs().iter.take(stop).map(|v| v.data.to_string()).collect();
                    let (mut level, mut j) = (vec![root], 0);
                    while j < level.len() {
                        level.extend(self.n[level[j]].kids.clone());
                        j += 1;
                    }
                    level.truncate(stop);
                    let want: Vec<String> = level.iter().map(|n| T::mk(self.n[*n].v).to_string()).collect();
                    if got != want {
                        viol("bfs", &format!("plain items: {got:?}, not {want:?}"));
                    }
                }
            }
            10 => {
                let (t, _) = self.trees.swap_remove(i);
                sums(&mut self.r, &t);
                let t = if self.r.pct(50) { Tree::from(t.into_bfs()) } else { Tree::from(t.bfs().map(|x| x.clone())) };
                self.trees.push((t, root));
            }
            11 => {
                let (t, _) = self.trees.swap_remove(i);
                let mut w = TreeWalk::from(t);
                let mut pre = vec![];
                while let Some(v) = w.get() {
                    if !matches!(v, Visit::End(_)) {
                        pre.push(v.node().data().to_string());
                    }
                    w.forward();
                }
                let mut ns = vec![];
                self.pre(root, &mut ns);
                let want: Vec<String> = ns.iter().map(|n| T::mk(self.n[*n].v).to_string()).collect();
                if pre != want {
                    viol("walk", &format!("plain items: {pre:?}, not {want:?}"));
                }
                self.trees.push((Tree::from(w), root));
            }
            12 => {
                let (t, _) = self.trees.swap_remove(i);
                self.hold(RcNode::from(t), root);
            }
            13 => {
                self.trees.swap_remove(i);
                self.kill(root);
            }
            17 => self.iterate(i, n, &path),
            18 => self.made_equal(i),
            _ => {
                if self.handles.is_empty() {
                    return;
                }
                let j = self.r.u(self.handles.len());
                let n = self.handles[j].1;
                let kids = self.n[n].kids.clone();
                match self.r.below(9) {
                    0 => {
                        let h = self.handles[j].0.clone();
                        self.hold(h, n);
                    }
                    1 | 2 => {
                        if !kids.is_empty() {
                            let c = self.r.u(kids.len());
                            let h = self.handles[j].0.iter_rc().nth(c).unwrap();
                            self.hold(h, kids[c]);
                        }
                    }
                    3 => {
                        let w = self.handles[j].0.downgrade();
                        self.weaks.push((w, n));
                    }
                    4 => {
                        let (t, k) = self.make();
                        self.handles[j].0.push_back(t);
                        self.adopt(n, kids.len(), &[k]);
                    }
                    5 => {
                        let got = self.handles[j].0.pop_front();
                        if got.is_some() != kids.first().is_some() {
                            viol("structure", "plain items: popping is wrong");
                        }
                        if let (Some(h), Some(k)) = (got, kids.first()) {
                            self.unlink(*k);
                            self.hold(h, *k);
                        }
                    }
                    6 => {
                        if self.n[n].par.is_some() {
                            self.handles[j].0.detach();
                            self.unlink(n);
                        }
                    }
                    7 => {
                        let t = self.handles[j].0.deep_clone();
                        let c = self.copy(n);
                        self.trees.push((t, c));
                    }
                    _ => self.let_go(j),
                }
            }
        }
    }
}

/// Whatever is asked of an iterator, the answer is that of any other over the same things.
fn protocol<I: Iterator>(r: &mut Rng, what: &str, mut it: I, want: Vec<String>, exact: bool, show: impl Fn(&I::Item) -> String) {
    let all = want.len();
    let mut re = want.into_iter();
    let same = |how: &str, got: String, want: String| {
        if got != want {
            viol("iteration", &format!("{what} over {all}: {how} answers {got}, not {want}"));
        }
    };
    let some = |x: Option<String>| x.unwrap_or_else(|| "nothing".into());
    for _ in 0..r.below(6) {
        let (k, left) = (r.u(4), re.len());
        let pick = re.as_slice().get(r.u(left + 1)).cloned().unwrap_or_default();
        match r.below(9) {
            0 | 1 => same("next()", some(it.next().map(|x| show(&x))), some(re.next())),
            2 => same("nth()", some(it.nth(k).map(|x| show(&x))), some(re.nth(k))),
            3 => {
                let (lo, hi) = it.size_hint();
                if lo > left || hi.is_some_and(|h| h < left) || exact && (lo, hi) != (left, Some(left)) {
                    viol("iteration", &format!("{what}: size_hint() is {lo}..{hi:?} while {left} are to come"));
                }
            }
            4 => same("position()", format!("{:?}", it.position(|x| show(&x) == pick)), format!("{:?}", re.position(|x| x == pick))),
            5 => same("find()", some(it.find(|x| show(x) == pick).map(|x| show(&x))), some(re.find(|x| *x == pick))),
            6 => same("any()", it.any(|x| show(&x) == pick).to_string(), re.any(|x| x == pick).to_string()),
            7 => {
                let (mut a, mut b) = (k, k);
                let go = |a: &mut usize| {
                    *a = a.wrapping_sub(1);
                    (*a != usize::MAX).then_some(())
                };
                same("try_fold()", format!("{:?}", it.try_fold(0, |n, _| go(&mut a).map(|_| n + 1))), format!("{:?}", re.try_fold(0, |n, _| go(&mut b).map(|_| n + 1))));
            }
            _ => {
                let got: Vec<String> = it.by_ref().take(k).map(|x| show(&x)).collect();
                same("take()", got.join(","), re.by_ref().take(k).collect::<Vec<_>>().join(","));
            }
        }
    }
    let k = 1 + r.u(3);
    match r.below(10) {
        0 => same("count()", it.count().to_string(), re.count().to_string()),
        1 => same("last()", some(it.last().map(|x| show(&x))), some(re.last())),
        2 => same("fold()", it.fold(String::new(), |s, x| s + "," + &show(&x)), re.fold(String::new(), |s, x| s + "," + &x)),
        3 => {
            let mut got = vec![];
            it.for_each(|x| got.push(show(&x)));
            same("for_each()", got.join(","), re.collect::<Vec<_>>().join(","));
        }
        4 => {
            let got: Vec<I::Item> = it.collect();
            same("collect()", got.iter().map(|x| show(x)).collect::<Vec<_>>().join(","), re.collect::<Vec<_>>().join(","));
        }
        5 => {
            let got: Vec<String> = it.skip(k).map(|x| show(&x)).collect();
            same("skip()", got.join(","), re.skip(k).collect::<Vec<_>>().join(","));
        }
        6 => {
            let got: Vec<String> = it.step_by(k).map(|x| show(&x)).collect();
            same("step_by()", got.join(","), re.step_by(k).collect::<Vec<_>>().join(","));
        }
        7 => {
            let mut it = it.peekable();
            let mut re = re.peekable();
            same("peek()", some(it.peek().map(|x| show(x))), some(re.peek().cloned()));
            same("what follows", some(it.nth(k).map(|x| show(&x))), some(re.nth(k)));
        }
        8 => {
            let longest = |a: String, b: String| if b > a { b } else { a };
            same("reduce()", some(it.map(|x| show(&x)).reduce(longest)), some(re.reduce(longest)));
        }
        _ => {
            let left = re.count();
            let mut n = 0;
            while it.next().is_some() {
                n += 1;
                if n > left {
                    break;
                }
            }
            if n != left || it.next().is_some() {
                viol("iteration", &format!("{what} has {n} to come, not {left}"));
            }
        }
    }
}

/// The counts of a structure are the sums of the counts of its parts, by all four operators.
fn sums<T>(r: &mut Rng, t: &Tree<T>) {
    let whole = t.bfs().size;
    let mut sum = Size::default();
    for v in t.bfs_children().iter {
        // Each node has its children as descendants: the degrees of all nodes but the root.
        sum = if r.pct(50) { sum + v.size } else { let mut s = sum; s += v.size; s };
    }
    let n = t.node_count();
    if sum.degree + t.degree() != n - 1 {
        viol("bfs", &format!("{} children of {} nodes", sum.degree + t.degree(), n));
    }
    let a = Size { degree: r.u(1000), descendants: r.u(1000) };
    let b = Size { degree: r.u(1000), descendants: r.u(1000) };
    let mut c = a;
    c += b;
    let mut d = c;
    d -= a;
    let want = Size { degree: a.degree + b.degree, descendants: a.descendants + b.descendants };
    if a + b != want || c != want || want - b != a || d != b || a + whole - a != whole {
        viol("structure", &format!("{a:?} and {b:?} do not add up"));
    }
}

pub fn run<T: Plain>(seed: u64) -> u64 {
    COINS.with(|c| c.set(0));
    let mut w = W::<T> { r: Rng::new(seed), n: vec![], trees: vec![], forests: vec![], handles: vec![], weaks: vec![] };
    let steps = w.r.range(3, 50);
    for i in 0..steps {
        if w.n.len() < 300 {
            w.step();
            w.look(i % 8 == 7);
        }
    }
    w.look(true);
    let sum = w.n.iter().map(|x| x.v as u64 + x.kids.len() as u64).sum::<u64>() + w.handles.len() as u64;
    while !w.handles.is_empty() {
        let i = w.r.u(w.handles.len());
        w.let_go(i);
        w.look(false);
    }
    if w.r.pct(50) {
        w.weaks.clear();
    }
    drop(w);
    if COINS.with(|c| c.get()) != 0 {
        viol("ledger", "plain items: some are leaked or dropped twice");
    }
    sum
}

pub fn any(seed: u64, how: u32) -> u64 {
    match how % 6 {
        5 => crate::giant::run(seed),
        0 => run::<u8>(seed),
        1 => run::<&'static str>(seed),
        2 => run::<Nil>(seed),
        3 => run::<Coin>(seed),
        _ => run::<Wide>(seed),
    }
}
