//! The reference model: ordered trees in an arena, with handle counts.

use std::collections::{BTreeMap, BTreeSet};

pub type N = u32;
pub const NIL: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Alive,
    /// Kept, if at all, only by an iterator that may or may not hold on to it.
    Limbo,
    Dead,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
    Gone,
    Node(N),
    Loose,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub item: u32, // NIL: the fake root of a forest
    pub par: N,
    pub kids: Vec<N>,
    pub st: St,
    pub refs: u32,
    pub weaks: u32,
    pub owned: bool,
    pub rd: u32,
    pub wr: bool,
}

/// A running shared iterator.
#[derive(Clone, Debug)]
pub struct IterM {
    pub nodes: Vec<N>,
    pub pos: usize,
    pub exact: bool,
    pub cand: BTreeSet<N>,
    pub left: usize, // at most that many are still to come
}

#[derive(Clone, Debug)]
pub enum AttM {
    Strong(N),
    Owned(N),
    Weak(N),
}

#[derive(Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub loc: Vec<Loc>, // by item
    pub val: Vec<u32>, // by item
    pub iters: BTreeMap<u32, IterM>,
    pub att: BTreeMap<u32, Vec<AttM>>, // by item
    pub limbo: BTreeSet<N>,
    pub ver: u64,
}

impl Model {
    pub fn grow(&mut self, item: u32) {
        while self.loc.len() <= item as usize {
            self.loc.push(Loc::Gone);
            self.val.push(0);
        }
    }
    pub fn set_loc(&mut self, item: u32, l: Loc) {
        self.grow(item);
        self.loc[item as usize] = l;
    }
    pub fn set_val(&mut self, item: u32, v: u32) {
        self.grow(item);
        self.val[item as usize] = v;
        self.ver += 1;
    }
    pub fn loc_of(&self, item: u32) -> Loc {
        self.loc.get(item as usize).copied().unwrap_or(Loc::Gone)
    }
    pub fn new_node(&mut self, item: u32) -> N {
        let n = self.nodes.len() as N;
        self.nodes.push(MNode {
            item,
            par: NIL,
            kids: vec![],
            st: St::Alive,
            refs: 0,
            weaks: 0,
            owned: false,
            rd: 0,
            wr: false,
        });
        if item != NIL {
            self.set_loc(item, Loc::Node(n));
        }
        n
    }
    pub fn nd(&self, n: N) -> &MNode {
        &self.nodes[n as usize]
    }
    pub fn nm(&mut self, n: N) -> &mut MNode {
        self.ver += 1;
        &mut self.nodes[n as usize]
    }
    pub fn kids(&self, n: N) -> &[N] {
        &self.nd(n).kids
    }
    pub fn v(&self, n: N) -> u32 {
        self.val[self.nd(n).item as usize]
    }
    pub fn link(&mut self, par: N, at: usize, n: N) {
        self.nm(n).par = par;
        self.nm(n).owned = false;
        self.nm(par).kids.insert(at, n);
    }
    pub fn unlink(&mut self, n: N) {
        let p = self.nd(n).par;
        if p != NIL {
            let i = self.index(n);
            self.nm(p).kids.remove(i);
            self.nm(n).par = NIL;
        }
    }
    pub fn index(&self, n: N) -> usize {
        let p = self.nd(n).par;
        self.nd(p).kids.iter().position(|x| *x == n).unwrap()
    }
    pub fn root(&self, n: N) -> N {
        let mut r = n;
        while self.nd(r).par != NIL {
            r = self.nd(r).par;
        }
        r
    }
    /// The parent as users see it.
    pub fn parent(&self, n: N) -> Option<N> {
        let p = self.nd(n).par;
        if p == NIL || self.nd(p).item == NIL {
            None
        } else {
            Some(p)
        }
    }
    pub fn pre(&self, n: N) -> Vec<N> {
        let mut out = vec![];
        let mut stack = vec![n];
        while let Some(x) = stack.pop() {
            out.push(x);
            stack.extend(self.kids(x).iter().rev());
        }
        out
    }
    /// Level by level, without the node itself if it is a forest's fake root.
    pub fn level(&self, n: N, with_self: bool) -> Vec<N> {
        let mut out = vec![n];
        let mut i = 0;
        while i < out.len() {
            out.extend_from_slice(self.kids(out[i]));
            i += 1;
        }
        if !with_self {
            out.remove(0);
        }
        out
    }
    pub fn desc(&self, n: N) -> usize {
        self.pre(n).len() - 1
    }
    /// Child indexes from the root to the node.
    pub fn path(&self, n: N) -> Vec<usize> {
        let mut out = vec![];
        let mut x = n;
        while self.nd(x).par != NIL {
            out.push(self.index(x));
            x = self.nd(x).par;
        }
        out.reverse();
        out
    }

    // ---- life and death ----

    pub fn iter_holds(&self, n: N) -> bool {
        self.iters.values().any(|i| if i.exact { i.nodes[i.pos..].contains(&n) } else { i.left > 0 && i.cand.contains(&n) })
    }
    /// Call when the node may have lost what kept it.
    pub fn settle(&mut self, n: N) {
        let d = self.nd(n);
        if d.st == St::Dead || d.par != NIL || d.refs > 0 || d.owned {
            return;
        }
        if self.iter_holds(n) {
            self.nm(n).st = St::Limbo;
            self.limbo.insert(n);
        } else {
            self.kill(n);
        }
    }
    pub fn kill(&mut self, n: N) {
        self.limbo.remove(&n);
        let d = self.nm(n);
        if d.st == St::Dead {
            return;
        }
        d.st = St::Dead;
        let item = d.item;
        let kids = std::mem::take(&mut d.kids);
        if item != NIL {
            self.item_gone(item);
        }
        for k in kids {
            self.nm(k).par = NIL;
            self.settle(k);
        }
    }
    pub fn item_gone(&mut self, item: u32) {
        self.set_loc(item, Loc::Gone);
        for a in self.att.remove(&item).unwrap_or_default() {
            match a {
                AttM::Strong(n) => self.unref(n),
                AttM::Owned(n) => self.disown(n),
                AttM::Weak(n) => self.nm(n).weaks -= 1,
            }
        }
    }
    pub fn addref(&mut self, n: N) {
        let d = self.nm(n);
        d.refs += 1;
        if d.st == St::Limbo {
            d.st = St::Alive;
            self.limbo.remove(&n);
        }
    }
    pub fn unref(&mut self, n: N) {
        self.nm(n).refs -= 1;
        self.settle(n);
    }
    pub fn disown(&mut self, n: N) {
        self.nm(n).owned = false;
        self.settle(n);
    }
    pub fn alive(&self, n: N) -> bool {
        self.nd(n).st != St::Dead
    }
    /// Takes the item out of a node, which is gone afterwards.
    pub fn strip(&mut self, n: N) -> u32 {
        let d = self.nm(n);
        d.st = St::Dead;
        d.par = NIL;
        d.kids.clear();
        let item = d.item;
        self.set_loc(item, Loc::Loose);
        item
    }

    // ---- guards ----

    pub fn guarded(&self, n: N) -> bool {
        self.nd(n).wr || self.nd(n).rd > 0
    }
    pub fn writer_below(&self, n: N) -> bool {
        self.pre(n).iter().any(|x| self.nd(*x).wr)
    }
    pub fn any_writer(&self) -> bool {
        self.nodes.iter().any(|d| d.wr && d.st != St::Dead)
    }

    // ---- iterators ----

    pub fn refresh_iters(&mut self) {
        let mut relax = vec![];
        for (id, it) in &self.iters {
            if it.exact && it.pos < it.nodes.len() {
                let rest = &it.nodes[it.pos..];
                let p = self.nd(rest[0]).par;
                let ok = self.nd(rest[0]).st == St::Alive && p != NIL && {
                    let kids = self.kids(p);
                    let i = kids.iter().position(|x| *x == rest[0]).unwrap();
                    kids[i..].len() >= rest.len() && kids[i..i + rest.len()] == *rest
                };
                if !ok {
                    relax.push(*id);
                }
            }
        }
        for id in relax {
            let it = self.iters.get_mut(&id).unwrap();
            it.exact = false;
            it.cand = it.nodes[it.pos..].iter().copied().collect();
        }
    }

    // ---- what the model says about whole structures ----

    pub fn render(&self, n: N, out: &mut String, tag: char, sep_kids: bool) {
        use std::fmt::Write;
        if self.nd(n).item == NIL {
            if self.kids(n).is_empty() {
                out.push_str("()");
            } else {
                out.push_str("( ");
                for k in self.kids(n) {
                    self.render(*k, out, tag, sep_kids);
                    out.push(' ');
                }
                out.push(')');
            }
        } else {
            let _ = write!(out, "{tag}{}", self.v(n));
            if !self.kids(n).is_empty() {
                out.push_str("( ");
                for k in self.kids(n) {
                    self.render(*k, out, tag, sep_kids);
                    out.push(' ');
                }
                out.push(')');
            }
        }
    }
    pub fn display(&self, n: N) -> String {
        let mut s = String::new();
        self.render(n, &mut s, 'v', true);
        s
    }
    /// The order of two structures, if they have one: with `nan`, items with that value have none.
    pub fn cmp(&self, a: N, b: N, nan: bool) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self.nd(a).item != NIL && self.nd(b).item != NIL {
            let (x, y) = (self.v(a), self.v(b));
            if nan && (x == crate::item::NAN || y == crate::item::NAN) {
                return None;
            }
            match x.cmp(&y) {
                Equal => (),
                x => return Some(x),
            }
        }
        let (ka, kb) = (self.kids(a), self.kids(b));
        for (x, y) in ka.iter().zip(kb) {
            match self.cmp(*x, *y, nan) {
                Some(Equal) => (),
                o => return o,
            }
        }
        Some(ka.len().cmp(&kb.len()))
    }

    /// Everything that lives because these nodes live: their subtrees, and what items in them own.
    pub fn reach(&self, from: &[N]) -> BTreeSet<N> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<N> = from.to_vec();
        while let Some(n) = todo.pop() {
            if !seen.insert(n) {
                continue;
            }
            todo.extend_from_slice(self.kids(n));
            if let Some(at) = self.att.get(&self.nd(n).item) {
                for a in at {
                    match a {
                        AttM::Strong(x) | AttM::Owned(x) => todo.push(*x),
                        AttM::Weak(_) => (),
                    }
                }
            }
        }
        seen
    }
    /// All nodes of all trees that the given nodes are in or own.
    pub fn components(&self, from: &[N]) -> BTreeSet<N> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<N> = from.to_vec();
        while let Some(n) = todo.pop() {
            if out.contains(&n) {
                continue;
            }
            for x in self.pre(self.root(n)) {
                out.insert(x);
                if let Some(at) = self.att.get(&self.nd(x).item) {
                    for a in at {
                        match a {
                            AttM::Strong(x) | AttM::Owned(x) => todo.push(*x),
                            AttM::Weak(_) => (),
                        }
                    }
                }
            }
        }
        out
    }
}
