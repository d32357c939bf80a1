//! Shapes, and the many ways to build a structure of a given shape.

use crate::item::*;
use crate::rng::{mix, Rng};
use std::collections::VecDeque;
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{fr, tr, Forest, Size, Tree};

/// Node 0 is the root, or stands for a forest itself.
#[derive(Clone, Debug)]
pub struct Shape {
    pub kids: Vec<Vec<usize>>,
    pub forest: bool,
}

impl Shape {
    /// `size` nodes, not counting what stands for a forest.
    pub fn random(size: usize, seed: u64, forest: bool) -> Shape {
        let mut r = Rng::new(seed ^ 0x5A4A);
        let n = size + forest as usize;
        let mut kids = vec![vec![]; n.max(1)];
        let style = r.below(6);
        for i in 1..n {
            let p = match style {
                0 => 0,                         // star
                1 => i - 1,                     // path
                2 => r.u(i),                    // recursive
                3 => i.saturating_sub(1 + r.u(3)), // long
                4 => (i - 1) / 2,               // binary
                _ => r.u(i.min(3)),             // broad
            };
            let k: &mut Vec<usize> = &mut kids[p];
            let at = if style == 2 { r.u(k.len() + 1) } else { k.len() };
            k.insert(at, i);
        }
        Shape { kids, forest }
    }
    /// Preorder numbering.
    pub fn catalog(k: usize, forest: bool) -> Shape {
        let list = if forest { crate::tuples::FORESTS } else { crate::tuples::TREES };
        let text = list[k % list.len()];
        let mut kids = vec![vec![]];
        let mut stack = vec![0];
        for c in text.chars() {
            if c == '(' {
                let n = kids.len();
                kids.push(vec![]);
                kids[*stack.last().unwrap()].push(n);
                stack.push(n);
            } else {
                stack.pop();
            }
        }
        Shape { kids, forest }
    }
    pub fn level(&self) -> Vec<usize> {
        let mut out = vec![0];
        let mut i = 0;
        while i < out.len() {
            out.extend_from_slice(&self.kids[out[i]]);
            i += 1;
        }
        out
    }
    fn desc(&self) -> Vec<usize> {
        let mut d = vec![0; self.kids.len()];
        for n in self.level().into_iter().rev() {
            d[n] = self.kids[n].iter().map(|k| d[*k] + 1).sum();
        }
        d
    }
    pub fn sizes(&self) -> Vec<Size> {
        self.desc().iter().zip(&self.kids).map(|(d, k)| Size { degree: k.len(), descendants: *d }).collect()
    }
}

/// The sizes of the parts are found out outside of library code.
struct Plan<'a, P: Payload> {
    sh: &'a Shape,
    sizes: Vec<Size>,
    items: Vec<Option<It<P>>>,
    layout: u32,
}

impl<P: Payload> Plan<'_, P> {
    fn item(&mut self, n: usize) -> It<P> {
        self.items[n].take().unwrap_or_else(|| harness("an item is used twice"))
    }
    /// The subtree in level order, as a stream.
    fn stream(&mut self, from: &[usize]) -> VecDeque<Visit<It<P>>> {
        ext(|| {
            let mut q: VecDeque<usize> = from.iter().copied().collect();
            let mut out = VecDeque::new();
            while let Some(n) = q.pop_front() {
                q.extend(&self.sh.kids[n]);
                out.push_back(Visit { data: self.item(n), size: self.sizes[n] });
            }
            out
        })
    }
    fn at_once(&mut self, n: usize) -> Tree<It<P>> {
        let size = Size { degree: 1, descendants: self.sizes[n].descendants };
        let iter = ext(|| self.stream(&[n]).into_iter());
        Tree::from(BfsTree { iter, size })
    }
    fn contiguous(&self, n: usize) -> bool {
        match self.layout {
            1 => true,
            2 => mix(n as u64 ^ 0x77 ^ (self.sh.kids.len() as u64) << 20) % 2 == 0,
            _ => false,
        }
    }
    fn tree(&mut self, n: usize) -> Tree<It<P>> {
        if self.contiguous(n) {
            return self.at_once(n);
        }
        let sh = self.sh;
        let kids = &sh.kids[n];
        let item = self.item(n);
        let ways = if self.layout == 4 { 4 } else { 7 };
        match mix(n as u64 ^ (kids.len() as u64) << 16 ^ 0x1234) % ways + if self.layout == 4 { 10 } else { 0 } {
            0 => {
                let mut t = Tree::new(item);
                for k in kids {
                    t.push_back(self.tree(*k));
                }
                t
            }
            1 => {
                let mut t = Tree::new(item);
                for k in kids.iter().rev() {
                    t.push_front(self.tree(*k));
                }
                t
            }
            2 => {
                let mut t = Tree::new(item);
                let mut f = Forest::new();
                for k in kids {
                    f.push_back(self.tree(*k));
                }
                t.append(f);
                t
            }
            3 => {
                let mut t = Tree::new(item);
                let mut f = Forest::new();
                for k in kids.iter().rev() {
                    f.push_front(self.tree(*k));
                }
                t.prepend(f);
                t
            }
            4 => {
                let mut t = Tree::new(item);
                for (i, k) in kids.iter().enumerate() {
                    let c = self.tree(*k);
                    if i == 0 {
                        t.push_back(c);
                    } else {
                        t.back_mut().unwrap().insert_next_sib(c);
                    }
                }
                t
            }
            5 => {
                let mut t = Tree::new(item);
                for (i, k) in kids.iter().rev().enumerate() {
                    let c = self.tree(*k);
                    if i == 0 {
                        t.root_mut().push_front(c);
                    } else {
                        t.front_mut().unwrap().insert_prev_sib(c);
                    }
                }
                t
            }
            6 => {
                // Halves.
                let mut t = Tree::new(item);
                let h = kids.len() / 2;
                for k in &kids[h..] {
                    t.push_back(self.tree(*k));
                }
                let mut f = Forest::new();
                for k in &kids[..h] {
                    f.push_back(self.tree(*k));
                }
                t.prepend(f);
                t
            }
            10 => {
                let mut t = tr(item);
                for k in kids {
                    t = t / self.tree(*k);
                }
                t
            }
            11 => {
                let mut f = fr();
                for k in kids {
                    f = f - self.tree(*k);
                }
                tr(item) / f
            }
            12 => {
                if kids.is_empty() {
                    return tr(item) / ();
                }
                let mut f = -self.tree(kids[0]);
                for k in &kids[1..] {
                    f = f - (-self.tree(*k));
                }
                tr(item) / f
            }
            _ => {
                if kids.len() < 2 {
                    let mut t = tr(item);
                    for k in kids {
                        t = t / self.tree(*k);
                    }
                    return t;
                }
                let a = self.tree(kids[0]);
                let b = self.tree(kids[1]);
                let mut f = a - b;
                for k in &kids[2..] {
                    f = f - self.tree(*k);
                }
                tr(item) / f
            }
        }
    }
    fn forest(&mut self) -> Forest<It<P>> {
        let sh = self.sh;
        let kids = &sh.kids[0];
        if self.contiguous(0) {
            let size = self.sizes[0];
            let iter = ext(|| self.stream(kids).into_iter());
            return Forest::from(BfsForest { iter, size });
        }
        match mix(kids.len() as u64 ^ (self.sizes[0].descendants as u64) << 16) % 4 + if self.layout == 4 { 10 } else { 0 } {
            0 | 10 => {
                let mut f = Forest::new();
                for k in kids {
                    f.push_back(self.tree(*k));
                }
                f
            }
            1 => {
                let mut f = Forest::new();
                for k in kids.iter().rev() {
                    f.push_front(self.tree(*k));
                }
                f
            }
            2 => {
                let mut f = Forest::default();
                let mut g = Forest::new();
                for (i, k) in kids.iter().enumerate() {
                    let t = self.tree(*k);
                    if i % 2 == 0 && !kids.is_empty() {
                        g.push_back(t);
                        f.append(std::mem::take(&mut g));
                    } else {
                        f.push_back(t);
                    }
                }
                f
            }
            3 => {
                let mut f = Forest::new();
                for k in kids.iter().rev() {
                    let mut g = Forest::new();
                    g.push_front(self.tree(*k));
                    f.prepend(g);
                }
                f
            }
            _ => {
                let mut f = fr();
                for k in kids {
                    f = f - self.tree(*k);
                }
                f
            }
        }
    }
}

fn plan<P: Payload>(sh: &Shape, items: Vec<It<P>>, layout: u32) -> Plan<'_, P> {
    ext(|| {
        let mut v: Vec<Option<It<P>>> = vec![];
        if sh.forest {
            v.push(None);
        }
        v.extend(items.into_iter().map(Some));
        if v.len() != sh.kids.len() {
            harness("number of items");
        }
        Plan { sh, sizes: sh.sizes(), items: v, layout }
    })
}

pub fn build_tree<P: Payload>(sh: &Shape, items: Vec<It<P>>, layout: u32) -> Tree<It<P>> {
    plan(sh, items, layout).tree(0)
}
pub fn build_forest<P: Payload>(sh: &Shape, items: Vec<It<P>>, layout: u32) -> Forest<It<P>> {
    plan(sh, items, layout).forest()
}

// ---- streams ----

/// What a source says is to come, which need not be much, and from 5 on need not be true.
pub fn hint(kind: u32, (lo, hi): (usize, Option<usize>)) -> (usize, Option<usize>) {
    match kind {
        0 => (0, None),
        1 => (lo, hi),
        2 => (lo / 2, hi.map(|x| x + 3)),
        3 => (0, hi),
        4 => (lo, None),
        5 => (lo + 7, Some(lo + 7)),
        6 => (0, Some(0)),
        _ => (lo / 2, Some(lo / 2)),
    }
}
pub const TRUE_HINTS: u32 = 5;

/// A callback when something of the client's is dropped.
pub struct End(pub Cb);
impl Drop for End {
    fn drop(&mut self) {
        let _o = Outside::new();
        cb(self.0);
    }
}

/// A stream of items with sizes, each step of which is a callback, and so is its end.
pub struct Src<I> {
    pub it: I,
    pub hint: u32,
    pub end: End,
}
impl<P: Payload, I: Iterator<Item = (It<P>, Size)>> Iterator for Src<I> {
    type Item = Visit<It<P>>;
    fn next(&mut self) -> Option<Visit<It<P>>> {
        let _o = Outside::new();
        cb(Cb::Src);
        self.it.next().map(|(data, size)| Visit { data, size })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.it.size_hint())
    }
}

/// A source of known length.
pub struct Told<I> {
    pub it: I,
    pub left: usize,
    pub hint: u32,
}
impl<I: Iterator> Iterator for Told<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next();
        self.left -= x.is_some() as usize;
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, (self.left, Some(self.left)))
    }
}

#[derive(Clone, Copy)]
pub struct Elem {
    pub key: usize,
    pub size: Size,
}

/// The stream that describes a shape, with something wrong in it.
pub fn corrupt(sh: &Shape, corr: u32, pos: usize, delta: u32) -> (Vec<Elem>, Size) {
    let sizes = sh.sizes();
    let mut list: Vec<Elem> = sh.level().into_iter().skip(sh.forest as usize).map(|n| Elem { key: n, size: sizes[n] }).collect();
    let mut outer = if sh.forest { sizes[0] } else { Size { degree: 1, descendants: sizes[0].descendants } };
    let len = list.len();
    let small = |x: usize| -> usize {
        let d = (delta % 6) as usize;
        if d < 3 {
            x + 1 + d
        } else {
            x.saturating_sub(d - 2)
        }
    };
    match corr % 12 {
        1 => list.truncate(pos % (len + 1)),
        2 if len > 0 => {
            list.remove(pos % len);
        }
        3 if len > 0 => {
            let i = pos % len;
            let e = list[i];
            list.insert(i, Elem { key: e.key + 1000, size: e.size });
        }
        4 if len > 1 => {
            let i = pos % len;
            let j = (i + 1 + delta as usize % (len - 1)) % len;
            list.swap(i, j);
        }
        5 => {
            for i in 0..1 + delta as usize % 3 {
                let size = if delta & 8 == 0 { Size::default() } else { Size { degree: 1, descendants: 1 } };
                list.push(Elem { key: 2000 + i, size });
            }
        }
        6 if len > 0 => {
            let e = &mut list[pos % len];
            e.size.degree = small(e.size.degree);
        }
        7 if len > 0 => {
            let e = &mut list[pos % len];
            e.size.descendants = small(e.size.descendants);
        }
        8 => {
            if delta & 16 == 0 {
                outer.descendants = small(outer.descendants);
            } else {
                outer.degree = small(outer.degree);
            }
        }
        9 if len > 0 => {
            // A leaf that claims to have children, consistently so far.
            let e = &mut list[len - 1 - pos % len];
            let d = 1 + (delta % 3) as usize;
            e.size.degree += d;
            e.size.descendants += d;
        }
        10 if len > 1 => {
            // The ancestors' totals claim more than there is: what a later level should deliver is missing.
            for e in list.iter_mut().take(1 + pos % len) {
                if e.size.degree > 0 {
                    e.size.descendants += 1;
                }
            }
            outer.descendants += 1;
        }
        11 if len > 1 => {
            // One child moves from a node to another.
            let from = (0..len).map(|i| (i + pos) % len).find(|i| list[*i].size.degree > 0);
            if let Some(i) = from {
                let j = (i + 1 + delta as usize % (len - 1)) % len;
                list[i].size.degree -= 1;
                list[j].size.degree += 1;
                if delta & 64 == 0 {
                    let d = list[i].size.descendants.min(1);
                    list[i].size.descendants -= d;
                    list[j].size.descendants += d;
                }
            }
        }
        _ => (),
    }
    (list, outer)
}

/// The shape described by a stream, if it describes one. Nodes are numbered in stream order.
pub fn stream_shape(sizes: &[Size], forest: bool, outer: Size) -> Option<Shape> {
    let top = if forest { outer.degree } else { 1 };
    if !forest && sizes.is_empty() {
        return None;
    }
    let off = forest as usize;
    let n = sizes.len() + off;
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    let mut next = if forest { 0 } else { 1 };
    if forest {
        if top > sizes.len() {
            return None;
        }
        kids[0] = (1..=top).collect();
        next = 1 + top;
    }
    for i in off..n {
        let d = sizes[i - off].degree;
        if i >= next || d > n - next {
            return None;
        }
        kids[i] = (next..next + d).collect();
        next += d;
    }
    if next != n {
        return None;
    }
    let sh = Shape { kids, forest };
    let d = sh.desc();
    for i in off..n {
        if sizes[i - off].descendants != d[i] {
            return None;
        }
    }
    Some(sh)
}
