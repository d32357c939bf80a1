//! Observation of real structures through every public accessor.

use crate::item::*;
use crate::model::*;
use trees::{Forest, Node, RcNode};

pub struct Snap {
    pub id: u32, // NIL for a forest
    pub deg: usize,
    pub cnt: usize,
    pub kids: Vec<Snap>,
}

const MAX_DEPTH: u32 = 1500;
const MAX_KIDS: usize = 5000;

fn wrong(msg: String) -> ! {
    viol("structure", &msg)
}

struct Ends {
    id: u32,
    deg: usize,
    cnt: usize,
    empty: bool,
    front: Option<u32>,
    back: Option<u32>,
}

fn conclude(e: Ends, kids: Vec<Snap>) -> Snap {
    ext(|| {
        let sum: usize = kids.iter().map(|k| k.cnt).sum();
        let own = (e.id != NIL) as usize;
        if e.deg != kids.len() {
            wrong(format!("item {} has {} children but degree() says {}", e.id, kids.len(), e.deg));
        }
        if e.empty != kids.is_empty() {
            wrong(format!("item {} has {} children but has_no_child() says {}", e.id, kids.len(), e.empty));
        }
        if e.cnt != sum + own {
            wrong(format!("item {} has {} nodes but node_count() says {}", e.id, sum + own, e.cnt));
        }
        if e.front != kids.first().map(|k| k.id) {
            wrong(format!("front() of item {} is {:?}, not the first child {:?}", e.id, e.front, kids.first().map(|k| k.id)));
        }
        if e.back != kids.last().map(|k| k.id) {
            wrong(format!("back() of item {} is {:?}, not the last child {:?}", e.id, e.back, kids.last().map(|k| k.id)));
        }
        Snap { id: e.id, deg: e.deg, cnt: e.cnt, kids }
    })
}

pub fn node<P: Payload>(n: &Node<It<P>>, depth: u32) -> Snap {
    if depth > MAX_DEPTH {
        wrong("a tree is deeper than anything that was built".into());
    }
    let e = Ends {
        id: n.data().id(),
        deg: n.degree(),
        cnt: n.node_count(),
        empty: n.has_no_child(),
        front: n.front().map(|x| x.data().id()),
        back: n.back().map(|x| x.data().id()),
    };
    let mut kids = Vec::new();
    let mut it = n.iter();
    let mut rem = e.deg;
    loop {
        if it.len() != rem {
            wrong(format!("iter() over item {} says {} are left, not {rem}", e.id, it.len()));
        }
        let Some(c) = it.next() else { break };
        if rem == 0 {
            wrong(format!("iter() over item {} yields more than degree() says", e.id));
        }
        rem -= 1;
        let s = node(c, depth + 1);
        match c.parent() {
            Some(p) if std::ptr::eq(p, n) => (),
            Some(p) => wrong(format!("parent() of item {} is {}, not {}", s.id, p.data().id(), e.id)),
            None => wrong(format!("parent() of item {} is nothing, not {}", s.id, e.id)),
        }
        ext(|| kids.push(s));
    }
    if it.next().is_some() || n.iter().count() != e.deg || n.iter().last().map(|x| x.data().id()) != e.back {
        wrong(format!("iter() over item {} does not know its end", e.id));
    }
    if e.deg > 1 && n.iter().nth(e.deg / 2).map(|x| x.data().id()) != ext(|| Some(kids[e.deg / 2].id)) {
        wrong(format!("iter() over item {} leads to another child {}", e.id, e.deg / 2));
    }
    conclude(e, kids)
}

pub fn forest<P: Payload>(f: &Forest<It<P>>) -> Snap {
    let e = Ends {
        id: NIL,
        deg: f.degree(),
        cnt: f.node_count(),
        empty: f.has_no_child(),
        front: f.front().map(|x| x.data().id()),
        back: f.back().map(|x| x.data().id()),
    };
    let mut kids = Vec::new();
    let mut it = f.iter();
    let mut rem = e.deg;
    loop {
        if it.len() != rem {
            wrong(format!("iter() over a forest says {} are left, not {rem}", it.len()));
        }
        let Some(c) = it.next() else { break };
        if rem == 0 {
            wrong("iter() over a forest yields more than degree() says".into());
        }
        rem -= 1;
        let s = node(c, 0);
        if let Some(p) = c.parent() {
            wrong(format!("parent() of item {} at the top of a forest is {}", s.id, p.data().id()));
        }
        ext(|| kids.push(s));
    }
    if it.next().is_some() || f.iter().count() != e.deg || f.iter().last().map(|x| x.data().id()) != e.back {
        wrong("iter() over a forest does not know its end".into());
    }
    conclude(e, kids)
}

/// With `free` nobody has a guard on any of the nodes.
pub fn rc<P: Payload>(h: &RcNode<It<P>>, depth: u32, free: bool) -> Snap {
    if depth > MAX_DEPTH {
        wrong("a tree is deeper than anything that was built".into());
    }
    if free {
        // No operation has left a borrow behind.
        drop(h.data_mut());
    }
    let e = Ends {
        id: h.data().id(),
        deg: h.degree(),
        cnt: h.node_count(),
        empty: h.has_no_child(),
        front: h.front().map(|x| x.data().id()),
        back: h.back().map(|x| x.data().id()),
    };
    let mut kids: Vec<Snap> = Vec::new();
    let mut it = h.iter_rc();
    let mut last = usize::MAX;
    loop {
        let (lo, hi) = it.size_hint();
        if let Some(hi) = hi {
            if hi > last || lo > hi {
                wrong(format!("the length of iter_rc() over item {} grows", e.id));
            }
            last = hi;
        }
        let Some(c) = it.next() else { break };
        if kids.len() > MAX_KIDS {
            wrong(format!("iter_rc() over item {} does not end", e.id));
        }
        let s = rc(&c, depth + 1, free);
        if c.is_root() {
            wrong(format!("item {} is below {} but says it is a root", s.id, e.id));
        }
        match c.parent() {
            Some(p) if p.data().id() == e.id => (),
            Some(p) => wrong(format!("parent() of item {} is {}, not {}", s.id, p.data().id(), e.id)),
            None => wrong(format!("parent() of item {} is nothing, not {}", s.id, e.id)),
        }
        ext(|| kids.push(s));
    }
    conclude(e, kids)
}

impl Model {
    /// The real structure is the one the model has at n.
    pub fn verify(&self, s: &Snap, n: N, what: &str) {
        let d = self.nd(n);
        if s.id != d.item {
            wrong(format!("{what}: found item {} where {} belongs", s.id as i32, d.item as i32));
        }
        if s.kids.len() != d.kids.len() {
            wrong(format!(
                "{what}: item {} has children {:?}, not {:?}",
                s.id as i32,
                s.kids.iter().map(|k| k.id).collect::<Vec<_>>(),
                d.kids.iter().map(|k| self.nd(*k).item).collect::<Vec<_>>()
            ));
        }
        for (k, m) in s.kids.iter().zip(&d.kids) {
            self.verify(k, *m, what);
        }
    }
    /// The real structure is a copy of the first `nk` children of `src` (and of `src` itself).
    /// Returns the model of the copy.
    pub fn copied(&mut self, s: &Snap, src: N, nk: usize, what: &str) -> N {
        let item = self.nd(src).item;
        if s.id != NIL || item != NIL {
            if item == NIL || s.id == NIL {
                wrong(format!("{what}: a forest's root became an item or the other way round"));
            }
            let (alive, val, from) = ENV.with(|e| {
                let l = e.ledger.borrow();
                let r = &l[s.id as usize];
                (r.alive, r.val, r.src)
            });
            if from != item || !alive {
                wrong(format!("{what}: item {} stands where a copy of item {item} belongs", s.id));
            }
            if val != self.val[item as usize] {
                wrong(format!("{what}: the copy of item {item} has value {val}, not {}", self.val[item as usize]));
            }
            if self.loc_of(s.id) != Loc::Gone {
                wrong(format!("{what}: item {} is in two places", s.id));
            }
            self.set_val(s.id, val);
        }
        let kids: Vec<N> = self.kids(src).to_vec();
        if s.kids.len() < nk || nk > kids.len() {
            wrong(format!("{what}: the copy of item {} has {} children, not {nk}", item as i32, s.kids.len()));
        }
        let n = self.new_node(s.id);
        for (i, k) in s.kids.iter().take(nk).enumerate() {
            let full = self.kids(kids[i]).len();
            if k.kids.len() != full {
                wrong(format!("{what}: the copy of item {} has {} children, not {full}", self.nd(kids[i]).item, k.kids.len()));
            }
            let c = self.copied(k, kids[i], full, what);
            self.link(n, i, c);
        }
        n
    }
}
