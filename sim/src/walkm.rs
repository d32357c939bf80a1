//! The reference model of a depth-first cursor.

use crate::item::*;
use crate::model::*;
use trees::walk::Visit;
use std::cell::RefCell;
use trees::Node;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Begin,
    End,
    Leaf,
    /// Behind the last of the siblings.
    Behind,
}

#[derive(Clone, PartialEq)]
struct One {
    stack: Vec<(Vec<N>, usize)>,
    kind: Kind,
    miss: bool, // the last command found nothing, whatever the position is
}

/// Where the cursor can be. There is more than one place only after a command was interrupted:
/// then it either happened or did not.
#[derive(Clone)]
pub struct WalkM {
    pub root: N,
    top: Vec<N>,
    cands: RefCell<Vec<One>>,
}

impl WalkM {
    pub fn new(m: &Model, root: N) -> WalkM {
        let top = if m.nd(root).item == NIL { m.kids(root).to_vec() } else { vec![root] };
        let mut w = One { stack: vec![], kind: Kind::Begin, miss: false };
        w.start(m, &top);
        WalkM { root, top, cands: RefCell::new(vec![w]) }
    }
    pub fn step(&mut self, m: &Model, cmd: u32, n: usize) {
        for c in self.cands.get_mut().iter_mut() {
            c.step(m, &self.top, cmd, n);
        }
    }
    pub fn done(&self) -> bool {
        self.cands.borrow().iter().all(|c| c.done())
    }
    /// The command that led from `was` to here was interrupted.
    pub fn either(&mut self, was: &WalkM) {
        let mut cands = self.cands.borrow_mut();
        for c in was.cands.borrow().iter() {
            if !cands.contains(c) {
                cands.push(c.clone());
            }
        }
    }
    fn keep(&self, what: &str, got: &dyn std::fmt::Debug, want: impl Fn(&One) -> (bool, String)) {
        let mut cands = self.cands.borrow_mut();
        let first = want(&cands[0]).1;
        let n = cands.len();
        cands.retain(|c| want(c).0);
        if cands.is_empty() {
            let or = if n > 1 { " (or what it was before the interrupted command)" } else { "" };
            viol("cursor", &format!("{what} {got:?} where the model has {first}{or}"));
        }
    }
    /// What a command has answered.
    pub fn answer<P: Payload>(&self, m: &Model, got: Option<Visit<It<P>>>) {
        self.visit(m, got, true)
    }
    fn visit<P: Payload>(&self, m: &Model, got: Option<Visit<It<P>>>, cmd: bool) {
        let got = got.map(|v| {
            let k = match v {
                Visit::Begin(_) => Kind::Begin,
                Visit::End(_) => Kind::End,
                Visit::Leaf(_) => Kind::Leaf,
            };
            (k, v.node().data().id())
        });
        ext(|| {
            self.keep("the cursor answers", &got, |c| {
                let want = if cmd && c.miss { None } else { c.now().map(|(k, n)| (k, m.nd(n).item)) };
                (got == want, format!("{want:?}"))
            })
        })
    }
    /// What the queries tell between the commands.
    pub fn check<P: Payload>(&self, m: &Model, get: Option<Visit<It<P>>>, par: Option<&Node<It<P>>>) {
        self.visit(m, get, false);
        let got = par.map(|p| p.data().id());
        ext(|| {
            self.keep("get_parent() is", &got, |c| {
                let want = if c.stack.len() >= 2 {
                    let (l, i) = &c.stack[c.stack.len() - 2];
                    Some(m.nd(l[*i]).item)
                } else {
                    None
                };
                (got == want, format!("{want:?}"))
            })
        })
    }
    pub fn log(&self, m: &Model) -> Vec<u64> {
        let c = &self.cands.borrow()[0];
        match c.now() {
            None => vec![c.done() as u64],
            Some((k, n)) => vec![k as u64, m.v(n) as u64, c.stack.len() as u64],
        }
    }
}

impl One {
    fn start(&mut self, m: &Model, top: &[N]) {
        if !top.is_empty() {
            self.stack.push((top.to_vec(), 0));
            self.arrive(m);
        }
    }
    fn here(&self) -> Option<N> {
        let (l, i) = self.stack.last()?;
        l.get(*i).copied()
    }
    fn arrive(&mut self, m: &Model) {
        if let Some(n) = self.here() {
            self.kind = if m.kids(n).is_empty() { Kind::Leaf } else { Kind::Begin };
        }
    }
    fn done(&self) -> bool {
        self.stack.is_empty()
    }
    fn up(&mut self) {
        self.stack.pop();
        self.kind = Kind::End;
    }
    fn step(&mut self, m: &Model, top: &[N], cmd: u32, n: usize) {
        self.miss = false;
        match cmd {
            0 | 1 => match (self.here(), self.kind) {
                _ if self.done() => (),
                (Some(x), Kind::Begin) => {
                    let k = m.kids(x).to_vec();
                    self.stack.push((k, 0));
                    self.arrive(m);
                }
                (_, Kind::Behind) => self.up(),
                _ => {
                    let (l, i) = self.stack.last_mut().unwrap();
                    *i += 1;
                    if *i < l.len() {
                        self.arrive(m);
                    } else {
                        self.up();
                    }
                }
            },
            2 => {
                if !self.done() {
                    self.up();
                }
            }
            3 => {
                if self.done() || self.kind == Kind::Behind {
                    self.miss = true;
                    return;
                }
                let x = self.here().unwrap();
                let k = m.kids(x).to_vec();
                if k.is_empty() {
                    self.miss = true;
                } else if n < k.len() {
                    self.stack.push((k, n));
                    self.arrive(m);
                } else {
                    let l = k.len();
                    self.stack.push((k, l));
                    self.kind = Kind::Behind;
                }
            }
            4 => {
                if self.done() || self.kind == Kind::Behind {
                    self.miss = true;
                    return;
                }
                let (l, i) = self.stack.last_mut().unwrap();
                if *i + n < l.len() {
                    *i += n;
                    self.arrive(m);
                } else {
                    *i = l.len();
                    self.kind = Kind::Behind;
                }
            }
            5 => {
                if self.done() {
                    self.start(m, top);
                } else if self.kind != Kind::Behind {
                    self.arrive(m);
                }
            }
            _ => (),
        }
    }
    fn now(&self) -> Option<(Kind, N)> {
        if self.kind == Kind::Behind {
            return None;
        }
        self.here().map(|n| (self.kind, n))
    }
}
