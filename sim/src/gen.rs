//! The seeded scheduler: decides which client moves, what it does, on what, and
//! which faults strike while it does.

use crate::item::*;
use crate::model::*;
use crate::rng::Rng;
use crate::trace::*;
use crate::world::*;

pub struct Profile {
    pub prop: &'static str,
    pub ops: &'static str,
    /// Chances in percent per step: callback panic, failed allocation, nested steps.
    pub panic: u32,
    pub oom: u32,
    pub nest: u32,
    pub steps: (usize, usize),
    pub dense: u32, // chance in percent that a run observes everything after each step
    pub nodes: usize,
}

const OWNED: &str = "NewTree 7 NewForest 4 NewItem 1 Drop 3 Push 10 Splice 6 Pop 6 InsSib 8 Detach 8 Abandon 3 Set 2 Swap 1 IterMut 3 Children 1 IntoIter 1 IiNext 2 Rebuild 1 CloneAll 1 NodeClone 1 Obs 1";
const SHARED: &str = "NewTree 6 NewForest 2 ToRc 5 HClone 4 HDown 3 HMany 1 WUp 5 HAsk 4 HNav 14 HPush 9 HSplice 3 HPop 4 HIns 8 HDet 6 HExt 1 HSet 2 HIter 2 ItNext 6 HDeep 1 HTree 1 Drop 8 Crash 1 Give 1";

pub const PROFILES: &[Profile] = &[
    Profile {
        prop: "C01",
        ops: "NewTree 7 Plain 1 NewForest 4 NewItem 2 Drop 5 Push 8 Splice 5 Pop 5 InsSib 6 Detach 6 Abandon 3 Set 1 Swap 2 IterMut 3 IntoIter 3 IiNext 4 IntoBfs 3 BfsNext 4 Bfs 1 CloneAll 3 NodeClone 3 Oper 5 Cmp 1 Fmt 1 Stream 3 Rebuild 2 WalkNew 1 WalkCmd 2 WalkDone 1 ToRc 1 HTree 1 HSplice 1 HExt 1 Drop 2 Crash 1 Give 1 Attach 2",
        panic: 14, oom: 9, nest: 3, steps: (15, 120), dense: 10, nodes: 160,
    },
    Profile {
        prop: "C02",
        ops: "NewTree 7 Plain 1 NewForest 1 NewItem 2 ToRc 6 HClone 6 HDown 7 HMany 2 WUp 9 WProbe 3 HAsk 2 HNav 14 HPush 7 HSplice 3 HPop 6 HIns 5 HDet 7 HExt 1 HSet 1 HSwap 3 HGuard 1 HIter 4 ItNext 7 ItClone 1 HDeep 1 HTree 2 Drop 18 Crash 2 Give 1 Attach 4",
        panic: 7, oom: 4, nest: 8, steps: (20, 160), dense: 15, nodes: 120,
    },
    Profile {
        prop: "C03",
        ops: "NewTree 7 Plain 1 NewForest 4 ToRc 5 HClone 3 HDown 2 HMany 1 WUp 3 HAsk 6 HNav 16 HPush 11 HSplice 5 HPop 7 HIns 11 HDet 8 HExt 3 HSet 4 HSwap 1 NewItem 1 HIter 1 ItNext 3 HDeep 2 HTree 2 Cmp 4 Fmt 3 Drop 6 Crash 1 Give 2",
        panic: 2, oom: 2, nest: 1, steps: (30, 200), dense: 50, nodes: 140,
    },
    Profile {
        prop: "C04",
        ops: "NewTree 6 Plain 1 NewForest 3 NewItem 1 ToRc 5 HClone 4 HDown 2 HMany 1 WUp 3 HAsk 10 HNav 14 HPush 9 HSplice 5 HPop 6 HIns 8 HDet 6 HExt 3 HSet 4 HSwap 2 HGuard 14 GUse 4 HIter 3 ItNext 4 HDeep 6 HTree 2 Cmp 3 Fmt 6 Drop 9 Crash 1 Give 1 Attach 1",
        panic: 5, oom: 3, nest: 12, steps: (25, 160), dense: 20, nodes: 90,
    },
    Profile {
        prop: "C05",
        ops: "NewTree 6 Plain 1 NewForest 2 ToRc 5 HClone 3 HDown 1 WUp 1 HAsk 2 HNav 12 HPush 6 HSplice 2 HPop 4 HIns 9 HDet 9 HSet 1 HIter 9 ItNext 22 ItClone 3 HTree 1 Drop 8 Crash 1 Give 1 IterMut 9 Push 2 Attach 1 NewItem 1",
        panic: 2, oom: 2, nest: 3, steps: (30, 180), dense: 20, nodes: 120,
    },
    Profile {
        prop: "C06",
        ops: "NewTree 7 Plain 1 NewForest 4 NewItem 1 Drop 3 Push 12 Splice 9 Pop 9 InsSib 11 Detach 11 Abandon 5 Set 2 Swap 1 IterMut 4 Children 2 IntoIter 1 IiNext 2 Rebuild 1 CloneAll 1 NodeClone 1 Cmp 2 Oper 3 Obs 1 IntoBfs 1 BfsNext 1",
        panic: 4, oom: 6, nest: 0, steps: (30, 200), dense: 60, nodes: 140,
    },
    Profile {
        prop: "C07",
        ops: "NewTree 7 Plain 1 NewForest 5 Drop 4 Push 7 Splice 4 Pop 4 InsSib 5 Detach 5 Abandon 2 Set 1 IterMut 1 IntoBfs 8 BfsNext 16 Bfs 24 CloneAll 1 Rebuild 3 Oper 1 Crash 1",
        panic: 14, oom: 6, nest: 2, steps: (20, 120), dense: 10, nodes: 140,
    },
    Profile {
        prop: "C08",
        ops: "NewTree 2 Plain 1 NewForest 2 Drop 6 Push 3 Splice 2 Pop 2 InsSib 2 Detach 2 Stream 40 Rebuild 10 CloneAll 2 IntoBfs 2 BfsNext 3 Crash 1 Cmp 1",
        panic: 12, oom: 8, nest: 3, steps: (15, 80), dense: 20, nodes: 220,
    },
    Profile {
        prop: "C09",
        ops: "NewTree 7 Plain 1 NewForest 5 Drop 6 Push 5 Splice 3 Pop 4 InsSib 4 Detach 4 Abandon 1 Set 5 IterMut 2 CloneAll 10 NodeClone 14 Oper 16 ToRc 3 HNav 6 HPush 2 HSet 2 HDeep 10 HTree 1 HGuard 2 Cmp 4 Rebuild 1 Crash 1 NewItem 1 Swap 1",
        panic: 16, oom: 10, nest: 3, steps: (20, 110), dense: 20, nodes: 200,
    },
    Profile {
        prop: "C10",
        ops: "NewTree 7 Plain 1 NewForest 5 Drop 3 Push 5 Splice 3 Pop 3 InsSib 3 Detach 3 Set 2 ToRc 4 HNav 6 HPush 2 HDet 2 HGuard 4 GUse 1 HSet 1 Fmt 46 CloneAll 2 WalkNew 1 WalkCmd 1 WalkDone 2 Crash 1",
        panic: 14, oom: 0, nest: 3, steps: (20, 110), dense: 10, nodes: 120,
    },
    Profile {
        prop: "C11",
        ops: "NewTree 6 Plain 1 NewForest 5 Drop 2 Push 6 Splice 3 Pop 2 InsSib 3 Detach 3 CloneAll 1 WalkNew 9 WalkCmd 70 WalkDone 4 Rebuild 1 Crash 1",
        panic: 1, oom: 6, nest: 0, steps: (40, 240), dense: 10, nodes: 140,
    },
    Profile {
        prop: "C12",
        ops: "NewTree 8 Plain 1 NewForest 6 NewItem 1 Drop 5 Push 6 Splice 3 Pop 6 InsSib 4 Detach 7 Abandon 1 IterMut 1 CloneAll 1 Rebuild 1 WalkNew 16 WalkCmd 60 WalkDone 9 Give 26 Crash 2 Swap 1 IntoBfs 1 BfsNext 1 IntoIter 1 IiNext 1",
        panic: 8, oom: 4, nest: 12, steps: (40, 220), dense: 15, nodes: 140,
    },
    Profile {
        prop: "C13",
        ops: "NewTree 9 Plain 1 NewForest 4 NewItem 1 Drop 8 Push 6 Splice 4 Pop 5 InsSib 5 Detach 6 Abandon 2 Set 2 Swap 1 IterMut 2 IntoIter 1 IiNext 2 IntoBfs 1 BfsNext 2 Bfs 2 CloneAll 2 NodeClone 2 Oper 2 Cmp 2 Fmt 2 Stream 1 Rebuild 1 WalkNew 1 WalkCmd 3 WalkDone 1 ToRc 5 HClone 3 HDown 3 HMany 1 WUp 6 HAsk 3 HNav 12 HPush 5 HSplice 2 HPop 4 HIns 5 HDet 5 HExt 1 HSet 1 HSwap 1 HGuard 3 GUse 1 HIter 2 ItNext 5 HDeep 1 HTree 2 Crash 1 Attach 1",
        panic: 5, oom: 0, nest: 0, steps: (20, 140), dense: 10, nodes: 120,
    },
    Profile {
        prop: "C14",
        ops: "NewTree 8 Plain 1 NewForest 4 NewItem 1 Drop 8 Push 6 Splice 4 Pop 5 InsSib 5 Detach 6 Abandon 2 Set 2 Swap 1 IterMut 3 IntoIter 1 IiNext 2 IntoBfs 2 BfsNext 3 Bfs 3 CloneAll 2 NodeClone 2 Oper 3 Cmp 3 Fmt 3 Stream 3 Rebuild 2 WalkNew 2 WalkCmd 6 WalkDone 1 ToRc 5 HClone 4 HDown 4 HMany 1 WUp 6 HAsk 3 HNav 12 HPush 6 HSplice 2 HPop 4 HIns 5 HDet 5 HExt 1 HSet 1 HSwap 1 HGuard 4 GUse 1 HIter 2 ItNext 5 HDeep 1 HTree 2 Crash 1 Attach 1",
        panic: 6, oom: 0, nest: 0, steps: (20, 140), dense: 10, nodes: 120,
    },
    Profile {
        prop: "C15",
        ops: "NewTree 7 Plain 1 NewForest 5 NewItem 1 Drop 5 Push 6 Splice 3 Pop 4 InsSib 4 Detach 4 Abandon 1 Set 9 Swap 1 IterMut 1 CloneAll 9 NodeClone 3 Rebuild 5 Oper 2 ToRc 5 HNav 7 HPush 3 HPop 2 HIns 2 HDet 2 HSet 4 HGuard 2 HDeep 3 HTree 1 Cmp 60 Crash 1",
        panic: 8, oom: 2, nest: 7, steps: (25, 150), dense: 10, nodes: 160,
    },
    Profile {
        prop: "C16",
        ops: "NewTree 12 Plain 1 NewForest 8 Drop 10 Tuple 20 Push 2 Splice 2 Pop 3 InsSib 2 Detach 3 Set 1 IterMut 1 CloneAll 2 Oper 40 IntoBfs 1 BfsNext 1 Bfs 4 WalkNew 2 WalkCmd 8 WalkDone 1 ToRc 3 HNav 4 HPush 1 HPop 1 HDet 1 Fmt 2 Cmp 2 Rebuild 1 Crash 1",
        panic: 12, oom: 6, nest: 2, steps: (20, 110), dense: 20, nodes: 220,
    },
];

pub fn profile(prop: &str) -> Option<(usize, &'static Profile)> {
    PROFILES.iter().enumerate().find(|p| p.1.prop == prop)
}

pub struct Gen {
    pub r: Rng,
    weights: Vec<(Op, u32)>,
    actors: u32,
    panic: u32,
    oom: u32,
    nest: u32,
    pub steps: usize,
    max_objs: usize,
    max_nodes: usize,
    small: u32,
    big: bool, // a run with few, large structures
    layouts: [u32; 5],
    recent: u32,
    guarded: u32,
    threads: bool,
    cur: u32, // the client to move
    any: bool, // it may look at what others own
}

/// What a run is like apart from its steps.
pub struct RunCfg {
    pub large: bool,
    pub cadence: u64,
    pub reuse: u64, // of freed memory
}

impl Gen {
    pub fn new(p: &Profile, seed: u64) -> (Gen, RunCfg) {
        let mut r = Rng::new(seed);
        let mut weights: Vec<(Op, u32)> = vec![];
        let mut w = p.ops.split_whitespace();
        while let (Some(n), Some(k)) = (w.next(), w.next()) {
            let op = op_of(n).unwrap_or_else(|| harness(&format!("no operation {n}")));
            weights.push((op, 4 * k.parse::<u32>().unwrap()));
        }
        // Now and then the mix comes from elsewhere.
        if r.pct(6) {
            let other = if r.pct(50) { OWNED } else { SHARED };
            let mut w = other.split_whitespace();
            while let (Some(n), Some(k)) = (w.next(), w.next()) {
                weights.push((op_of(n).unwrap(), 2 * k.parse::<u32>().unwrap()));
            }
        }
        // Swarm: each run has its own mix of operations.
        if r.pct(70) {
            for (op, w) in weights.iter_mut() {
                let essential = matches!(op, Op::NewTree | Op::ToRc | Op::HNav | Op::WalkNew);
                match r.below(6) {
                    0 if !essential => *w = 0,
                    1 => *w *= 3,
                    2 => *w = (*w / 3).max(1),
                    _ => (),
                }
            }
        }
        let faulty = r.below(4); // a quarter of the runs is free of faults
        let scale = |x: u32, r: &mut Rng| match faulty {
            0 => 0,
            1 => x / 2,
            2 => x,
            _ => x * (r.below(3) as u32),
        };
        let (panic, oom, nest) = (scale(p.panic, &mut r), scale(p.oom, &mut r), scale(p.nest, &mut r));
        let steps = r.range(p.steps.0, p.steps.1);
        let dense = r.pct(p.dense);
        let layouts = match if p.prop == "C16" { 5 } else { r.below(5) } {
            5 => [0, 1, 0, 6, 4],
            0 => [1, 0, 0, 0, 0],
            1 => [0, 1, 0, 0, 0],
            2 => [1, 1, 3, 1, 1],
            _ => [3, 3, 1, 1, 1],
        };
        let mut cfg = RunCfg { large: r.pct(15), cadence: if dense { 1 } else { [0, 4, 9, 16][r.u(4)] }, reuse: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 3][r.u(20)] };
        let big = r.pct(3);
        if big {
            cfg.cadence = [0, 16][r.u(2)];
        }
        let g = Gen {
            weights,
            actors: if p.prop == "C12" { 2 } else { 1 } + r.below(5) as u32,
            panic,
            oom,
            nest,
            steps: if big { steps.min(80) } else { steps },
            max_objs: [6, 12, 24, 40][r.u(4)],
            max_nodes: if big { 700 } else { (p.nodes / [1, 1, 2, 4][r.u(4)]).max(20) },
            big,
            small: [3, 5, 8, 14][r.u(4)],
            layouts,
            recent: [0, 30, 60][r.u(3)],
            guarded: if p.prop == "C04" { [0, 20, 50][r.u(3)] } else { 0 },
            threads: p.prop == "C12",
            cur: 0,
            any: false,
            r,
        };
        (g, cfg)
    }

    fn classes<P: Payload>(o: &Obj<P>) -> &'static str {
        match o {
            Obj::Tree(..) => "TOSCYA",
            Obj::Forest(..) => "FOSCYA",
            Obj::IntoIter(..) => "IA",
            Obj::Bfs(..) => "BA",
            Obj::TWalk(..) | Obj::FWalk(..) => "WA",
            Obj::Handle(..) => "HSCYA",
            Obj::Weak(..) => "KYA",
            Obj::GuardR(..) | Obj::GuardW(..) => "GA",
            Obj::Iter(..) => "RA",
            Obj::Item(..) => "XA",
        }
    }
    /// An object of a class: T tree, F forest, O either, H handle, S any of these, I consuming
    /// iterator, B consuming traversal, W cursor, K weak handle, G guard, R shared iterator,
    /// X item, Y what an item can own, A anything.
    fn pick<P: Payload>(&mut self, w: &World<P>, class: char, not: &[u32]) -> Option<u32> {
        let objs = w.objs.borrow();
        let mine = |s: &Slot<P>| !self.threads || self.any || s.actor == self.cur;
        let list: Vec<u32> =
            objs.iter().filter(|(id, s)| Self::classes(&s.obj).contains(class) && !not.contains(id) && mine(s)).map(|x| *x.0).collect();
        if list.is_empty() {
            return None;
        }
        if self.r.pct(self.recent) {
            let k = list.len().min(3);
            return Some(list[list.len() - 1 - self.r.u(k)]);
        }
        Some(list[self.r.u(list.len())])
    }
    /// A handle, more often one on a node that is not a root, or that somebody has a guard on.
    fn pick_h<P: Payload>(&mut self, w: &World<P>, below: bool) -> Option<u32> {
        let first = self.pick(w, 'H', &[])?;
        let want_guard = self.r.pct(self.guarded);
        let want_below = below && self.r.pct(60);
        if !want_guard && !want_below {
            return Some(first);
        }
        let m = w.m.borrow();
        let list: Vec<u32> = {
            let objs = w.objs.borrow();
            let fit = |s: &Slot<P>| match &s.obj {
                Obj::Handle(_, n) => {
                    (!self.threads || s.actor == self.cur)
                        && (!want_guard || m.guarded(*n))
                        && (!want_below || m.parent(*n).is_some())
                }
                _ => false,
            };
            objs.iter().filter(|(_, s)| fit(s)).map(|x| *x.0).collect()
        };
        Some(if list.is_empty() { first } else { list[self.r.u(list.len())] })
    }
    /// Another object of a class whose content begins like that of `x`.
    fn twin<P: Payload>(&mut self, w: &World<P>, class: char, x: u32) -> Option<u32> {
        let m = w.m.borrow();
        let objs = w.objs.borrow();
        let key = |s: &Slot<P>| match &s.obj {
            Obj::Tree(_, n) | Obj::Forest(_, n) | Obj::Handle(_, n) => {
                let d = m.nd(*n);
                let v = if d.item == NIL { 99 } else { m.v(*n) };
                Some((v, d.kids.first().map(|k| m.v(*k))))
            }
            _ => None,
        };
        let want = key(objs.get(&x)?)?;
        let list: Vec<u32> = objs
            .iter()
            .filter(|(id, s)| **id != x && Self::classes(&s.obj).contains(class) && key(s) == Some(want))
            .map(|x| *x.0)
            .collect();
        if list.is_empty() {
            return None;
        }
        Some(list[self.r.u(list.len())])
    }
    fn size(&mut self) -> u32 {
        if self.big && self.r.pct(30) {
            return 30 + self.r.below(300) as u32;
        }
        if self.r.pct(10) {
            1 + self.r.below(30) as u32
        } else {
            1 + self.r.below(self.small as u64) as u32
        }
    }
    fn small_n(&mut self) -> u32 {
        let k = [2, 4, 8, if self.big { 400 } else { 64 }][self.r.u(4)];
        self.r.below(k) as u32
    }
    fn rnd(&mut self) -> u32 {
        self.r.below(1 << 20) as u32
    }

    /// Arguments for an operation, if there is something to do it on.
    fn args<P: Payload>(&mut self, w: &World<P>, op: Op, full: bool) -> Option<Vec<u32>> {
        use Op::*;
        let mut a: Vec<u32> = vec![];
        macro_rules! ob {
            ($c:expr) => {{
                let x = self.pick(w, $c, &a[..0])?;
                a.push(x);
            }};
            ($c:expr, other) => {{
                let not: Vec<u32> = vec![a[0]];
                let x = self.pick(w, $c, &not)?;
                a.push(x);
            }};
        }
        macro_rules! hd {
            ($b:expr) => {{
                let x = self.pick_h(w, $b)?;
                a.push(x);
            }};
        }
        macro_rules! nu {
            ($e:expr) => {{
                let v = $e as u32;
                a.push(v);
            }};
        }
        match op {
            NewTree | NewForest => {
                if full {
                    return None;
                }
                let layout = self.r.weighted(&self.layouts.clone()) as u32;
                let size = self.size() - (op == NewForest) as u32;
                nu!(size);
                nu!(if layout == 3 { self.r.below(400) as u32 } else { self.rnd() });
                nu!(layout);
            }
            NewItem => nu!(self.r.below(17)),
            Drop | Obs => ob!('A'),
            Push | InsSib => {
                ob!('O');
                nu!(self.small_n());
                ob!('T', other);
                nu!(self.r.below(16));
            }
            Splice => {
                ob!('O');
                nu!(self.small_n());
                ob!('F', other);
                nu!(self.r.below(16));
            }
            Pop => {
                ob!('O');
                nu!(self.small_n());
                nu!(self.r.below(16));
            }
            Detach => {
                ob!('O');
                nu!(self.small_n());
            }
            Abandon | ToRc => ob!('T'),
            Set => {
                ob!('O');
                nu!(self.small_n());
                nu!(self.r.below(17));
            }
            Swap => {
                ob!('O');
                nu!(self.small_n());
                ob!('X', other);
            }
            IterMut => {
                ob!('O');
                nu!(self.small_n());
                nu!(self.r.below(16));
                let len = self.r.range(1, 14);
                for _ in 0..len {
                    let code = if self.r.pct(45) { 0 } else { self.r.below(10) };
                    nu!(code + 10 * self.r.below(64));
                }
            }
            Children => {
                ob!('O');
                nu!(self.small_n());
                nu!(0);
            }
            IntoIter | WalkNew => ob!('O'),
            IiNext => ob!('I'),
            IntoBfs | Rebuild => {
                ob!('O');
                nu!(self.r.below(8));
            }
            BfsNext => {
                ob!('B');
                nu!(if self.r.pct(70) { self.r.below(4) } else { self.r.below(40) });
            }
            Bfs => {
                ob!('O');
                nu!(self.small_n());
                nu!(self.r.below(8));
                nu!(if self.r.pct(50) { 1000 } else { self.r.below(12) });
                nu!(self.rnd());
            }
            CloneAll => {
                if full {
                    return None;
                }
                ob!('O');
                nu!(self.r.below(6));
            }
            NodeClone => {
                if full {
                    return None;
                }
                ob!('O');
                nu!(self.small_n());
                nu!(self.r.below(16));
            }
            Oper => {
                let kind = self.r.below(7) as u32;
                let refs = self.r.below(4) as u32;
                if full && refs != 0 {
                    return None;
                }
                nu!(kind);
                let cx = if kind >= 5 { 'F' } else { 'T' };
                let cy = if kind == 2 || kind == 6 { 'F' } else { 'T' };
                let x = self.pick(w, cx, &[])?;
                nu!(x);
                if kind == 0 || kind == 4 {
                    nu!(x);
                } else {
                    let not: Vec<u32> = if refs == 3 { vec![] } else { vec![x] };
                    let y = self.pick(w, cy, &not)?;
                    nu!(y);
                }
                nu!(refs);
            }
            Fmt => {
                ob!('S');
                nu!(self.small_n());
                nu!(self.r.below(4));
                nu!(if self.r.pct(30) { 0 } else { 1 + self.r.below(50) });
                nu!(self.r.below(2));
            }
            Cmp => {
                let c = ['T', 'F', 'H'][self.r.u(3)];
                ob!(c);
                nu!(self.small_n());
                let mut y = self.pick(w, c, &[])?;
                let twin = self.r.pct(40);
                if twin {
                    // Rather something that is nearly equal.
                    y = self.twin(w, c, a[0]).unwrap_or(y);
                }
                nu!(y);
                nu!(if twin { a[1] } else { self.small_n() });
                let kinds = if self.r.pct(50) { 24 } else { 48 };
                nu!(self.r.below(kinds));
            }
            Stream => {
                if full {
                    return None;
                }
                nu!(self.r.below(16));
                nu!(self.size());
                nu!(self.rnd());
                nu!(if self.r.pct(25) { 0 } else { self.r.below(12) });
                nu!(self.r.below(64));
                nu!(self.r.below(128));
            }
            WalkCmd => {
                if self.threads && self.r.pct(12) {
                    self.any = true;
                    let x = self.pick(w, 'W', &[]);
                    self.any = false;
                    return Some(vec![x?, 6 + self.r.below(2) as u32, 0]);
                }
                ob!('W');
                nu!(self.r.weighted(&[20, 12, 8, 14, 14, 8, 4, 2, 3, if self.big { 20 } else { 2 }]));
                nu!(match self.r.below(20) {
                    0..=13 => self.r.below(2),
                    14..=18 => self.r.below(6),
                    _ => self.small_n() as u64,
                });
            }
            WalkDone => {
                ob!('W');
                nu!(0);
            }
            HClone | HDown | HIter | HDet | HTree | HDeep => {
                if full && op == HDeep {
                    return None;
                }
                hd!(op == HDet)
            }
            Tuple => {
                nu!(self.rnd());
                nu!(self.r.below(10));
                nu!(self.r.below(17));
            }
            HAsk => {
                hd!(false);
                nu!(self.r.below(7));
            }
            Plain => {
                nu!(self.rnd());
                nu!(if self.r.below(30) == 0 { 5 } else { self.r.below(5) });
            }
            HMany => {
                hd!(false);
                let k = match self.r.below(20) {
                    0 => 66_000,
                    1..=6 => 300,
                    _ => 20,
                };
                nu!(self.r.below(k) * 4 + self.r.below(4));
            }
            HNav => {
                hd!(false);
                nu!(self.r.below(24));
            }
            HPush | HIns => {
                hd!(op == HIns);
                ob!('T', other);
                nu!(self.r.below(2));
            }
            HSplice => {
                hd!(false);
                ob!('F', other);
                nu!(self.r.below(2));
            }
            HPop | HGuard => {
                hd!(false);
                nu!(self.r.below(if op == HPop { 3 } else { 4 }));
            }
            HSet => {
                hd!(false);
                nu!(self.r.below(17));
            }
            HExt => {
                if full {
                    return None;
                }
                hd!(false);
                nu!(self.r.below(5));
                nu!(self.rnd());
                nu!(self.r.below(20));
            }
            HSwap => {
                hd!(false);
                ob!('X', other);
            }
            WUp | WProbe => ob!('K'),
            GUse => {
                ob!('G');
                nu!(self.r.below(17));
            }
            ItNext | ItClone => ob!('R'),
            Crash => {
                nu!(if self.threads { self.cur as u64 } else { self.r.below(self.actors as u64) });
                nu!(self.rnd());
            }
            Give => {
                let c = if !self.threads {
                    'A'
                } else if self.r.pct(90) {
                    'W'
                } else {
                    'X'
                };
                ob!(c);
                nu!(self.r.below(self.actors as u64));
            }
            Attach => {
                ob!('X');
                ob!('Y', other);
            }
        }
        Some(a)
    }

    fn op<P: Payload>(&mut self, w: &World<P>, list: &[(Op, u32)]) -> (Op, Vec<u32>) {
        let (n, nodes) = {
            let m = w.m.borrow();
            (w.objs.borrow().len(), m.nodes.iter().filter(|n| n.st != St::Dead).count())
        };
        let full = nodes >= self.max_nodes;
        if n >= self.max_objs {
            if self.r.pct(60) {
                let op = if self.r.pct(10) { Op::Crash } else { Op::Drop };
                if let Some(a) = self.args(w, op, full) {
                    return (op, a);
                }
            }
        }
        let ws: Vec<u32> = list.iter().map(|x| x.1).collect();
        for _ in 0..12 {
            let op = list[self.r.weighted(&ws)].0;
            if let Some(a) = self.args(w, op, full) {
                return (op, a);
            }
        }
        let layout = self.r.weighted(&self.layouts.clone()) as u32;
        (Op::NewTree, vec![if full { 1 } else { self.size() }, self.rnd() % 64, layout])
    }

    fn faults<P: Payload>(&mut self, w: &World<P>, st: &mut Step, next_id: &mut u32) {
        use Op::*;
        // The callbacks that an operation makes besides dropping items.
        let kinds: &[Cb] = match st.op {
            CloneAll | NodeClone | HDeep => &[Cb::Clone, Cb::Clone, Cb::Clone, Cb::Drop],
            Oper => &[Cb::Clone, Cb::Clone, Cb::Drop],
            Cmp => &[Cb::Eq, Cb::Cmp, Cb::Hash],
            Fmt => &[Cb::Fmt],
            Bfs => &[Cb::Map],
            BfsNext => &[Cb::Map, Cb::Map, Cb::Drop],
            Rebuild => &[Cb::Map, Cb::Drop],
            Stream => &[Cb::Src, Cb::Src, Cb::Drop],
            Tuple => &[Cb::Map, Cb::Map, Cb::Drop],
            HExt => &[Cb::Src, Cb::Drop],
            WalkCmd | Plain | HNav | HAsk | HMany | HClone | HGuard | GUse | HIter | ItClone | Obs | Give | Attach => &[],
            WUp | WProbe | ItNext => &[],
            _ => &[Cb::Drop],
        };
        if !kinds.is_empty() && self.r.pct(self.panic) {
            let k = kinds[self.r.u(kinds.len())];
            let nth = match self.r.below(3) {
                0 => 0,
                1 => self.r.below(4),
                _ => self.r.below(20),
            } as u32;
            let act = if k == Cb::Fmt && self.r.pct(50) { Act::Err } else { Act::Panic };
            st.faults.push(Fault::Cb(k, nth, act));
        }
        if self.r.pct(self.oom) && st.op != Crash {
            let n = if self.r.pct(60) { self.r.below(3) } else { self.r.below(14) };
            st.faults.push(Fault::Oom(n as u32));
        }
        // What a failing call drops while it unwinds may use the library too.
        let unwinds = self.nest > 0 && !st.faults.is_empty() && self.r.pct(25);
        if unwinds || (!kinds.is_empty() && self.r.pct(self.nest)) {
            let k = if unwinds { Cb::Drop } else { kinds[self.r.u(kinds.len())] };
            let nth = self.r.below(4) as u32;
            st.faults.push(Fault::Cb(k, nth, Act::Nest));
            for _ in 0..self.r.range(1, 3) {
                let s = self.nested(w, st, next_id);
                st.nest.push(s);
            }
        }
    }
    fn nested<P: Payload>(&mut self, w: &World<P>, st: &Step, next_id: &mut u32) -> Step {
        use Op::*;
        self.cur = if self.threads { self.r.below(self.actors as u64) as u32 } else { st.actor };
        const PROBE: &[(Op, u32)] = &[(WProbe, 1)];
        const SOFT: &[(Op, u32)] =
            &[(HAsk, 3), (HPush, 3), (HPop, 3), (HSet, 2), (HIns, 3), (HDet, 3), (HClone, 1), (HDown, 1), (WUp, 1), (Drop, 2), (WProbe, 1)];
        let reading = matches!(st.op, HDeep | Fmt | Cmp);
        let (op, a) = match self.r.below(if reading { 6 } else { 4 }) {
            0 => self.op(w, PROBE),
            1 | 2 => {
                let list = self.weights.clone();
                self.op(w, &list)
            }
            3 => {
                const ANY: &[(Op, u32)] = &[(NewTree, 2), (HPush, 2), (HPop, 2), (HDet, 2), (Drop, 4), (Push, 2), (Detach, 2), (CloneAll, 1), (WUp, 2), (HClone, 1)];
                self.op(w, ANY)
            }
            _ => self.op(w, SOFT),
        };
        let s = Step::new(*next_id, self.cur, op, a);
        *next_id += 1;
        s
    }

    pub fn next<P: Payload>(&mut self, w: &World<P>, next_id: &mut u32) -> Step {
        let actor = self.r.below(self.actors as u64) as u32;
        self.cur = actor;
        let list = std::mem::take(&mut self.weights);
        let (op, a) = self.op(w, &list);
        self.weights = list;
        let mut st = Step::new(*next_id, actor, op, a);
        *next_id += 1;
        self.faults(w, &mut st, next_id);
        st
    }
}
