//! What a worker has covered.

use crate::heap;
use crate::item::*;
use crate::model::*;
use crate::rng::mix;
use crate::world::*;
use std::collections::BTreeMap;
use std::fmt::Write;

const BITS: usize = 1 << 22;

pub struct Total {
    pub runs: u64,
    pub steps: u64,
    pub skipped: u64,
    pub nested: u64,
    pub oom: u64,
    pub ops: BTreeMap<&'static str, [u64; 3]>,
    pub probes: BTreeMap<&'static str, u64>,
    pub hashes: Vec<u64>,
    pub states: Vec<u64>, // a bitmap of state fingerprints
    pub nontrivial: u64,
    pub items: u64,
    pub fired: [[u64; 3]; 9],
    pub calls: [u64; 9],
    pub xor: u64,
}

impl Total {
    pub fn new() -> Total {
        Total {
            runs: 0,
            steps: 0,
            skipped: 0,
            nested: 0,
            oom: 0,
            ops: Default::default(),
            probes: Default::default(),
            hashes: vec![],
            states: vec![0; BITS / 64],
            nontrivial: 0,
            items: 0,
            fired: Default::default(),
            calls: Default::default(),
            xor: 0,
        }
    }
    pub fn add<P: Payload>(&mut self, w: &World<P>) {
        let s = w.stats.borrow();
        self.steps += s.steps;
        self.skipped += s.skipped;
        self.nested += s.nested;
        self.oom += s.oom;
        for (k, v) in &s.ops {
            let e = self.ops.entry(k).or_insert([0; 3]);
            for i in 0..3 {
                e[i] += v[i];
            }
        }
        for (k, v) in &s.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.items += w.m.borrow().loc.len() as u64;
        // Not trivial: more than a handful of calls took effect.
        if s.ops.values().map(|v| v[0]).sum::<u64>() >= 10 {
            self.nontrivial += 1;
        }
    }
    /// The present state, as shapes and kinds of objects without values and names.
    pub fn state<P: Payload>(&mut self, w: &World<P>) {
        let m = w.m.borrow();
        let mut sum = 0u64;
        fn shape(m: &Model, n: N) -> u64 {
            let mut h = 0x1234_5678u64;
            let d = m.nd(n);
            h = mix(h ^ ((d.refs.min(3) as u64) << 8 | (d.weaks.min(2) as u64) << 16 | (d.rd.min(2) as u64) << 24 | (d.wr as u64) << 32));
            for k in &d.kids {
                h = mix(h.rotate_left(7) ^ shape(m, *k));
            }
            h
        }
        for (id, s) in w.objs.borrow().iter() {
            let kind = match &s.obj {
                Obj::Tree(..) => 1,
                Obj::Forest(..) => 2,
                Obj::IntoIter(..) => 3,
                Obj::Bfs(..) => 4,
                Obj::TWalk(..) => 5,
                Obj::FWalk(..) => 6,
                Obj::Handle(..) => 7,
                Obj::Weak(..) => 8,
                Obj::GuardR(..) => 9,
                Obj::GuardW(..) => 10,
                Obj::Iter(..) => 11,
                Obj::Item(..) => 12,
            };
            let mut h = mix(kind);
            for n in w.obj_nodes(*id, &s.obj).iter().take(1) {
                if m.nd(*n).st != St::Dead {
                    h = mix(h ^ shape(&m, *n));
                }
            }
            sum = sum.wrapping_add(h);
        }
        let b = mix(sum) as usize % BITS;
        self.states[b / 64] |= 1 << (b % 64);
    }
    pub fn run(&mut self, seed: u64, hash: u64) {
        self.runs += 1;
        self.hashes.push(hash);
        self.xor ^= mix(hash ^ mix(seed));
        ENV.with(|e| {
            for (a, b) in self.fired.iter_mut().zip(e.fired_all.borrow().iter()) {
                *a = *b; // these sum up over the runs of a process
            }
            self.calls = *e.calls.borrow();
        });
    }
    pub fn write(&self, file: &str) {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"runs\":{},\"steps\":{},\"skipped\":{},\"nested\":{},\"oom\":{},\"items\":{},\"nontrivial\":{},\"allocations\":{},\"reused\":{},\"fenced\":{},\"xor\":\"{:016x}\"",
            self.runs, self.steps, self.skipped, self.nested, self.oom, self.items, self.nontrivial, heap::tracked(), heap::reused(), heap::fenced(), self.xor
        );
        let _ = write!(s, ",\"ops\":{{");
        for (i, (k, v)) in self.ops.iter().enumerate() {
            let _ = write!(s, "{}\"{k}\":[{},{},{}]", if i > 0 { "," } else { "" }, v[0], v[1], v[2]);
        }
        let _ = write!(s, "}},\"probes\":{{");
        for (i, (k, v)) in self.probes.iter().enumerate() {
            let _ = write!(s, "{}\"{k}\":{v}", if i > 0 { "," } else { "" });
        }
        let _ = write!(s, "}},\"faults\":{{");
        let mut first = true;
        for k in CBS {
            for (a, n) in ["panic", "error", "nested"].iter().enumerate() {
                let v = self.fired[k as usize][a];
                if v > 0 {
                    let _ = write!(s, "{}\"{k:?} {n}\":{v}", if first { "" } else { "," });
                    first = false;
                }
            }
        }
        let _ = write!(s, "}},\"callbacks\":{{");
        for (i, k) in CBS.iter().enumerate() {
            let _ = write!(s, "{}\"{k:?}\":{}", if i > 0 { "," } else { "" }, self.calls[*k as usize]);
        }
        let _ = write!(s, "}}}}");
        if std::fs::write(file, s).is_err() {
            harness("cannot write the sums");
        }
        let mut b: Vec<u8> = Vec::with_capacity(BITS / 8);
        for w in &self.states {
            b.extend_from_slice(&w.to_le_bytes());
        }
        let mut h: Vec<u8> = Vec::new();
        for w in &self.hashes {
            h.extend_from_slice(&w.to_le_bytes());
        }
        if std::fs::write(format!("{file}.states"), b).is_err() || std::fs::write(format!("{file}.hashes"), h).is_err() {
            harness("cannot write the sums");
        }
    }
}
