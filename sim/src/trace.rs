//! Steps and their text form. A run is nothing but a list of steps: replaying the
//! list replays the run.

use crate::item::{Act, Cb, CBS};
use std::fmt::Write;

macro_rules! ops {
    ($($name:ident $sig:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        #[allow(dead_code)]
        pub enum Op { $($name),* }
        pub const OPS: &[(Op, &str, &str)] = &[$((Op::$name, stringify!($name), $sig)),*];
    };
}

// In a signature: o = an object, n = a number.
ops! {
    // owned structures
    NewTree "nnn", NewForest "nnn", NewItem "n", Drop "o", Push "onon", Splice "onon", Pop "onn", InsSib "onon",
    Detach "on", Abandon "o", Set "onn", Swap "ono", IterMut "onn", Children "onn", IntoIter "o", IiNext "o",
    IntoBfs "on", BfsNext "on", Bfs "onnnn", CloneAll "on", NodeClone "onn", Oper "noon", Fmt "onnnn", Cmp "ononn",
    Stream "nnnnnn", Rebuild "on", Tuple "nnn", ToRc "o", WalkNew "o", WalkCmd "onn", WalkDone "on",
    // shared structures
    HClone "o", HDown "o", WUp "o", HNav "on", HPush "oon", HSplice "oon", HPop "on", HIns "oon", HDet "o", HExt "onnn",
    HSet "on", HSwap "oo", HGuard "on", GUse "on", HIter "o", ItNext "o", ItClone "o", HDeep "o", HTree "o", WProbe "o", HAsk "on", HMany "on",
    // clients
    Plain "nn", Crash "nn", Give "on", Attach "oo", Obs "o",
}

pub fn op_sig(op: Op) -> &'static str {
    OPS[op as usize].2
}
pub fn op_name(op: Op) -> &'static str {
    OPS[op as usize].1
}
pub fn op_of(name: &str) -> Option<Op> {
    OPS.iter().find(|x| x.1 == name).map(|x| x.0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Cb(Cb, u32, Act),
    Oom(u32),
}

#[derive(Clone, Debug)]
pub struct Step {
    pub id: u32,
    pub actor: u32,
    pub op: Op,
    pub a: Vec<u32>,
    pub faults: Vec<Fault>,
    pub nest: Vec<Step>,
}

impl Step {
    pub fn new(id: u32, actor: u32, op: Op, a: Vec<u32>) -> Step {
        Step { id, actor, op, a, faults: vec![], nest: vec![] }
    }
    fn line(&self, depth: usize, out: &mut String) {
        for _ in 0..depth {
            out.push_str("> ");
        }
        let _ = write!(out, "{} c{} {}", self.id, self.actor, op_name(self.op));
        for x in &self.a {
            let _ = write!(out, " {x}");
        }
        for f in &self.faults {
            match f {
                Fault::Cb(k, n, a) => {
                    let _ = write!(out, " ! {k:?} {n} {a:?}");
                }
                Fault::Oom(n) => {
                    let _ = write!(out, " ! oom {n}");
                }
            }
        }
        out.push('\n');
        for s in &self.nest {
            s.line(depth + 1, out);
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.line(0, &mut s);
        s
    }
}

fn parse_line(line: &str) -> Result<(usize, Step), String> {
    let mut depth = 0;
    let mut rest = line.trim();
    while let Some(r) = rest.strip_prefix("> ") {
        depth += 1;
        rest = r;
    }
    let mut parts = rest.split(" ! ");
    let mut w = parts.next().unwrap().split_whitespace();
    let bad = || format!("bad line: {line}");
    let id = w.next().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
    let actor = w.next().and_then(|x| x.strip_prefix('c')).and_then(|x| x.parse().ok()).ok_or_else(bad)?;
    let op = w.next().and_then(op_of).ok_or_else(bad)?;
    let mut a = vec![];
    for x in w {
        a.push(x.parse().map_err(|_| bad())?);
    }
    let mut s = Step::new(id, actor, op, a);
    for p in parts {
        let f: Vec<&str> = p.split_whitespace().collect();
        match f[..] {
            ["oom", n] => s.faults.push(Fault::Oom(n.parse().map_err(|_| bad())?)),
            [k, n, act] => {
                let k = *CBS.iter().find(|x| format!("{x:?}") == k).ok_or_else(bad)?;
                let act = match act {
                    "Panic" => Act::Panic,
                    "Err" => Act::Err,
                    _ => Act::Nest,
                };
                s.faults.push(Fault::Cb(k, n.parse().map_err(|_| bad())?, act));
            }
            _ => return Err(bad()),
        }
    }
    Ok((depth, s))
}

/// A header of `key value` lines, an empty line, then steps.
pub fn parse(text: &str) -> Result<(Vec<(String, String)>, Vec<Step>), String> {
    let mut head = vec![];
    let mut steps: Vec<Step> = vec![];
    let mut in_head = true;
    for line in text.lines() {
        if line.starts_with('#') {
            continue;
        }
        if in_head {
            match line.split_once(' ') {
                Some((k, v)) => head.push((k.to_string(), v.to_string())),
                None => in_head = false,
            }
            continue;
        }
        if line.trim().is_empty() {
            continue;
        }
        let (depth, s) = parse_line(line)?;
        let mut list = &mut steps;
        for _ in 0..depth {
            list = &mut list.last_mut().ok_or("nested step without an outer one")?.nest;
        }
        list.push(s);
    }
    Ok((head, steps))
}
