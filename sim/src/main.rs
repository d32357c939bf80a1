#![feature(alloc_error_hook)]
//! Deterministic simulation of the `trees` crate. See /verif/DESIGN.md.

mod build;
mod gen;
mod heap;
mod item;
mod model;
mod giant;
mod plain;
mod rng;
mod snap;
mod stats;
mod threads;
mod trace;
mod tupleop;
#[cfg_attr(feature = "wide", path = "tuples_wide.rs")]
mod tuples;
mod walkm;
mod world;

use item::*;
use stats::Total;
use std::io::Write;
use trace::*;
use world::*;

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

#[repr(C)]
struct TimeVal(i64, i64);
#[repr(C)]
struct ITimerVal(TimeVal, TimeVal);
extern "C" {
    fn setitimer(which: i32, new: *const ITimerVal, old: *mut ITimerVal) -> i32;
}
/// A run that computes for that long hangs: the signal ends the process.
fn watchdog(seconds: i64) {
    let t = ITimerVal(TimeVal(0, 0), TimeVal(seconds, 0));
    unsafe { setitimer(1, &t, std::ptr::null_mut()) };
}
fn run_seconds() -> i64 {
    std::env::var("SIM_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(20)
}

pub fn seed_of(prop: &str, seed: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    rng::mix(h ^ rng::mix(seed))
}

/// What a run leaves behind.
pub struct Done {
    pub hash: u64,
    pub lines: Vec<String>,
}

fn end_world<P: Payload>(w: World<P>, last: u32, total: &mut Total) -> Done {
    w.finish(last + 1000);
    if let Some(c) = heap::complaint() {
        viol("heap", c);
    }
    total.add(&w);
    let done = Done { hash: w.hash.get(), lines: w.lines.take() };
    drop(w);
    let (leaks, size) = heap::end_run();
    if let Some(c) = heap::complaint() {
        viol("heap", c);
    }
    if leaks > 0 {
        viol("leak", &format!("{leaks} allocations are left when everything was dropped, one of {size} bytes"));
    }
    reset();
    done
}

/// Runs a seed: steps are chosen as the run goes.
fn generate<P: Payload>(g: &mut gen::Gen, cfg: Cfg, trace: bool, total: &mut Total, keep: Option<&mut Vec<Step>>) -> Done {
    let w = World::<P>::new(cfg);
    let mut id = 1;
    let mut kept = vec![];
    for _ in 0..g.steps {
        let st = g.next(&w, &mut id);
        if trace {
            print!("{}", st.text());
            let _ = std::io::stdout().flush();
        }
        w.step(&st);
        total.state(&w);
        if keep.is_some() {
            kept.push(st);
        }
    }
    if let Some(k) = keep {
        *k = kept;
    }
    end_world(w, 100000, total)
}

fn play<P: Payload>(steps: &[Step], cfg: Cfg, total: &mut Total) -> Done {
    let w = World::<P>::new(cfg);
    for st in steps {
        w.step(st);
        total.state(&w);
    }
    end_world(w, 100000, total)
}

fn layouts(a: &Done, b: &Done, what: &str) {
    if a.hash != b.hash {
        let mut why = String::new();
        for (x, y) in a.lines.iter().zip(&b.lines) {
            if x != y {
                why = format!(": {x:?} against {y:?}");
                break;
            }
        }
        viol("layout", &format!("the same history has other answers with {what} storage{why}"));
    }
}

fn one<P: Payload>(prop: &str, g: &mut gen::Gen, cfg: Cfg, trace: bool, total: &mut Total) -> Done {
    if prop == "C13" {
        let mut steps = vec![];
        let a = generate::<P>(g, cfg.clone(), trace, total, Some(&mut steps));
        let b = play::<P>(&steps, Cfg { layout: Some(0), ..cfg.clone() }, total);
        layouts(&a, &b, "scattered");
        let b = play::<P>(&steps, Cfg { layout: Some(1), ..cfg }, total);
        layouts(&a, &b, "contiguous");
        a
    } else {
        generate::<P>(g, cfg, trace, total, None)
    }
}

fn run_seed(prop: &str, seed: u64, trace: bool, record: bool, total: &mut Total) -> Done {
    let (_, p) = gen::profile(prop).unwrap_or_else(|| harness("no such property"));
    let (mut g, rc) = gen::Gen::new(p, seed_of(prop, seed));
    if trace {
        println!("property {prop}\nseed {seed}\nlarge {}\ncadence {}\nreuse {}\n", rc.large as u32, rc.cadence, rc.reuse);
    }
    let cfg = Cfg { layout: None, cadence: rc.cadence, record, threads: prop == "C12" };
    heap::reuse(rc.reuse);
    watchdog(run_seconds());
    if prop == "C12" {
        threads::bounds();
    }
    if rc.large {
        one::<Large>(prop, &mut g, cfg, trace, total)
    } else {
        one::<Small>(prop, &mut g, cfg, trace, total)
    }
}

fn replay(file: &str, record: bool) -> (String, Done) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| harness(&format!("{file}: {e}")));
    let (head, steps) = parse(&text).unwrap_or_else(|e| harness(&e));
    let get = |k: &str| head.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    let prop = get("property").unwrap_or_default();
    let cfg = Cfg { layout: None, cadence: num("cadence"), record, threads: prop == "C12" };
    let mut total = Total::new();
    heap::reuse(num("reuse"));
    watchdog(run_seconds());
    fn go<P: Payload>(prop: &str, steps: &[Step], cfg: Cfg, total: &mut Total) -> Done {
        let a = play::<P>(steps, cfg.clone(), total);
        if prop == "C13" {
            let cfg = Cfg { record: true, ..cfg };
            let a = play::<P>(steps, cfg.clone(), total);
            let b = play::<P>(steps, Cfg { layout: Some(0), ..cfg.clone() }, total);
            layouts(&a, &b, "scattered");
            let b = play::<P>(steps, Cfg { layout: Some(1), ..cfg }, total);
            layouts(&a, &b, "contiguous");
        }
        a
    }
    if prop == "C12" {
        threads::bounds();
    }
    let d = if num("large") == 1 { go::<Large>(&prop, &steps, cfg, &mut total) } else { go::<Small>(&prop, &steps, cfg, &mut total) };
    (prop, d)
}

fn main() {
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let s = |i: usize| args.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or_else(|_| harness("bad argument"));
    match s(1) {
        // run PROP FROM TO STRIDE FILE: the progress is on stdout, the sums go to the file.
        "run" => {
            let (prop, from, to, stride) = (s(2), n(3), n(4), n(5));
            let mut total = Total::new();
            let out = std::io::stdout();
            let mut seed = from;
            // Real time only decides how many seeds are run, never what a run does.
            let until = if s(7).is_empty() { None } else { Some((std::time::Instant::now(), n(7))) };
            while seed < to {
                if until.as_ref().is_some_and(|(t, n)| t.elapsed().as_secs() >= *n) {
                    break;
                }
                {
                    let mut o = out.lock();
                    let _ = writeln!(o, "S {seed}");
                    let _ = o.flush();
                }
                let d = run_seed(prop, seed, false, false, &mut total);
                total.run(seed, d.hash);
                if std::env::var_os("SIM_HASHES").is_some() {
                    println!("H {seed} {:016x}", d.hash);
                }
                seed += stride;
            }
            watchdog(0);
            total.write(s(6));
            println!("DONE");
        }
        "trace" => {
            let d = run_seed(s(2), n(3), true, false, &mut Total::new());
            println!("# end {:016x}", d.hash);
        }
        "lines" => {
            let d = run_seed(s(2), n(3), false, true, &mut Total::new());
            for l in d.lines {
                println!("{l}");
            }
        }
        "replay" => {
            let (_, d) = replay(s(2), s(3) == "lines");
            for l in d.lines {
                println!("{l}");
            }
            println!("HELD {:016x}", d.hash);
        }
        _ => harness("usage: run|trace|lines|replay"),
    }
}
