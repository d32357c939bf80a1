//! The item seam: every item stored in a tree is one of the simulator's, so each
//! callback of the library into user code (drop, clone, comparison, hashing,
//! formatting, mapping closures, source iterators) is a place where the simulator
//! checks the item, and where it can inject a panic, an error or further steps.

use crate::heap;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cb {
    Drop,
    Clone,
    Eq,
    Cmp,
    Hash,
    Fmt,
    Map,
    Src,
    Sink,
}
pub const CBS: [Cb; 9] = [Cb::Drop, Cb::Clone, Cb::Eq, Cb::Cmp, Cb::Hash, Cb::Fmt, Cb::Map, Cb::Src, Cb::Sink];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Panic,
    Err,
    Nest,
}

#[derive(Clone, Copy, Debug)]
pub struct Arm {
    pub kind: Cb,
    pub nth: u32,
    pub act: Act,
    pub done: bool,
}

pub struct SimPanic;
pub struct AllocPanic;

pub struct Rec {
    pub alive: bool,
    pub val: u32,
    pub src: u32,
}

pub trait Nest {
    fn nested(&self);
}

pub struct Env {
    pub ledger: RefCell<Vec<Rec>>,
    pub dropped: RefCell<Vec<u32>>,
    pub arms: RefCell<Vec<Arm>>,
    pub fired: Cell<u32>,         // panics fired in the current primary call
    pub fired_err: Cell<u32>,     // errors fired in the current primary call
    pub fired_all: RefCell<[[u64; 3]; 9]>, // kind x act
    pub nest: Cell<Option<*const dyn Nest>>,
    pub calls: RefCell<[u64; 9]>,
    pub where_: Cell<u32>, // step id
    pub nan: Cell<bool>,   // the value NAN is equal to nothing and comes before or after nothing
}

/// One for all threads: exactly one of them runs at any moment.
pub struct Global(Env);
unsafe impl Sync for Global {}
impl Global {
    pub fn with<R>(&self, f: impl FnOnce(&Env) -> R) -> R {
        f(&self.0)
    }
}
pub static ENV: Global = Global(Env {
    ledger: RefCell::new(Vec::new()),
    dropped: RefCell::new(Vec::new()),
    arms: RefCell::new(Vec::new()),
    fired: Cell::new(0),
    fired_err: Cell::new(0),
    fired_all: RefCell::new([[0; 3]; 9]),
    nest: Cell::new(None),
    calls: RefCell::new([0; 9]),
    where_: Cell::new(0),
    nan: Cell::new(false),
});

extern "C" {
    fn _exit(code: i32) -> !;
}

pub const EXIT_VIOLATION: i32 = 77;
pub const EXIT_HARNESS: i32 = 70;

pub fn exit_now(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

/// Reports a violation and ends the process: nothing that runs afterwards can mask it.
pub fn viol(class: &str, msg: &str) -> ! {
    heap::set_in_lib(false);
    heap::disarm();
    let step = ENV.with(|e| e.where_.get());
    println!("\nVIOL {class} step {step}: {msg}");
    exit_now(EXIT_VIOLATION)
}

pub fn harness(msg: &str) -> ! {
    heap::set_in_lib(false);
    heap::disarm();
    println!("\nHARNESS {msg}");
    exit_now(EXIT_HARNESS)
}

/// Library code has called out: what runs until this is dropped is not library code.
pub struct Outside(bool);
impl Outside {
    pub fn new() -> Outside {
        Outside(heap::set_in_lib(false))
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        heap::set_in_lib(self.0);
    }
}
pub fn ext<R>(f: impl FnOnce() -> R) -> R {
    let _o = Outside::new();
    f()
}

/// A callback of this kind happens. Returns true if it is to return an error.
pub fn cb(kind: Cb) -> bool {
    let act = ENV.with(|e| {
        e.calls.borrow_mut()[kind as usize] += 1;
        // A callback made while a panic unwinds must not panic, but it may use the library.
        let unwinding = std::thread::panicking();
        let mut res = None;
        for a in e.arms.borrow_mut().iter_mut() {
            if a.kind == kind && !a.done && (!unwinding || a.act == Act::Nest) {
                if a.nth == 0 {
                    if res.is_none() {
                        a.done = true;
                        res = Some(a.act);
                    }
                } else {
                    a.nth -= 1;
                }
            }
        }
        if let Some(act) = res {
            e.fired_all.borrow_mut()[kind as usize][act as usize] += 1;
            match act {
                Act::Panic => e.fired.set(e.fired.get() + 1),
                Act::Err => e.fired_err.set(e.fired_err.get() + 1),
                Act::Nest => (),
            }
        }
        res
    });
    match act {
        None => false,
        Some(Act::Panic) => std::panic::panic_any(SimPanic),
        Some(Act::Err) => true,
        Some(Act::Nest) => {
            // Further steps run inside the callback, with the faults of the outer step suspended.
            let saved = ENV.with(|e| std::mem::take(&mut *e.arms.borrow_mut()));
            let oom = heap::suspend();
            let fired = ENV.with(|e| (e.fired.get(), e.fired_err.get()));
            let nest = ENV.with(|e| e.nest.get());
            if let Some(n) = nest {
                unsafe { (*n).nested() }
            }
            ENV.with(|e| {
                *e.arms.borrow_mut() = saved;
                e.fired.set(fired.0);
                e.fired_err.set(fired.1);
            });
            heap::fail_in(oom);
            false
        }
    }
}

/// The value that can act as one that is not equal to itself.
pub const NAN: u32 = 16;

pub trait Payload: 'static + Unpin {
    const NAME: &'static str;
    fn make(id: u32) -> Self;
    fn ok(&self, id: u32) -> bool;
}

pub struct Small;
impl Payload for Small {
    const NAME: &'static str = "small";
    fn make(_: u32) -> Self {
        Small
    }
    fn ok(&self, _: u32) -> bool {
        true
    }
}

#[repr(align(64))]
pub struct Large([u32; 24]);
impl Payload for Large {
    const NAME: &'static str = "large";
    fn make(id: u32) -> Self {
        Large([id.wrapping_mul(0x9E3779B1); 24])
    }
    fn ok(&self, id: u32) -> bool {
        self.0.iter().all(|x| *x == id.wrapping_mul(0x9E3779B1))
    }
}

const MAGIC: u32 = 0x17E3_A11E;
const DEAD: u32 = 0xDEAD_17E3;

fn chk(id: u32, val: u32) -> u32 {
    (id.wrapping_mul(0x85EB_CA6B) ^ val.wrapping_mul(0xC2B2_AE35)).rotate_left(13) ^ 0x5bd1_e995
}

/// What an item may own besides its value; dropped with it.
pub trait Att {}

pub struct It<P: Payload> {
    magic: u32,
    id: u32,
    val: u32,
    chk: u32,
    att: ManuallyDrop<Vec<Box<dyn Att>>>,
    pad: P,
}

impl<P: Payload> It<P> {
    fn with(val: u32, src: u32) -> It<P> {
        let id = ENV.with(|e| {
            let mut l = e.ledger.borrow_mut();
            l.push(Rec { alive: true, val, src });
            l.len() as u32 - 1
        });
        It { magic: MAGIC, id, val, chk: chk(id, val), att: ManuallyDrop::new(Vec::new()), pad: P::make(id) }
    }
    pub fn new(val: u32) -> It<P> {
        Self::with(val, NONE)
    }
    /// Verifies that this is a live item in its own memory.
    fn check(&self, what: &str) {
        if self.magic == MAGIC && self.chk == chk(self.id, self.val) && self.pad.ok(self.id) {
            ENV.with(|e| {
                let l = e.ledger.borrow();
                match l.get(self.id as usize) {
                    Some(r) if r.alive && r.val == self.val => (),
                    Some(r) if r.alive => viol("item", &format!("item {} {what} with a value it never had", self.id)),
                    Some(_) => viol("use-after-drop", &format!("item {} {what} after it was dropped", self.id)),
                    None => viol("item", &format!("an item that never existed was {what}")),
                }
            });
        } else if self.magic == DEAD {
            viol("use-after-drop", &format!("item {} {what} after it was dropped", self.id));
        } else {
            viol("item", &format!("memory that holds no item was {what} as an item ({:#x} {:#x})", self.magic, self.id));
        }
    }
    pub fn id(&self) -> u32 {
        let _o = Outside::new();
        self.check("read");
        self.id
    }
    pub fn val(&self) -> u32 {
        let _o = Outside::new();
        self.check("read");
        self.val
    }
    pub fn set_val(&mut self, val: u32) {
        let _o = Outside::new();
        self.check("written");
        self.val = val;
        self.chk = chk(self.id, val);
        ENV.with(|e| e.ledger.borrow_mut()[self.id as usize].val = val);
    }
    pub fn attach(&mut self, a: Box<dyn Att>) {
        let _o = Outside::new();
        self.check("written");
        self.att.push(a);
    }
}

impl<P: Payload> Drop for It<P> {
    fn drop(&mut self) {
        let _o = Outside::new();
        self.check("dropped");
        self.magic = DEAD;
        ENV.with(|e| {
            e.ledger.borrow_mut()[self.id as usize].alive = false;
            e.dropped.borrow_mut().push(self.id);
        });
        let att = unsafe { ManuallyDrop::take(&mut self.att) };
        cb(Cb::Drop);
        drop(att);
    }
}

impl<P: Payload> Clone for It<P> {
    fn clone(&self) -> It<P> {
        let _o = Outside::new();
        self.check("cloned");
        cb(Cb::Clone);
        self.check("cloned");
        It::with(self.val, self.id)
    }
}

impl<P: Payload> PartialEq for It<P> {
    fn eq(&self, o: &It<P>) -> bool {
        let _o = Outside::new();
        self.check("compared");
        o.check("compared");
        cb(Cb::Eq);
        self.val == o.val && !(self.val == NAN && ENV.with(|e| e.nan.get()))
    }
}
impl<P: Payload> Eq for It<P> {}
impl<P: Payload> PartialOrd for It<P> {
    fn partial_cmp(&self, o: &It<P>) -> Option<Ordering> {
        let r = self.cmp(o);
        if ENV.with(|e| e.nan.get()) && (self.val == NAN || o.val == NAN) {
            None
        } else {
            Some(r)
        }
    }
}
impl<P: Payload> Ord for It<P> {
    fn cmp(&self, o: &It<P>) -> Ordering {
        let _o = Outside::new();
        self.check("compared");
        o.check("compared");
        cb(Cb::Cmp);
        self.val.cmp(&o.val)
    }
}
impl<P: Payload> Hash for It<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let _o = Outside::new();
        self.check("hashed");
        cb(Cb::Hash);
        h.write_u32(self.val);
    }
}

fn fmt_item(tag: &str, val: u32, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str(tag)?;
    if cb(Cb::Fmt) {
        return Err(fmt::Error);
    }
    write!(f, "{val}")
}
impl<P: Payload> fmt::Display for It<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let _o = Outside::new();
        self.check("formatted");
        fmt_item("v", self.val, f)
    }
}
impl<P: Payload> fmt::Debug for It<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let _o = Outside::new();
        self.check("formatted");
        fmt_item("D", self.val, f)
    }
}

/// An output sink that fails after a number of bytes.
pub struct Sink {
    pub buf: String,
    pub limit: Option<usize>,
    pub panic: bool,
    pub failed: bool,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _o = Outside::new();
        if self.failed || ENV.with(|e| e.fired.get() + e.fired_err.get() > 0) {
            viol("write-after-failure", &format!("{s:?} was written after the rendering had failed"));
        }
        self.buf.push_str(s);
        if let Some(n) = self.limit {
            if self.buf.len() > n {
                self.buf.truncate(n);
                self.failed = true;
                ENV.with(|e| {
                    let act = if self.panic { Act::Panic } else { Act::Err };
                    e.fired_all.borrow_mut()[Cb::Sink as usize][act as usize] += 1;
                    if self.panic {
                        e.fired.set(e.fired.get() + 1)
                    } else {
                        e.fired_err.set(e.fired_err.get() + 1)
                    }
                });
                if self.panic {
                    std::panic::panic_any(SimPanic);
                }
                return Err(fmt::Error);
            }
        }
        Ok(())
    }
}

// ---- calls into the library ----

pub enum Out<R> {
    Ok(R),
    Sim,
    Alloc,
    Lib(String),
}

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        heap::set_in_lib(false);
        let p = info.payload();
        if p.is::<SimPanic>() || p.is::<AllocPanic>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        if loc.0.starts_with("src/") {
            harness(&format!("panic in the harness at {}:{}: {msg}", loc.0, loc.1));
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{msg} at {}:{}", loc.0, loc.1));
    }));
    std::alloc::set_alloc_error_hook(|_| {
        heap::set_in_lib(false);
        std::panic::panic_any(AllocPanic)
    });
}

/// Runs library code.
pub fn call<R>(f: impl FnOnce() -> R) -> Out<R> {
    let was = heap::set_in_lib(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    heap::set_in_lib(false);
    let out = match r {
        Ok(r) => Out::Ok(r),
        Err(p) => {
            if p.is::<SimPanic>() {
                Out::Sim
            } else if p.is::<AllocPanic>() {
                Out::Alloc
            } else {
                Out::Lib(LAST.with(|l| l.borrow().clone()))
            }
        }
    };
    heap::set_in_lib(was);
    out
}

/// Between runs.
pub fn reset() {
    ENV.with(|e| {
        e.ledger.borrow_mut().clear();
        e.dropped.borrow_mut().clear();
        e.arms.borrow_mut().clear();
        e.fired.set(0);
        e.fired_err.set(0);
        e.nest.set(None);
        e.nan.set(false);
        e.where_.set(0);
    });
}
