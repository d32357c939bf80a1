//! Clients as real threads. Exactly one thread runs at any moment: the scheduler
//! hands a step to the client's thread and waits, so the interleaving is the
//! order of the steps (nested steps run while another thread is inside the library).

use crate::item::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::mpsc::*;
use std::thread::JoinHandle;

struct Force<X>(X);
unsafe impl<X> Send for Force<X> {}
impl<X> Force<X> {
    fn get(self) -> X {
        self.0
    }
}

type Job = Force<(*const (dyn Fn() + 'static), Sender<()>)>;

thread_local! { static ME: Cell<u32> = const { Cell::new(u32::MAX) }; }

pub fn me() -> u32 {
    ME.with(|m| m.get())
}

#[derive(Default)]
pub struct Threads {
    all: RefCell<BTreeMap<u32, (Sender<Job>, JoinHandle<()>)>>,
    pub started: Cell<u64>,
    pub handoffs: Cell<u64>,
}

impl Threads {
    /// Runs something on a client's thread, and waits for it.
    pub fn on(&self, client: u32, f: &dyn Fn()) {
        if me() == client {
            return f();
        }
        let tx = {
            let mut all = self.all.borrow_mut();
            let t = all.entry(client).or_insert_with(|| {
                self.started.set(self.started.get() + 1);
                let (tx, rx) = channel::<Job>();
                let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
                    ME.with(|m| m.set(client));
                    for j in rx {
                        let (f, done) = j.get();
                        unsafe { (*f)() };
                        let _ = done.send(());
                    }
                });
                let h = h.unwrap_or_else(|e| harness(&format!("no thread: {e}")));
                (tx, h)
            });
            t.0.clone()
        };
        self.handoffs.set(self.handoffs.get() + 1);
        let f: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(f as *const dyn Fn()) };
        let (done, wait) = channel();
        if tx.send(Force((f, done))).is_err() || wait.recv().is_err() {
            harness("a client's thread is gone");
        }
    }
    /// The thread of a client ends, as with a client that crashed.
    pub fn end(&self, client: u32) {
        let t = self.all.borrow_mut().remove(&client);
        if let Some((tx, h)) = t {
            drop(tx);
            if h.join().is_err() {
                viol("panic", "a thread panicked when it ended");
            }
        }
    }
    pub fn end_all(&self) {
        let ids: Vec<u32> = self.all.borrow().keys().copied().collect();
        for i in ids {
            self.end(i);
        }
    }
}

// ---- which types may cross threads ----

struct Probe<X: ?Sized>(std::marker::PhantomData<X>);
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<X: ?Sized> No for &Probe<X> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
impl<X: ?Sized + Send> YesSend for Probe<X> {}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<X: ?Sized + Sync> YesSync for Probe<X> {}

#[allow(dead_code)]
struct Both(u32); // Send and Sync
#[allow(dead_code)]
struct OnlySend(Cell<u32>);
#[allow(dead_code)]
struct OnlySync(*const u32);
unsafe impl Sync for OnlySync {}
#[allow(dead_code)]
struct Neither(*const u32);

/// A cursor can cross threads exactly if its items can.
pub fn bounds() {
    macro_rules! row {
        ($w:ident, $t:ty, $send:expr, $sync:expr) => {{
            let p = Probe::<trees::walk::$w<$t>>(std::marker::PhantomData);
            let (a, b) = ((&p).send(), (&p).sync());
            if a != $send || b != $sync {
                viol(
                    "bounds",
                    &format!(
                        "{}<{}> is {}Send and {}Sync; it should be {}Send and {}Sync",
                        stringify!($w),
                        stringify!($t),
                        if a { "" } else { "not " },
                        if b { "" } else { "not " },
                        if $send { "" } else { "not " },
                        if $sync { "" } else { "not " }
                    ),
                );
            }
        }};
    }
    row!(TreeWalk, Both, true, true);
    row!(TreeWalk, OnlySend, true, false);
    row!(TreeWalk, OnlySync, false, true);
    row!(TreeWalk, Neither, false, false);
    row!(ForestWalk, Both, true, true);
    row!(ForestWalk, OnlySend, true, false);
    row!(ForestWalk, OnlySync, false, true);
    row!(ForestWalk, Neither, false, false);
    // Nothing else that a program can get at by mistake: these share counts that are not atomic.
    macro_rules! never {
        ($($t:ty),*) => {$({
            let p = Probe::<$t>(std::marker::PhantomData);
            if (&p).send() || (&p).sync() {
                viol("bounds", &format!("{} can cross threads", stringify!($t)));
            }
        })*};
    }
    never!(trees::RcNode<Both>, trees::WeakNode<Both>);
}
