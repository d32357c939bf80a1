//! The allocator seam: a global allocator under the simulator's control.
//!
//! Allocations made while library code runs are tracked: they have red zones,
//! are filled with a pattern, poisoned and quarantined when freed (until the
//! run ends), counted, and can be made to fail. In some runs freed memory is
//! handed out again, the last or the first freed first, so that what is new lives
//! where something else has been; in some, each allocation ends at the end of pages
//! of its own, which are taken away when it is freed, so that even to read it
//! afterwards, or behind its end, ends the process. Everything else passes through.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

const MAGIC: u64 = 0x51D3_7EE5_0A11_0CA7;
const HDR: usize = 64;
const TAIL: usize = 16;
const CANARY: u8 = 0xA7;
const FRESH: u8 = 0xCD;
const POISON: u8 = 0xDB;
/// No tracked run needs that much at once.
const CAP: u64 = 1 << 30;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    state: u32, // 0 untracked, 1 live, 2 freed
    align: u32,
    link: *mut Hdr, // the next free one of its kind
    next: *mut Hdr,
    seq: u64,
    canary: [u8; 16],
}

pub struct SimHeap;

struct List(std::cell::UnsafeCell<*mut Hdr>);
unsafe impl Sync for List {}
/// Freed memory to be used again: the first and the last of each kind.
struct Free(std::cell::UnsafeCell<[(*mut Hdr, *mut Hdr); KINDS]>);
unsafe impl Sync for Free {}
const KINDS: usize = 509;
static FREE: Free = Free(std::cell::UnsafeCell::new([(null_mut(), null_mut()); KINDS]));
static REUSE: AtomicU64 = AtomicU64::new(0);
static REUSED: AtomicU64 = AtomicU64::new(0);

fn kind(size: usize, align: usize) -> usize {
    (size ^ align << 5) % KINDS
}

/// What becomes of freed memory: 0 it is kept until the run ends, 1 the last freed is used first, 2 the first,
/// 3 its pages are taken away.
pub fn reuse(how: u64) {
    REUSE.store(how, SeqCst);
}
pub fn reused() -> u64 {
    REUSED.load(SeqCst)
}

unsafe fn poisoned(h: *mut Hdr) -> bool {
    std::slice::from_raw_parts((h as *mut u8).add(HDR), (*h).size).iter().all(|b| *b == POISON)
}

/// Puts a freed block in its list. To be called with the lock.
unsafe fn put(h: *mut Hdr, how: u64) {
    let k = &mut (*FREE.0.get())[kind((*h).size, (*h).align as usize)];
    (*h).link = null_mut();
    if k.0.is_null() {
        *k = (h, h);
    } else if how == 1 {
        (*h).link = k.0;
        k.0 = h;
    } else {
        (*k.1).link = h;
        k.1 = h;
    }
}
/// Takes a block out of its list. To be called with the lock.
unsafe fn take(size: usize, align: usize) -> *mut Hdr {
    let k = &mut (*FREE.0.get())[kind(size, align)];
    let h = k.0;
    if h.is_null() || (*h).size != size || (*h).align as usize != align {
        return null_mut();
    }
    k.0 = (*h).link;
    h
}

const PAGE: usize = 4096;
const PAGES: usize = 1 << 17;
/// The kernel's limit of mappings per process is 65530, and there are two for each block.
const FENCED: usize = 20_000;
#[derive(Clone, Copy)]
struct Own {
    size: usize,
    state: u32, // 0 not the first page of a block, 1 live, 2 freed
    pages: u32,
}
/// The blocks with pages of their own.
struct Fence {
    base: *mut u8,
    used: usize,
    blocks: usize,
    own: [Own; PAGES],
}
struct Fences(std::cell::UnsafeCell<Fence>);
unsafe impl Sync for Fences {}
static FENCE: Fences = Fences(std::cell::UnsafeCell::new(Fence {
    base: null_mut(),
    used: 0,
    blocks: 0,
    own: [Own { size: 0, state: 0, pages: 0 }; PAGES],
}));
static ARENA: AtomicUsize = AtomicUsize::new(0);
static FENCES: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PROT_NONE: i32 = 0;
const PROT_RW: i32 = 3;
const MAP_FRESH: i32 = 0x4022; // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
const MAP_FIXED: i32 = 0x10;

pub fn fenced() -> u64 {
    FENCES.load(SeqCst)
}

/// Memory that ends at the end of pages of its own. To be called with the lock.
unsafe fn fence(size: usize, align: usize) -> *mut u8 {
    let f = &mut *FENCE.0.get();
    if f.base.is_null() {
        let base = mmap(null_mut(), PAGES * PAGE, PROT_NONE, MAP_FRESH, -1, 0);
        if base as isize == -1 {
            return null_mut();
        }
        f.base = base;
        ARENA.store(base as usize, SeqCst);
    }
    let room = size.next_multiple_of(align);
    let pages = room.div_ceil(PAGE);
    if align > PAGE || pages > 1024 || f.blocks == FENCED || f.used + pages + 1 > PAGES {
        return null_mut();
    }
    let start = f.base.add(f.used * PAGE);
    if mprotect(start, pages * PAGE, PROT_RW) != 0 {
        return null_mut();
    }
    f.own[f.used] = Own { size, state: 1, pages: pages as u32 };
    f.used += pages + 1;
    f.blocks += 1;
    start.write_bytes(CANARY, pages * PAGE);
    start.add(pages * PAGE - room)
}

/// The page at which a block with pages of its own begins.
fn own(user: *mut u8) -> Option<usize> {
    let base = ARENA.load(Relaxed);
    let at = (user as usize).wrapping_sub(base);
    if base != 0 && at < PAGES * PAGE {
        Some(at / PAGE)
    } else {
        None
    }
}

unsafe fn fence_ok(user: *mut u8, page: usize) -> bool {
    let f = &*FENCE.0.get();
    let start = f.base.add(page * PAGE);
    let o = &f.own[page];
    let end = start.add(o.pages as usize * PAGE);
    let before = std::slice::from_raw_parts(start, user.offset_from(start) as usize);
    let behind = user.add(o.size);
    let behind = std::slice::from_raw_parts(behind, end.offset_from(behind) as usize);
    before.iter().chain(behind).all(|b| *b == CANARY)
}

/// Takes away a block with pages of its own. To be called with the lock.
unsafe fn unfence(user: *mut u8, size: usize, page: usize) {
    let f = &mut *FENCE.0.get();
    match f.own[page].state {
        0 => bad(BAD_MAGIC),
        1 => {
            if f.own[page].size != size {
                bad(BAD_SIZE);
            }
            if !fence_ok(user, page) {
                bad(BAD_ZONE);
            }
            let o = &mut f.own[page];
            o.state = 2;
            LIVE.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(o.size as u64, Relaxed);
            FREED_BYTES.fetch_add(o.size as u64, Relaxed);
            if mprotect(f.base.add(page * PAGE), o.pages as usize * PAGE, PROT_NONE) != 0 {
                user.write_bytes(POISON, size);
            }
        }
        _ => bad(BAD_DOUBLE),
    }
}

/// Gives all the pages back. Returns the number of blocks still live and the size of one. To be called with the lock.
unsafe fn end_fence() -> (u64, usize) {
    let f = &mut *FENCE.0.get();
    let (mut leaks, mut size) = (0, 0);
    if f.used > 0 {
        for page in 0..f.used {
            if f.own[page].state == 1 {
                leaks += 1;
                size = f.own[page].size;
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub(size as u64, Relaxed);
            }
            f.own[page].state = 0;
        }
        if mmap(f.base, f.used * PAGE, PROT_NONE, MAP_FRESH | MAP_FIXED, -1, 0) != f.base {
            std::process::abort();
        }
        f.used = 0;
        f.blocks = 0;
    }
    (leaks, size)
}

static HEAD: List = List(std::cell::UnsafeCell::new(null_mut()));
static LOCK: AtomicBool = AtomicBool::new(false);

static FAIL_IN: AtomicI64 = AtomicI64::new(-1); // allocations to go until failure, <0: off
static FAILED: AtomicU64 = AtomicU64::new(0);
static TRACKED: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
static FREED_BYTES: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);

thread_local! { static IN_LIB: Cell<bool> = const { Cell::new(false) }; }

/// Says whether library code is running on this thread; returns the former state.
pub fn set_in_lib(x: bool) -> bool {
    IN_LIB.with(|c| c.replace(x))
}
pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}

/// The n-th tracked allocation from now (0 = the next one) fails.
pub fn fail_in(n: i64) {
    FAIL_IN.store(n, SeqCst);
}
pub fn disarm() {
    FAIL_IN.store(-1, SeqCst);
}
pub fn failures() -> u64 {
    FAILED.load(SeqCst)
}
/// Bytes of a run, those already freed included.
pub fn bytes() -> u64 {
    LIVE_BYTES.load(SeqCst) + FREED_BYTES.load(SeqCst)
}
pub fn tracked() -> u64 {
    TRACKED.load(SeqCst)
}
pub fn live() -> u64 {
    LIVE.load(SeqCst)
}

fn lock() {
    while LOCK.compare_exchange_weak(false, true, SeqCst, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, SeqCst);
}

const BAD_MAGIC: u64 = 1;
const BAD_DOUBLE: u64 = 2;
const BAD_SIZE: u64 = 3;
const BAD_ZONE: u64 = 4;
const BAD_WAF: u64 = 5;

fn bad(code: u64) {
    let _ = BAD.compare_exchange(0, code, SeqCst, SeqCst);
}

/// The first heap rule found broken, if any.
pub fn complaint() -> Option<&'static str> {
    match BAD.load(SeqCst) {
        0 => None,
        BAD_MAGIC => Some("free of memory that was not allocated, or its header was overwritten"),
        BAD_DOUBLE => Some("double free"),
        BAD_SIZE => Some("memory freed with a size other than it was allocated with"),
        BAD_ZONE => Some("write outside of an allocation"),
        _ => Some("write to memory after it was freed"),
    }
}

fn off(align: usize) -> usize {
    HDR.max(align)
}

unsafe fn zones_ok(h: *mut Hdr) -> bool {
    let user = (h as *mut u8).add(HDR);
    (*h).canary.iter().all(|b| *b == CANARY)
        && (0..TAIL).all(|i| *user.add((*h).size + i) == CANARY)
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let tracked = in_lib() && !std::thread::panicking();
        if tracked {
            TRACKED.fetch_add(1, Relaxed);
            let n = FAIL_IN.load(Relaxed);
            if n >= 0 {
                FAIL_IN.store(n - 1, Relaxed);
                if n == 0 {
                    FAILED.fetch_add(1, Relaxed);
                    return null_mut();
                }
            }
            if LIVE_BYTES.load(Relaxed) + FREED_BYTES.load(Relaxed) + layout.size() as u64 > CAP {
                return null_mut();
            }
        }
        if tracked && REUSE.load(Relaxed) == 3 && layout.size() > 0 {
            lock();
            let user = fence(layout.size(), layout.align());
            unlock();
            if !user.is_null() {
                user.write_bytes(FRESH, layout.size());
                FENCES.fetch_add(1, Relaxed);
                LIVE.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(layout.size() as u64, Relaxed);
                return user;
            }
        } else if tracked && REUSE.load(Relaxed) > 0 && layout.size() > 0 {
            lock();
            let h = take(layout.size(), layout.align());
            unlock();
            if !h.is_null() {
                if (*h).state != 2 || !poisoned(h) {
                    bad(BAD_WAF);
                }
                let user = (h as *mut u8).add(HDR);
                (*h).state = 1;
                user.write_bytes(FRESH, layout.size());
                REUSED.fetch_add(1, Relaxed);
                LIVE.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(layout.size() as u64, Relaxed);
                FREED_BYTES.fetch_sub(layout.size() as u64, Relaxed);
                return user;
            }
        }
        let o = off(layout.align());
        let total = match layout.size().checked_add(o + TAIL) {
            Some(t) if t < isize::MAX as usize - 4096 => t,
            _ => return null_mut(),
        };
        let base = System.alloc(Layout::from_size_align_unchecked(total, layout.align().max(16)));
        if base.is_null() {
            return base;
        }
        let user = base.add(o);
        let h = user.sub(HDR) as *mut Hdr;
        h.write(Hdr {
            magic: MAGIC,
            size: layout.size(),
            state: tracked as u32,
            align: layout.align() as u32,
            link: null_mut(),
            next: null_mut(),
            seq: 0,
            canary: [CANARY; 16],
        });
        user.add(layout.size()).write_bytes(CANARY, TAIL);
        if tracked {
            user.write_bytes(FRESH, layout.size());
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(layout.size() as u64, Relaxed);
            (*h).seq = TRACKED.load(Relaxed);
            lock();
            (*h).next = *HEAD.0.get();
            *HEAD.0.get() = h;
            unlock();
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        if let Some(page) = own(user) {
            lock();
            unfence(user, layout.size(), page);
            unlock();
            return;
        }
        let h = user.sub(HDR) as *mut Hdr;
        if (*h).magic != MAGIC {
            bad(BAD_MAGIC);
            return;
        }
        match (*h).state {
            0 => {
                if !zones_ok(h) {
                    bad(BAD_ZONE);
                    return;
                }
                let o = off(layout.align());
                System.dealloc(
                    user.sub(o),
                    Layout::from_size_align_unchecked((*h).size + o + TAIL, layout.align().max(16)),
                );
            }
            1 => {
                if !zones_ok(h) {
                    bad(BAD_ZONE);
                }
                if (*h).size != layout.size() {
                    bad(BAD_SIZE);
                }
                (*h).state = 2;
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub((*h).size as u64, Relaxed);
                FREED_BYTES.fetch_add((*h).size as u64, Relaxed);
                user.write_bytes(POISON, (*h).size);
                let how = REUSE.load(Relaxed);
                if (how == 1 || how == 2) && (*h).size > 0 && zones_ok(h) {
                    lock();
                    put(h, how);
                    unlock();
                }
            }
            _ => bad(BAD_DOUBLE),
        }
    }
}

/// Ends a run: verifies the quarantine and gives it back. Returns the number
/// of tracked allocations still live and the size of the first of them.
pub fn end_run() -> (u64, usize) {
    let mut leaks;
    let mut size;
    unsafe {
        lock();
        (leaks, size) = end_fence();
        let mut h = *HEAD.0.get();
        *HEAD.0.get() = null_mut();
        (*FREE.0.get()).fill((null_mut(), null_mut()));
        unlock();
        while !h.is_null() {
            let next = (*h).next;
            let user = (h as *mut u8).add(HDR);
            if (*h).magic != MAGIC {
                bad(BAD_ZONE);
                return (leaks, size); // the list itself is damaged
            }
            if !zones_ok(h) {
                bad(BAD_ZONE);
            }
            if (*h).state == 2 {
                if !poisoned(h) {
                    bad(BAD_WAF);
                }
            } else {
                leaks += 1;
                size = (*h).size;
                LIVE.fetch_sub(1, Relaxed);
                LIVE_BYTES.fetch_sub((*h).size as u64, Relaxed);
            }
            let align = (*h).align as usize;
            let o = off(align);
            System.dealloc(
                user.sub(o),
                Layout::from_size_align_unchecked((*h).size + o + TAIL, align.max(16)),
            );
            h = next;
        }
    }
    FREED_BYTES.store(0, SeqCst);
    (leaks, size)
}

/// Turns allocation failures off and says what was pending, for `fail_in`.
pub fn suspend() -> i64 {
    FAIL_IN.swap(-1, SeqCst)
}
