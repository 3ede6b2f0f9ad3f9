//! Every seam between the library and the outside world, owned by the simulator:
//!   * thread scheduling  - real threads, but exactly one holds the baton; it can only change hands
//!                          at intercepted points (allocations, log records, I/O calls, callbacks)
//!   * file I/O           - the libc entry points std uses (open/read/...) are defined by this
//!                          executable, so they shadow libc's for all code linked into it
//!   * entropy            - getrandom(2) through both of its entry points
//!   * logging            - the process-wide `log` logger
//! The library under test is compiled unmodified.

use crate::rng::{fnv, Rng, FNV0};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};

// ------------------------------------------------------------------ per-thread state

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// this thread takes part in the simulation and holds the baton
    static SIMULATED: Cell<bool> = const { Cell::new(false) };
    static HOOK: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_FAULTS: Cell<u32> = const { Cell::new(0) };
    static CANCEL: Cell<u32> = const { Cell::new(0) };
    static NESTED: Cell<(u32, u32, fn())> = const { Cell::new((0, 0, nothing)) };
    static NESTED_N: Cell<u64> = const { Cell::new(0) };
    static NESTING: Cell<bool> = const { Cell::new(false) };
    static LOGGED: Cell<u64> = const { Cell::new(0) };
    static IO: RefCell<Option<IoCtx>> = const { RefCell::new(None) };
    static ERRLOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn nothing() {}

pub const K_ALLOC: u8 = 0;
pub const K_LOG: u8 = 1;
pub const K_IO: u8 = 2;
pub const K_CB: u8 = 3;
pub const K_OP: u8 = 4;
pub const K_END: u8 = 5;
/// a library thread waits for a lock another simulated thread holds
pub const K_WAIT: u8 = 6;
/// between two memory accesses or at a branch of the (instrumented) library code
pub const K_FINE: u8 = 7;
pub const KINDS: [&str; 8] = ["alloc", "log", "io", "callback", "op", "exit", "lockwait", "instruction"];

// ------------------------------------------------------------------ scheduler

pub const MAX_THREADS: usize = 4;

#[derive(Default)]
pub struct Sched {
    cur: usize,
    n: usize,
    alive: [bool; MAX_THREADS],
    pub step: u64,
    pub switches: Vec<(u64, u8)>,
    explicit: Option<BTreeMap<u64, u8>>,
    rng: Option<Rng>,
    /// preemption probability per yield kind, in 1/1000
    probs: [usize; 6],
    pub hash: u64,
    pub yields: [u64; 8],
    /// mean number of instrumented points between two preemptions there; 0: none
    fine: u64,
    /// accesses to static memory seen in this run: rarely touched ones are likelier to preempt
    statics: BTreeMap<usize, u64>,
}

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CVS: [Condvar; MAX_THREADS] = [const { Condvar::new() }; MAX_THREADS];
static MULTI: AtomicBool = AtomicBool::new(false);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn lock() -> MutexGuard<'static, Option<Sched>> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn sched_start(n: usize, explicit: Option<&[(u64, u8)]>, seed: u64, probs: [usize; 6], fine: u64) {
    let mut s = Sched {
        n,
        probs,
        fine,
        hash: FNV0,
        ..Default::default()
    };
    for a in s.alive.iter_mut().take(n) {
        *a = true;
    }
    s.explicit = explicit.map(|e| e.iter().cloned().collect());
    s.rng = Some(Rng::new(seed));
    s.switches.reserve(256);
    POINTS.store(0, Ordering::SeqCst);
    let next = s.next_fine(0);
    NEXT_FINE.store(next, Ordering::SeqCst);
    STATIC_BIAS.store(fine > 0 && s.explicit.is_none(), Ordering::SeqCst);
    *lock() = Some(s);
    MULTI.store(n > 1, Ordering::SeqCst);
}

pub fn sched_stop() -> Sched {
    MULTI.store(false, Ordering::SeqCst);
    lock().take().unwrap()
}

/// Steps of the explicit schedule above this are counts of instrumented points.
const FINE_BASE: u64 = 1 << 48;
/// A thread that does this much without any other preemption may be spinning for another one.
const SPIN_LIMIT: u64 = 3_000_000;
/// instrumented points passed in this run
static POINTS: AtomicU64 = AtomicU64::new(0);
/// the next one at which the scheduler has to be asked
static NEXT_FINE: AtomicU64 = AtomicU64::new(u64::MAX);
static STATIC_BIAS: AtomicBool = AtomicBool::new(false);

impl Sched {
    fn next_fine(&mut self, now: u64) -> u64 {
        let limit = now + SPIN_LIMIT;
        if let Some(e) = &self.explicit {
            return e.range(FINE_BASE + now + 1..).next().map_or(limit, |(k, _)| (k - FINE_BASE).min(limit));
        }
        if self.fine == 0 {
            return limit;
        }
        let rng = self.rng.as_mut().unwrap();
        // the more preemptions there have been, the rarer the next ones
        if self.switches.len() % 64 == 63 {
            self.fine *= 2;
        }
        let gap = match rng.below(4) {
            0 => rng.below(8),
            1 => rng.below(self.fine as usize),
            _ => rng.below(2 * self.fine as usize),
        };
        now + 1 + gap as u64
    }
    /// The current thread is at instrumented point `now`, about to touch `addr`.
    fn decide_fine(&mut self, me: usize, now: u64, due: bool, addr: usize) -> usize {
        let others: Vec<usize> = (1..self.n).map(|d| (me + d) % self.n).filter(|&t| self.alive[t]).collect();
        let mut next = me;
        if !others.is_empty() {
            if let Some(e) = &self.explicit {
                next = match e.get(&(FINE_BASE + now)) {
                    Some(&t) if (t as usize) < self.n && self.alive[t as usize] => t as usize,
                    Some(_) => me,
                    None if due => others[0],
                    None => me,
                };
            } else if due {
                let rng = self.rng.as_mut().unwrap();
                next = others[rng.below(others.len())];
            } else {
                let n = self.statics.entry(addr).or_insert(0);
                *n += 1;
                let n = *n as usize;
                let rng = self.rng.as_mut().unwrap();
                if rng.below(3 + n) == 0 {
                    next = others[rng.below(others.len())];
                } else if rng.below(3 + n) == 0 {
                    // right after it
                    NEXT_FINE.store(now + 1 + rng.below(6) as u64, Ordering::Relaxed);
                    return me;
                }
            }
        }
        if due || next != me {
            self.yields[K_FINE as usize] += 1;
            let t = self.next_fine(now);
            NEXT_FINE.store(t, Ordering::Relaxed);
        }
        if next != me {
            self.switches.push((FINE_BASE + now, next as u8));
            self.hash = fnv(self.hash, &[me as u8, K_FINE, next as u8]);
            self.hash = fnv(self.hash, &now.to_le_bytes());
        }
        next
    }
    fn decide(&mut self, me: usize, kind: u8) -> usize {
        self.step += 1;
        self.yields[kind as usize] += 1;
        let must = !self.alive[me] || kind == K_WAIT;
        // in cyclic order after me
        let others: Vec<usize> = (1..self.n).map(|d| (me + d) % self.n).filter(|&t| self.alive[t]).collect();
        if others.is_empty() {
            return me;
        }
        let next = if let Some(e) = &self.explicit {
            match e.get(&self.step) {
                Some(&t) if (t as usize) < self.n && self.alive[t as usize] => t as usize,
                _ => {
                    if must {
                        others[0]
                    } else {
                        me
                    }
                }
            }
        } else {
            let p = self.probs.get(kind as usize).copied().unwrap_or(0);
            let rng = self.rng.as_mut().unwrap();
            if must || rng.below(1000) < p {
                others[rng.below(others.len())]
            } else {
                me
            }
        };
        if next != me {
            self.switches.push((self.step, next as u8));
            self.hash = fnv(self.hash, &[me as u8, kind, next as u8]);
            self.hash = fnv(self.hash, &self.step.to_le_bytes());
        }
        next
    }
}

/// A point where the simulator may hand the baton to another simulated thread.
pub fn yield_point(kind: u8) {
    if !MULTI.load(Ordering::Relaxed) {
        return;
    }
    let was = HOOK.with(|h| h.replace(true));
    let me = TID.with(|t| t.get());
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        let next = s.decide(me, kind);
        if next != me {
            s.cur = next;
            CVS[next].notify_one();
            while g.as_ref().map_or(false, |s| s.cur != me) {
                g = CVS[me].wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
    drop(g);
    HOOK.with(|h| h.set(was));
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Called between the memory accesses and branches of the library, which is compiled with
/// coverage instrumentation for this purpose.
#[inline(always)]
fn fine_point(addr: usize) {
    if MULTI.load(Ordering::Relaxed) {
        fine_slow(addr);
    }
}

#[inline(never)]
fn fine_slow(addr: usize) {
    if !IN_LIB.try_with(|c| c.get()).unwrap_or(false) || HOOK.try_with(|c| c.get()).unwrap_or(true) {
        return;
    }
    let now = POINTS.load(Ordering::Relaxed) + 1;
    POINTS.store(now, Ordering::Relaxed);
    let due = now >= NEXT_FINE.load(Ordering::Relaxed);
    let in_static = || unsafe { addr >= &__data_start as *const u8 as usize && addr < &_end as *const u8 as usize };
    if !due && !(STATIC_BIAS.load(Ordering::Relaxed) && in_static()) {
        return;
    }
    HOOK.with(|h| h.set(true));
    let me = TID.with(|t| t.get());
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        let next = s.decide_fine(me, now, due, addr);
        if next != me {
            s.cur = next;
            CVS[next].notify_one();
            while g.as_ref().map_or(false, |s| s.cur != me) {
                g = CVS[me].wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
    drop(g);
    HOOK.with(|h| h.set(false));
}

// what the instrumentation calls
pub const MAX_EDGES: usize = 1 << 16;
static N_EDGES: AtomicU64 = AtomicU64::new(0);
static COVERED: [AtomicBool; MAX_EDGES] = [const { AtomicBool::new(false) }; MAX_EDGES];

/// (number of instrumented branches, those taken by this process)
pub fn coverage() -> (usize, Vec<u32>) {
    let n = (N_EDGES.load(Ordering::SeqCst) as usize + 1).min(MAX_EDGES);
    (n - 1, (1..n).filter(|i| COVERED[*i].load(Ordering::Relaxed)).map(|i| i as u32).collect())
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = (N_EDGES.fetch_add(1, Ordering::SeqCst) + 1).min(MAX_EDGES as u64 - 1) as u32;
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let n = *g as usize;
    if n != 0 {
        COVERED[n].store(true, Ordering::Relaxed);
    }
    fine_point(0);
}

macro_rules! access {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(p: usize) {
            fine_point(p);
        }
    )* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
access!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// Somebody gives up the processor, for example in a spin loop.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if MULTI.load(Ordering::Relaxed) && SIMULATED.try_with(|c| c.get()).unwrap_or(false) && !HOOK.try_with(|c| c.get()).unwrap_or(true) {
        yield_point(K_WAIT);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

/// Called first on every simulated thread: waits for the baton.
pub fn thread_begin(tid: usize, entropy: u64, entropy_faults: u32) {
    TID.with(|t| t.set(tid));
    ENTROPY.with(|e| e.set(entropy));
    ENTROPY_FAULTS.with(|e| e.set(entropy_faults));
    HOOK.with(|h| h.set(true));
    if MULTI.load(Ordering::Relaxed) {
        let mut g = lock();
        while g.as_ref().map_or(false, |s| s.cur != tid) {
            g = CVS[tid].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    SIMULATED.with(|c| c.set(true));
    HOOK.with(|h| h.set(false));
}

pub fn thread_end() {
    let me = TID.with(|t| t.get());
    HOOK.with(|h| h.set(true));
    SIMULATED.with(|c| c.set(false));
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        s.alive[me] = false;
        let next = s.decide(me, K_END);
        s.cur = next;
        CVS[next].notify_one();
    }
    drop(g);
    ENTROPY.with(|e| e.set(0));
    IO.with(|v| *v.borrow_mut() = None);
    ERRLOG.with(|v| *v.borrow_mut() = Vec::new());
    PANIC_MSG.with(|v| *v.borrow_mut() = String::new());
    shape_end();
}

// ------------------------------------------------------------------ library window

pub enum Caught {
    /// the simulator itself unwound the call (injected cancellation)
    Cancelled,
    /// the library panicked
    Panic(String),
}

struct CancelToken;

fn cancel_now() -> ! {
    std::panic::resume_unwind(Box::new(CancelToken))
}

/// Run one library call under the simulator's control.
pub fn lib<R>(cancel_after: Option<u32>, f: impl FnOnce() -> R) -> Result<R, Caught> {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    CANCEL.with(|c| c.set(cancel_after.unwrap_or(0)));
    IN_LIB.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(false));
    HOOK.with(|c| c.set(false));
    CANCEL.with(|c| c.set(0));
    match r {
        Ok(x) => Ok(x),
        Err(e) => {
            if e.is::<CancelToken>() {
                Err(Caught::Cancelled)
            } else {
                Err(Caught::Panic(PANIC_MSG.with(|p| p.borrow().clone())))
            }
        }
    }
}

/// An injected cancellation may strike here (counted down from the plan's value).
fn cancel_point() {
    let n = CANCEL.with(|c| c.get());
    if n > 0 {
        CANCEL.with(|c| c.set(n - 1));
        if n == 1 {
            HOOK.with(|h| h.set(false));
            cancel_now();
        }
    }
}

/// Called by user-supplied code (parsers, pattern sources) that the simulation plugs in.
pub fn callback_point() {
    if IN_LIB.with(|c| c.get()) {
        yield_point(K_CB);
        nested_point();
        cancel_point();
    }
}

/// Have user-supplied code (parsers, sources, the log sink) use the library itself: `f` is called at
/// every `every`-th callback of this thread; 0 turns it off.
pub fn nested_set(every: u32, f: fn()) {
    NESTED.with(|n| n.set((every, every, f)));
    NESTED_N.with(|n| n.set(0));
}
pub fn nested_count() -> u64 {
    NESTED_N.with(|n| n.get())
}

fn nested_point() {
    let (every, left, f) = NESTED.with(|n| n.get());
    if every == 0 || NESTING.with(|n| n.get()) || HOOK.with(|h| h.get()) {
        return;
    }
    if left > 1 {
        NESTED.with(|n| n.set((every, left - 1, f)));
        return;
    }
    NESTED.with(|n| n.set((every, every, f)));
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            NESTING.with(|n| n.set(false));
        }
    }
    NESTING.with(|n| n.set(true));
    let _back = Back;
    NESTED_N.with(|n| n.set(n.get() + 1));
    f();
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = HOOK.with(|h| h.replace(true));
        let s = format!("{}", info).replace('\n', " ");
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = s.clone());
        if !IN_LIB.with(|c| c.get()) {
            eprintln!("harness panic: {}", s);
        }
        HOOK.with(|h| h.set(was));
    }));
}

// ------------------------------------------------------------------ allocator seam

pub struct SimAlloc;

#[inline]
fn alloc_hook() {
    if MULTI.load(Ordering::Relaxed)
        && IN_LIB.try_with(|c| c.get()).unwrap_or(false)
        && !HOOK.try_with(|c| c.get()).unwrap_or(true)
    {
        yield_point(K_ALLOC);
    }
}

/// bytes the process holds at present
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}

/// Not zero: other allocations happen in between, so that everything lies at other addresses in
/// another order.
pub static SHAPE: AtomicU64 = AtomicU64::new(0);
const JUNK: usize = 64;
thread_local! {
    static JUNK_RNG: Cell<u64> = const { Cell::new(0) };
    static JUNK_HELD: [Cell<(usize, usize)>; JUNK] = const { [const { Cell::new((0, 0)) }; JUNK] };
}

#[inline]
fn shape_hook() {
    let shape = SHAPE.load(Ordering::Relaxed);
    if shape == 0 || !IN_LIB.try_with(|c| c.get()).unwrap_or(false) || HOOK.try_with(|c| c.get()).unwrap_or(true) {
        return;
    }
    let r = JUNK_RNG.with(|c| {
        let x = crate::rng::mix(c.get() ^ shape);
        c.set(x);
        x
    });
    if r % 3 == 0 {
        let size = 16 + (r >> 8) as usize % 300;
        JUNK_HELD.with(|h| unsafe {
            let c = &h[(r >> 32) as usize % JUNK];
            let (p, n) = c.get();
            c.set((System.alloc(Layout::from_size_align_unchecked(size, 16)) as usize, size));
            if p != 0 {
                System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(n, 16));
            }
        });
    }
}

fn shape_end() {
    JUNK_HELD.with(|h| {
        for c in h {
            let (p, n) = c.replace((0, 0));
            if p != 0 {
                unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(n, 16)) };
            }
        }
    });
    JUNK_RNG.with(|c| c.set(0));
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_hook();
        shape_hook();
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_hook();
        shape_hook();
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_hook();
        shape_hook();
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------ logger seam

pub struct SimLog;
pub static LOG: SimLog = SimLog;
/// render every record (not only errors): exercises the formatting code of the library
pub static LOG_FORMAT_ALL: AtomicBool = AtomicBool::new(false);

impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !IN_LIB.with(|c| c.get()) {
            return;
        }
        LOGGED.with(|c| c.set(c.get() + 1));
        if r.level() == log::Level::Error || LOG_FORMAT_ALL.load(Ordering::Relaxed) {
            let s = r.args().to_string();
            let was = HOOK.with(|h| h.replace(true));
            if r.level() == log::Level::Error {
                ERRLOG.with(|v| v.borrow_mut().push(s));
            }
            HOOK.with(|h| h.set(was));
        }
        yield_point(K_LOG);
        nested_point();
        cancel_point();
    }
    fn flush(&self) {}
}

pub fn take_error_log() -> Vec<String> {
    ERRLOG.with(|v| std::mem::take(&mut *v.borrow_mut()))
}
pub fn take_logged() -> u64 {
    LOGGED.with(|c| c.replace(0))
}
pub static LEVEL_CHANGES: AtomicU64 = AtomicU64::new(0);
/// (number of level changes so far, errors are logged at present)
pub fn level_state() -> (u64, bool) {
    (LEVEL_CHANGES.load(Ordering::SeqCst), log::max_level() >= log::LevelFilter::Error)
}
pub fn set_level(l: u8) {
    LEVEL_CHANGES.fetch_add(1, Ordering::SeqCst);
    log::set_max_level(match l {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}

// ------------------------------------------------------------------ file I/O seam

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Io {
    /// the kernel returns at most this many bytes
    Short(usize),
    /// interrupted by a signal before any byte
    Eintr,
    /// hard error
    Err(i32),
    /// premature end of file: the read returns 0 although bytes remain (file shrank under us)
    Eof,
}

#[derive(Default)]
pub struct IoCtx {
    /// the file the call is about; whatever else the library opens is left alone
    pub file: String,
    pub events: Vec<Io>,
    pub next: usize,
    pub open_events: Vec<i32>,
    pub fd: i32,
    /// the descriptor was closed again
    pub closed: bool,
    pub opened: u32,
    pub delivered: Vec<u8>,
    /// hard errors the simulated kernel actually returned
    pub open_err: Option<i32>,
    pub read_err: Option<i32>,
    pub n_short: u64,
    pub n_eintr: u64,
    pub n_err: u64,
    pub n_eof: u64,
    pub n_open_err: u64,
    pub n_open_eintr: u64,
    pub reads: u64,
    pub saw_eof: bool,
    pub fuse: bool,
    /// what stat says about the size: 0 the truth, -1 nothing, -2 half of it, -3 one byte less, -4 more
    pub stat: i32,
    pub n_stat: u64,
}

pub const EINTR: i32 = 4;
const MAX_READS: u64 = 200_000;

/// `open_events`: errors of the next open calls; a negative one describes what stat reports.
pub fn io_begin(file: &str, events: Vec<Io>, mut open_events: Vec<i32>) {
    let stat = open_events.iter().copied().find(|e| *e < 0).unwrap_or(0);
    open_events.retain(|e| *e > 0);
    IO.with(|c| {
        *c.borrow_mut() = Some(IoCtx {
            file: file.to_string(),
            events,
            open_events,
            fd: -1,
            stat,
            ..Default::default()
        })
    });
}
pub fn io_end() -> IoCtx {
    IO.with(|c| c.borrow_mut().take().unwrap())
}
/// Was the descriptor of the finished load left open?
pub fn fd_is_open(fd: i32) -> bool {
    if fd < 0 {
        return false;
    }
    let r = unsafe { raw(72, fd as i64, 1, 0, 0, 0, 0) }; // fcntl(F_GETFD)
    r >= 0
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

fn sim_io_active() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false)
        && !HOOK.try_with(|c| c.get()).unwrap_or(true)
        && IO.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

enum OpenAct {
    Go,
    Fail(i32),
}

fn on_open() -> OpenAct {
    yield_point(K_IO);
    IO.with(|c| {
        let mut b = c.borrow_mut();
        let x = b.as_mut().unwrap();
        x.opened += 1;
        if !x.open_events.is_empty() {
            let e = x.open_events.remove(0);
            if e == EINTR {
                x.n_open_eintr += 1;
            } else {
                x.n_open_err += 1;
                x.open_err = Some(e);
            }
            return OpenAct::Fail(e);
        }
        OpenAct::Go
    })
}

fn is_target(path: &[u8]) -> bool {
    IO.with(|c| {
        let b = c.borrow();
        let f = b.as_ref().unwrap().file.as_bytes();
        path == f || (path.ends_with(f) && path[..path.len() - f.len()].ends_with(b"/"))
    })
}

/// the descriptor the next open would get
pub fn lowest_free_fd() -> i32 {
    unsafe {
        let fd = raw(32, 2, 0, 0, 0, 0, 0) as i32;
        raw(3, fd as i64, 0, 0, 0, 0, 0);
        fd
    }
}

unsafe fn do_open(dirfd: i32, path: *const i8, flags: i32, mode: u32) -> i64 {
    let active = sim_io_active() && !path.is_null() && is_target(std::ffi::CStr::from_ptr(path as *const _).to_bytes());
    if active {
        let was = HOOK.with(|h| h.replace(true));
        let act = on_open();
        HOOK.with(|h| h.set(was));
        if let OpenAct::Fail(e) = act {
            *__errno_location() = e;
            return -1;
        }
    }
    let r = ret(raw(257, dirfd as i64, path as i64, flags as i64, mode as i64, 0, 0));
    if active {
        let was = HOOK.with(|h| h.replace(true));
        IO.with(|c| {
            let mut b = c.borrow_mut();
            let x = b.as_mut().unwrap();
            if r >= 0 {
                // a new descriptor starts over
                x.fd = r as i32;
                x.closed = false;
                x.delivered.clear();
                x.saw_eof = false;
                x.read_err = None;
                x.open_err = None;
            } else {
                x.open_err = Some(*__errno_location());
            }
        });
        HOOK.with(|h| h.set(was));
    }
    r
}

const AT_FDCWD: i32 = -100;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, path, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(AT_FDCWD, path, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode) as i32
}

/// Decide what one read of up to `n` bytes does: Err(errno), or Ok(max bytes)
fn on_read(n: usize) -> Result<usize, i32> {
    yield_point(K_IO);
    IO.with(|c| {
        let mut b = c.borrow_mut();
        let x = b.as_mut().unwrap();
        x.reads += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if x.reads > MAX_READS + 2 * x.delivered.len() as u64 {
            x.fuse = true;
            return Err(5);
        }
        let ev = x.events.get(x.next).cloned();
        if ev.is_some() && n > 0 {
            x.next += 1;
        }
        match ev {
            Some(Io::Short(k)) if n > 0 => {
                if k.max(1) < n {
                    x.n_short += 1;
                }
                Ok(k.max(1).min(n))
            }
            Some(Io::Eintr) if n > 0 => {
                x.n_eintr += 1;
                Err(EINTR)
            }
            Some(Io::Err(e)) if n > 0 => {
                x.n_err += 1;
                x.read_err = Some(e);
                Err(e)
            }
            Some(Io::Eof) if n > 0 => {
                x.n_eof += 1;
                Ok(0)
            }
            _ => Ok(n),
        }
    })
}

fn after_read(p: *const u8, r: i64, asked: usize) {
    IO.with(|c| {
        let mut b = c.borrow_mut();
        let x = b.as_mut().unwrap();
        if r > 0 {
            x.delivered
                .extend_from_slice(unsafe { std::slice::from_raw_parts(p, r as usize) });
        } else if r == 0 && asked > 0 {
            x.saw_eof = true;
        } else if r < 0 {
            x.read_err = Some(unsafe { *__errno_location() });
        }
    });
}

fn is_sim_fd(fd: i32) -> bool {
    sim_io_active() && IO.with(|c| c.borrow().as_ref().map_or(false, |x| x.fd == fd && !x.closed))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !is_sim_fd(fd) {
        return ret(raw(0, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize;
    }
    HOOK.with(|h| h.set(true));
    let d = on_read(n);
    let r = match d {
        Err(e) => {
            *__errno_location() = e;
            -1
        }
        Ok(k) => {
            let r = if k == 0 && n > 0 {
                0
            } else {
                ret(raw(0, fd as i64, buf as i64, k as i64, 0, 0, 0))
            };
            after_read(buf, r, n);
            r
        }
    };
    HOOK.with(|h| h.set(false));
    r as isize
}

/// Size and times of a file as the simulated file system reports them: the size may be unknown or
/// out of date (pipes, synthetic file systems, files being appended to), the clock behind the times
/// is coarse.
unsafe fn sim_stat(size: *mut i64, times: &[*mut i64]) {
    if !sim_io_active() {
        return;
    }
    let was = HOOK.with(|h| h.replace(true));
    yield_point(K_IO);
    IO.with(|c| {
        let mut b = c.borrow_mut();
        let x = b.as_mut().unwrap();
        let n = *size;
        let m = match x.stat {
            -1 => 0,
            -2 => n / 2,
            -3 => (n - 1).max(0),
            -4 => n + 1 + n / 3,
            _ => n,
        };
        if m != n {
            x.n_stat += 1;
            *size = m;
        }
    });
    for t in times {
        **t = 1_700_000_000;
        *(*t).add(1) = 0;
    }
    HOOK.with(|h| h.set(was));
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: i32, path: *const i8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    let r = ret(raw(332, dirfd as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32;
    if r == 0 && *(buf.add(28) as *const u16) & 0o170000 == 0o100000 {
        // stx_size; stx_btime, stx_ctime, stx_mtime
        sim_stat(buf.add(40) as *mut i64, &[buf.add(80) as *mut i64, buf.add(96) as *mut i64, buf.add(112) as *mut i64]);
    }
    r
}

unsafe fn after_stat(r: i64, buf: *mut u8) -> i32 {
    let r = ret(r) as i32;
    if r == 0 && *(buf.add(24) as *const u32) & 0o170000 == 0o100000 {
        // st_size; st_mtim, st_ctim
        sim_stat(buf.add(48) as *mut i64, &[buf.add(88) as *mut i64, buf.add(104) as *mut i64]);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
    after_stat(raw(5, fd as i64, buf as i64, 0, 0, 0, 0), buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, buf: *mut u8) -> i32 {
    fstat64(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const i8, buf: *mut u8) -> i32 {
    after_stat(raw(4, path as i64, buf as i64, 0, 0, 0, 0), buf)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const i8, buf: *mut u8) -> i32 {
    stat64(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const i8, buf: *mut u8) -> i32 {
    after_stat(raw(6, path as i64, buf as i64, 0, 0, 0, 0), buf)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if is_sim_fd(fd) {
        HOOK.with(|h| h.set(true));
        IO.with(|c| c.borrow_mut().as_mut().unwrap().closed = true);
        HOOK.with(|h| h.set(false));
    }
    ret(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}

#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if !is_sim_fd(fd) {
        return ret(raw(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize;
    }
    // a vectored read may legally fill only its first non-empty buffer
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return read(fd, v.base, v.len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if !is_sim_fd(fd) {
        return ret(raw(17, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize;
    }
    HOOK.with(|h| h.set(true));
    let d = on_read(n);
    let r = match d {
        Err(e) => {
            *__errno_location() = e;
            -1
        }
        Ok(k) => {
            let r = if k == 0 && n > 0 {
                0
            } else {
                ret(raw(17, fd as i64, buf as i64, k as i64, off, 0, 0))
            };
            after_read(buf, r, n);
            r
        }
    };
    HOOK.with(|h| h.set(false));
    r as isize
}

// ------------------------------------------------------------------ clock and identity seam

/// nanoseconds since 1970 as the simulated machine sees them
static CLOCK: AtomicU64 = AtomicU64::new(0);
static CLOCK_TICK: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

pub fn clock_set(start: u64, tick: u64) {
    CLOCK.store(start, Ordering::SeqCst);
    CLOCK_TICK.store(tick, Ordering::SeqCst);
}
/// time passes (or, after a correction of the clock, goes back)
pub fn clock_advance(ns: i64) {
    if ns >= 0 {
        CLOCK.fetch_add(ns as u64, Ordering::SeqCst);
    } else {
        CLOCK.fetch_sub(ns.unsigned_abs(), Ordering::SeqCst);
    }
}
pub fn clock_now() -> u64 {
    CLOCK.load(Ordering::SeqCst)
}
fn in_library() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false) && !HOOK.try_with(|c| c.get()).unwrap_or(true)
}
fn sim_clock() -> Option<u64> {
    if !in_library() {
        return None;
    }
    CLOCK_READS.fetch_add(1, Ordering::Relaxed);
    Some(CLOCK.fetch_add(CLOCK_TICK.load(Ordering::SeqCst), Ordering::SeqCst))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    match sim_clock() {
        Some(t) => {
            *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
            0
        }
        None => ret(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut u8) -> i32 {
    match sim_clock() {
        Some(t) => {
            *tv = [(t / 1_000_000_000) as i64, (t % 1_000_000_000 / 1000) as i64];
            0
        }
        None => ret(raw(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let t = match sim_clock() {
        Some(t) => (t / 1_000_000_000) as i64,
        None => ret(raw(201, 0, 0, 0, 0, 0, 0)),
    };
    if !out.is_null() {
        *out = t;
    }
    t
}
/// sleeping library code lets simulated time pass and the others run
unsafe fn sim_sleep(req: *const [i64; 2]) -> bool {
    if !in_library() || req.is_null() {
        return false;
    }
    let r = *req;
    clock_advance(r[0] * 1_000_000_000 + r[1]);
    yield_point(K_WAIT);
    true
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_sleep(req) {
        return 0;
    }
    ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if flags == 0 && sim_sleep(req) {
        return 0;
    }
    // returns the error number itself
    (-raw(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}
pub static PID: AtomicU64 = AtomicU64::new(7);
/// a restarted service in a container has the same process id again
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_library() {
        return PID.load(Ordering::Relaxed) as i32;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}

// ------------------------------------------------------------------ environment seam

extern "C" {
    static environ: *const *const u8;
}
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
const ENV_VALUES: [&[u8]; 20] = [
    b"1\0", b"0\0", b"true\0", b"false\0", b"yes\0", b"no\0", b"on\0", b"off\0", b"\0", b"debug\0", b"trace\0", b"C\0", b"POSIX\0",
    b"en_US.UTF-8\0", b"tr_TR.UTF-8\0", b"UTC\0", b"/nonexistent\0", b"2\0", b"100\0", b"1000000\0",
];
/// in an execution "elsewhere" every variable the library asks for may have some other value
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let len = |p: *const u8| (0..).take_while(|&i| *p.add(i) != 0).count();
    let key = std::slice::from_raw_parts(name, len(name));
    // std's own: how to print a panic, how much stack a thread gets
    if in_library() && !key.starts_with(b"RUST_") {
        ENV_READS.fetch_add(1, Ordering::Relaxed);
        let shape = SHAPE.load(Ordering::SeqCst);
        if shape != 0 {
            let h = crate::rng::mix(key.iter().fold(shape, |a, b| crate::rng::mix(a ^ *b as u64)));
            if h & 1 == 1 {
                return ENV_VALUES[(h >> 8) as usize % ENV_VALUES.len()].as_ptr();
            }
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        if std::slice::from_raw_parts(v, len(v)).starts_with(key) && *v.add(key.len()) == b'=' {
            return v.add(key.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

// ------------------------------------------------------------------ entropy seam

pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_FAULTS_FIRED: AtomicU64 = AtomicU64::new(0);

pub fn entropy_counts() -> (u64, u64) {
    (ENTROPY_READS.load(Ordering::SeqCst), ENTROPY_FAULTS_FIRED.load(Ordering::SeqCst))
}

/// Simulated getrandom(2): deterministic bytes, optionally interrupted or short.
unsafe fn sim_getrandom(buf: *mut u8, n: usize) -> Option<i64> {
    let st = ENTROPY.try_with(|e| e.get()).unwrap_or(0);
    if st == 0 {
        return None;
    }
    ENTROPY_READS.fetch_add(1, Ordering::Relaxed);
    let mut st = crate::rng::mix(st);
    let faults = ENTROPY_FAULTS.with(|f| f.get());
    let mut n = n;
    if faults > 0 && n > 1 {
        ENTROPY_FAULTS.with(|f| f.set(faults - 1));
        ENTROPY_FAULTS_FIRED.fetch_add(1, Ordering::Relaxed);
        if st & 1 == 0 {
            ENTROPY.with(|e| e.set(st | 1));
            *__errno_location() = EINTR;
            return Some(-1);
        }
        n = 1 + (st >> 8) as usize % (n - 1);
    }
    for i in 0..n {
        if i % 8 == 0 {
            st = crate::rng::mix(st);
        }
        *buf.add(i) = (st >> ((i % 8) * 8)) as u8;
    }
    ENTROPY.with(|e| e.set(st | 1));
    Some(n as i64)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    match sim_getrandom(buf, n) {
        Some(r) => r as isize,
        None => ret(raw(318, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    // futex(FUTEX_WAIT / FUTEX_WAIT_BITSET) by a simulated thread (in a library call, or in what the
    // workload does with the library's values between calls): the holder is another simulated
    // thread, so hand over the baton and report a spurious wake-up instead of blocking
    if n == 202
        && matches!(b & 0x7f, 0 | 9)
        && MULTI.load(Ordering::Relaxed)
        && SIMULATED.try_with(|c| c.get()).unwrap_or(false)
        && !HOOK.try_with(|c| c.get()).unwrap_or(true)
    {
        let v = (*(a as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst);
        if v == c as u32 {
            yield_point(K_WAIT);
            *__errno_location() = EINTR;
        } else {
            *__errno_location() = 11;
        }
        return -1;
    }
    if n == 332 {
        return statx(a as i32, b as *const i8, c as i32, d as u32, e as *mut u8) as i64;
    }
    if n == 318 {
        if let Some(r) = sim_getrandom(a as *mut u8, b as usize) {
            return r;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
