//! Threads that stay: whatever the library keeps per thread is kept from one run to the next.
//! (Handing over the work allocates nothing, what a run leaves behind is counted.)

use std::sync::{Condvar, Mutex, MutexGuard};
use std::thread::JoinHandle;

type Job = Box<dyn FnOnce() + Send>;
const MOST: usize = 8;

struct State {
    jobs: [Option<Job>; MOST],
    /// the threads of an older generation end
    generation: u64,
    running: usize,
    failed: bool,
}
static STATE: Mutex<State> = Mutex::new(State { jobs: [const { None }; MOST], generation: 0, running: 0, failed: false });
static WAKE: Condvar = Condvar::new();
static DONE: Condvar = Condvar::new();
static THREADS: Mutex<Vec<JoinHandle<()>>> = Mutex::new(Vec::new());
static NEXT_GENERATION: Mutex<u64> = Mutex::new(1);

fn lock<T>(m: &'static Mutex<T>) -> MutexGuard<'static, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn work(i: usize, generation: u64) {
    loop {
        let mut s = lock(&STATE);
        let job = loop {
            if s.generation == generation {
                if let Some(j) = s.jobs[i].take() {
                    break j;
                }
            }
            if s.generation == u64::MAX - generation {
                return;
            }
            s = WAKE.wait(s).unwrap_or_else(|e| e.into_inner());
        };
        drop(s);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)).is_ok();
        let mut s = lock(&STATE);
        s.failed |= !ok;
        s.running -= 1;
        DONE.notify_all();
    }
}

/// Runs the n-th job on the n-th thread; returns when all are done and dropped.
pub fn all(jobs: Vec<Job>) {
    let mut threads = lock(&THREADS);
    let generation = lock(&STATE).generation;
    while threads.len() < jobs.len() {
        let i = threads.len();
        threads.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || work(i, generation)).expect("thread"));
    }
    let mut s = lock(&STATE);
    s.running = jobs.len();
    for (i, j) in jobs.into_iter().enumerate() {
        s.jobs[i] = Some(j);
    }
    WAKE.notify_all();
    while s.running > 0 {
        s = DONE.wait(s).unwrap_or_else(|e| e.into_inner());
    }
    assert!(!s.failed, "a simulated thread failed");
}

/// `f` with threads of its own
pub fn fresh<R>(f: impl FnOnce() -> R) -> R {
    let old = std::mem::take(&mut *lock(&THREADS));
    let own = {
        let mut n = lock(&NEXT_GENERATION);
        *n += 1;
        *n
    };
    let before = std::mem::replace(&mut lock(&STATE).generation, own);
    let r = f();
    lock(&STATE).generation = u64::MAX - own;
    WAKE.notify_all();
    for h in std::mem::replace(&mut *lock(&THREADS), old) {
        let _ = h.join();
    }
    lock(&STATE).generation = before;
    r
}
