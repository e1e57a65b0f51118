//! Simulation runtime: seeded choices, thread control, simulated disk and
//! console. This crate is never instrumented.
pub mod fs;
pub mod interpose;
pub mod sched;
pub mod signals;
pub mod sys;
pub mod tape;

pub use sched::{Limits, RunResult, Verdict, crashed, join_all, sim, spawn, yield_now};
pub use tape::{FAULT, HASH, SCHED, Source, Tapes, WORK};

use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

struct HashSource;
impl ahash::random_state::RandomSource for HashSource {
    fn gen_hasher_seed(&self) -> usize {
        sched::hash_seed() as usize
    }
}

/// Once per process, before any library code runs.
pub fn init() {
    if ahash::random_state::set_random_source(HashSource).is_err() {
        harness_error("ahash random source was already set");
    }
    signals::install();
    // fix ahash's process-wide keys while no simulation runs
    let _ = ahash::RandomState::new();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let t = format!("{m} [{l}]").replace('\n', " ");
        if sched::in_sim() {
            // no lock can be contended here: one simulated thread runs at a time
            *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = t;
        } else {
            sys::write_all(2, format!("harness panic: {t}\n").as_bytes());
        }
    }));
}

pub fn take_panic() -> String {
    std::mem::take(&mut *PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

/// The harness itself is broken: neither pass nor violation.
pub fn harness_error(m: &str) -> ! {
    sys::write_all(2, format!("harness error: {m}\n").as_bytes());
    unsafe { sys::sys3(231, 3, 0, 0) };
    unreachable!()
}

/// Choice from the WORK tape: 0 <= result < n, 0 is the simplest.
pub fn work(n: usize) -> usize {
    sim().draw(WORK, n.max(1) as u64) as usize
}
pub fn fault(n: usize) -> usize {
    sim().draw(FAULT, n.max(1) as u64) as usize
}
/// True with probability 1/n; false is the simple choice.
pub fn chance(n: usize) -> bool {
    n > 0 && work(n) == n - 1 && n > 1
}
pub fn count(k: &str, n: u64) {
    sim().count(k, n)
}
/// An event of the history: enters the replay digest and the run signature.
pub fn mark(a: u64, b: u64) {
    sim().mark(a, b)
}
/// The run reached the situation its property is about.
pub fn nontrivial() {
    sim().nontrivial = true;
}
/// A state of the system, for counting distinct states reached.
pub fn state(h: u64) {
    let s = sim();
    s.event(0x90, h);
    s.states.insert(h);
}
pub fn note(f: impl Fn() -> String) {
    note_dyn(&f)
}
// Not generic, so not compiled into an instrumented crate: a traced run must
// execute the same counted edges as an untraced one.
fn note_dyn(f: &dyn Fn() -> String) {
    sched::uncounted(|| sim().note(f))
}
/// Property violated.
pub fn violated(class: &str, detail: String) -> ! {
    sched::halt(class, detail)
}

/// Run a library call that must not unwind; returns the panic text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
