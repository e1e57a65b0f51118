//! Cooperative control over real threads.
//!
//! Exactly one simulated thread runs at a time. The compiler calls
//! `__sanitizer_cov_trace_pc_guard` on every control-flow edge of the
//! instrumented crates; that callback counts down the current slice and hands
//! over to a thread chosen from the SCHED tape. Blocking is seen through the
//! interposed futex system call.
use crate::fs::SimFs;
use crate::sys;
use crate::tape::{self, FAULT, HASH, SCHED, Source, Tapes};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const NONE: u32 = u32::MAX;
thread_local! { static TID: Cell<u32> = const { Cell::new(NONE) }; }

#[inline(always)]
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}
pub fn in_sim() -> bool {
    tid() != NONE
}

/// Run `f` without counting its edges.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let me = tid();
    TID.with(|t| t.set(NONE));
    let r = f();
    TID.with(|t| t.set(me));
    r
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Futex(usize),
    Join,
    Done,
}

struct Th {
    st: St,
    word: Box<AtomicU32>,
    pt: libc::pthread_t,
    crashed: bool,
    /// The wait has a timeout, which fires only when nothing else can happen.
    timed: bool,
    timed_out: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Verdict {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug)]
pub struct Limits {
    /// Executed instrumented edges before the run counts as hanging.
    pub steps: u64,
    pub trace: bool,
}

pub struct Sim {
    pub src: Source,
    pub fs: SimFs,
    th: Vec<Th>,
    cur: usize,
    steps: u64,
    slice: i64,
    limits: Limits,
    /// 0 = never preempt, else the longest slice.
    pub max_slice: u64,
    /// 1/n chance of a spurious futex wake-up when a thread blocks (0 = never).
    pub spurious: u64,
    pub clock_ns: u64,
    pub verdict: Option<Verdict>,
    finished: bool,
    pub stats: BTreeMap<String, u64>,
    pub sig: u64,
    pub digest: u64,
    pub trace: Vec<String>,
    pub switches: u64,
    pub faults: u64,
    pub hash_draws: u64,
    /// Hash seeds come from this state instead of the tape.
    pub hash_fixed: Option<u64>,
    pub states: std::collections::BTreeSet<u64>,
    pub known: Vec<String>,
    pub nontrivial: bool,
}

static mut SIM: Option<Box<Sim>> = None;
static CTRL: AtomicU32 = AtomicU32::new(0);
static mut COUNTDOWN: i64 = 0;

/// Edge coverage of instrumented code, indexed by guard.
pub const COV_MAX: usize = 1 << 20;
pub static mut COV: [u8; COV_MAX] = [0; COV_MAX];
pub static mut GUARDS: u32 = 0;

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    // Only the running simulated thread, or the controller while no simulated
    // thread runs, gets here.
    unsafe { SIM.as_mut().expect("no simulation running") }
}

#[allow(static_mut_refs)]
pub fn active() -> bool {
    unsafe { SIM.is_some() }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            if (GUARDS as usize) < COV_MAX - 1 {
                GUARDS += 1;
            }
            *p = GUARDS;
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if TID.with(|t| t.get()) == NONE {
        return;
    }
    unsafe {
        *(&raw mut COV as *mut u8).add(*g as usize) = 1;
        COUNTDOWN -= 1;
        if COUNTDOWN < 0 {
            slice_over();
        }
    }
}

#[cold]
#[inline(never)]
fn slice_over() {
    let s = sim();
    s.account();
    if s.steps > s.limits.steps {
        halt("hang", format!("no progress within {} executed edges", s.limits.steps));
    }
    // a slice that was meant to last also ends, so that spinning on another
    // thread's progress is not mistaken for a hang
    if s.ready() > 1 {
        preempt();
    } else {
        s.new_slice();
    }
}

/// Record a verdict and stop the run: the calling thread ends here.
pub fn halt(class: &str, detail: String) -> ! {
    {
        let s = sim();
        if s.verdict.is_none() {
            s.verdict = Some(Verdict { class: class.into(), detail });
        }
        s.finished = true;
    }
    TID.with(|t| t.set(NONE));
    CTRL.store(1, Ordering::Release);
    sys::futex_wake(&CTRL);
    sys::thread_exit()
}

impl Sim {
    fn account(&mut self) {
        let left = unsafe { COUNTDOWN }.max(0);
        self.steps += (self.slice - left).max(0) as u64;
        self.slice = left;
    }
    fn ready(&self) -> usize {
        self.th.iter().filter(|t| t.st == St::Ready).count()
    }
    pub fn total_steps(&self) -> u64 {
        self.steps
    }
    pub fn event(&mut self, a: u64, b: u64) {
        self.digest = tape::mix(self.digest ^ a, b);
    }
    pub fn mark(&mut self, a: u64, b: u64) {
        self.event(a, b);
        self.sig = tape::mix(self.sig ^ a, b);
    }
    fn new_slice(&mut self) {
        self.account();
        let chunk = 1 << 18;
        let n = if self.max_slice > 0 && self.ready() > 1 { self.draw(SCHED, self.max_slice + 1) } else { 0 };
        self.slice = if n == 0 { chunk } else { n as i64 };
        unsafe { COUNTDOWN = self.slice };
    }
    pub fn draw(&mut self, s: usize, n: u64) -> u64 {
        let v = self.src.draw(s, n);
        self.event(s as u64 + 0x100, v);
        v
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.limits.trace {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: usize) -> usize {
        let mut w: Vec<usize> = (0..self.th.len()).filter(|&i| self.th[i].st == St::Futex(addr)).collect();
        let mut k = 0;
        while k < n && !w.is_empty() {
            let j = if w.len() > 1 { self.draw(SCHED, w.len() as u64) as usize } else { 0 };
            let i = w.remove(j);
            self.th[i].st = St::Ready;
            k += 1;
        }
        if k > 0 && self.max_slice > 0 {
            self.new_slice();
        }
        k
    }
}

// Functions that switch threads take no `&mut Sim` argument: the state changes
// under them while they wait, and a reference argument would promise otherwise.

fn preempt() {
    let s = sim();
    let me = s.cur;
    let others: Vec<usize> = (0..s.th.len()).filter(|&i| i != me && s.th[i].st == St::Ready).collect();
    let k = if others.len() > 1 { s.draw(SCHED, others.len() as u64) as usize } else { 0 };
    s.switches += 1;
    let st = s.steps;
    s.mark(0x51, (others[k] as u64) << 48 | st);
    s.note(|| format!("t{me} preempted after {st} edges, t{} runs", others[k]));
    hand_to(others[k]);
    // running again
    s.new_slice();
}
/// Let `next` run and wait until this thread is chosen again.
fn hand_to(next: usize) {
    let s = sim();
    let me = s.cur;
    if next == me {
        return;
    }
    s.cur = next;
    let mine: *const AtomicU32 = &*s.th[me].word;
    let w: *const AtomicU32 = &*s.th[next].word;
    unsafe {
        (*w).store(1, Ordering::Release);
        sys::futex_wake(&*w);
        wait_turn(&*mine);
    }
}
/// This thread cannot go on: pick another one, or diagnose deadlock.
fn block() {
    let s = sim();
    s.account();
    loop {
        let ready: Vec<usize> = (0..s.th.len()).filter(|&i| s.th[i].st == St::Ready).collect();
        if ready.is_empty() {
            if let Some(i) = (0..s.th.len()).find(|&i| s.th[i].timed) {
                s.th[i].timed = false;
                s.th[i].timed_out = true;
                s.th[i].st = St::Ready;
                s.clock_ns += 1_000_000_000;
                continue;
            }
            let w: Vec<String> = s.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, t)| format!("t{i}:{}", match t.st { St::Futex(_) => "lock", St::Join => "join", _ => "?" })).collect();
            halt("deadlock", format!("no thread can run ({})", w.join(" ")));
        }
        let k = if ready.len() > 1 { s.draw(SCHED, ready.len() as u64) as usize } else { 0 };
        let n = ready[k];
        s.mark(0x52, n as u64);
        let me = s.cur;
        if n != me {
            s.switches += 1;
            s.note(|| format!("t{me} blocked, t{n} runs"));
        }
        hand_to(n);
        s.new_slice();
        return;
    }
}
/// Returns false if the wait timed out.
pub fn futex_wait(addr: usize, timed: bool) -> bool {
    let s = sim();
    let me = s.cur;
    s.th[me].timed = timed;
    s.th[me].timed_out = false;
    s.count("sched.blocked", 1);
    s.th[me].st = St::Futex(addr);
    if s.spurious > 0 && s.draw(FAULT, s.spurious) == 1 {
        s.th[me].st = St::Ready;
        s.faults += 1;
        s.count("fault.spurious_wakeup", 1);
        s.note(|| format!("t{me} wakes spuriously"));
        s.mark(0x61, 0);
    }
    block();
    s.th[me].timed = false;
    !s.th[me].timed_out
}

fn wait_turn(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        sys::futex_wait(w, 0, None);
    }
}

struct Start {
    id: u32,
    f: Box<dyn FnOnce() + Send>,
    word: *const AtomicU32,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let Start { id, f, word } = *st;
    crate::signals::altstack();
    wait_turn(unsafe { &*word });
    TID.with(|t| t.set(id));
    sim().new_slice();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        let m = crate::take_panic();
        halt("panic", m);
    }
    finish(false);
    std::ptr::null_mut()
}

/// Mark the current thread done and pass control on. Returns only for normal
/// completion (the OS thread then exits).
fn finish(crashed: bool) {
    let s = sim();
    s.account();
    let me = s.cur;
    s.th[me].st = St::Done;
    s.th[me].crashed = crashed;
    s.event(0x53, me as u64);
    let open = s.th.iter().enumerate().filter(|(_, t)| t.st != St::Done && t.st != St::Join).count();
    if open == 0 {
        for t in s.th.iter_mut() {
            if t.st == St::Join {
                t.st = St::Ready;
            }
        }
    }
    let ready: Vec<usize> = (0..s.th.len()).filter(|&i| s.th[i].st == St::Ready).collect();
    if ready.is_empty() {
        if s.th.iter().all(|t| t.st == St::Done) {
            s.finished = true;
            TID.with(|t| t.set(NONE));
            CTRL.store(1, Ordering::Release);
            sys::futex_wake(&CTRL);
            return;
        }
        halt("deadlock", "remaining threads wait forever".into());
    }
    let k = if ready.len() > 1 { s.draw(SCHED, ready.len() as u64) as usize } else { 0 };
    let n = ready[k];
    s.cur = n;
    let w: *const AtomicU32 = &*s.th[n].word;
    TID.with(|t| t.set(NONE));
    unsafe {
        (*w).store(1, Ordering::Release);
        sys::futex_wake(&*w);
    }
}

/// Simulated process death of the current thread's process: no destructors.
pub fn crash_self() -> ! {
    finish(true);
    sys::thread_exit()
}

/// Start another simulated thread.
pub fn spawn(f: impl FnOnce() + Send + 'static) -> usize {
    spawn_boxed(Box::new(f))
}

fn spawn_boxed(f: Box<dyn FnOnce() + Send>) -> usize {
    let s = sim();
    let id = s.th.len();
    let word = Box::new(AtomicU32::new(0));
    let wp: *const AtomicU32 = &*word;
    let st = Box::new(Start { id: id as u32, f, word: wp });
    let mut pt: libc::pthread_t = 0;
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
        let r = libc::pthread_create(&mut pt, &attr, trampoline, Box::into_raw(st) as *mut _);
        libc::pthread_attr_destroy(&mut attr);
        if r != 0 {
            crate::harness_error("pthread_create failed");
        }
    }
    s.th.push(Th { st: St::Ready, word, pt, crashed: false, timed: false, timed_out: false });
    if in_sim() {
        s.event(0x54, id as u64);
        s.new_slice();
    }
    id
}

/// Wait until every other simulated thread is done.
pub fn join_all() {
    let s = sim();
    let me = s.cur;
    if s.th.iter().enumerate().all(|(i, t)| i == me || t.st == St::Done) {
        return;
    }
    s.th[me].st = St::Join;
    block();
}

pub fn crashed(id: usize) -> bool {
    sim().th[id].crashed
}

/// A voluntary scheduling point.
pub fn yield_now() {
    let s = sim();
    s.account();
    if s.ready() > 1 {
        preempt();
    }
}

pub struct RunResult {
    pub verdict: Option<Verdict>,
    pub tapes: Tapes,
    pub digest: u64,
    pub sig: u64,
    pub steps: u64,
    pub switches: u64,
    pub faults: u64,
    pub hash_draws: u64,
    pub clock_ns: u64,
    pub stats: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub states: std::collections::BTreeSet<u64>,
    pub known: Vec<String>,
    pub nontrivial: bool,
    /// Threads were abandoned: do not run anything else in this process.
    pub poisoned: bool,
}

/// Execute one simulation. `wall_ms` only guards against code that spins
/// without executing a single instrumented edge.
pub fn run(src: Source, limits: Limits, wall_ms: u64, body: Box<dyn FnOnce() + Send>) -> RunResult {
    unsafe {
        SIM = Some(Box::new(Sim {
            src,
            fs: SimFs::default(),
            th: vec![],
            cur: 0,
            steps: 0,
            slice: 0,
            limits,
            max_slice: 0,
            spurious: 0,
            clock_ns: 1_000_000_000,
            verdict: None,
            finished: false,
            stats: BTreeMap::new(),
            sig: 0,
            digest: 0,
            trace: vec![],
            switches: 0,
            faults: 0,
            hash_draws: 0,
            hash_fixed: None,
            states: Default::default(),
            known: vec![],
            nontrivial: false,
        }));
        COUNTDOWN = 0;
    }
    CTRL.store(0, Ordering::Release);
    spawn_boxed(body);
    let s = sim();
    s.th[0].word.store(1, Ordering::Release);
    sys::futex_wake(&s.th[0].word);
    let mut waited = 0;
    while CTRL.load(Ordering::Acquire) == 0 {
        sys::futex_wait(&CTRL, 0, Some(200));
        if CTRL.load(Ordering::Acquire) == 0 {
            waited += 200;
            if waited > wall_ms {
                break;
            }
        }
    }
    let timed_out = CTRL.load(Ordering::Acquire) == 0;
    let s = sim();
    let clean = !timed_out && s.th.iter().all(|t| t.st == St::Done);
    if clean {
        for t in &s.th {
            unsafe { libc::pthread_join(t.pt, std::ptr::null_mut()) };
        }
        // The kernel frees dead threads after a grace period; with every core
        // busy starting threads that backlog can fill the memory.
        static BORN: AtomicU64 = AtomicU64::new(0);
        let n = s.th.len() as u64;
        let b = BORN.fetch_add(n, Ordering::Relaxed);
        if b / 2048 != (b + n) / 2048 {
            unsafe { sys::sys3(libc::SYS_membarrier, libc::MEMBARRIER_CMD_GLOBAL as usize, 0, 0) };
        }
    }
    let verdict = if timed_out { Some(Verdict { class: "hang".into(), detail: format!("no progress for {wall_ms} ms outside instrumented code") }) } else { s.verdict.clone() };
    let r = RunResult {
        verdict,
        tapes: s.src.consumed(),
        digest: tape::mix(s.digest, s.steps),
        sig: s.sig,
        steps: s.steps,
        switches: s.switches,
        faults: s.faults,
        hash_draws: s.hash_draws,
        clock_ns: s.clock_ns - 1_000_000_000,
        stats: std::mem::take(&mut s.stats),
        trace: std::mem::take(&mut s.trace),
        states: std::mem::take(&mut s.states),
        known: std::mem::take(&mut s.known),
        nontrivial: s.nontrivial,
        poisoned: !clean,
    };
    if clean {
        unsafe { SIM = None };
    }
    r
}

/// Seed for a hash map created inside the simulation.
pub fn hash_seed() -> u64 {
    if in_sim() {
        let s = sim();
        s.hash_draws += 1;
        match &mut s.hash_fixed {
            Some(x) => tape::splitmix(x),
            None => s.draw(HASH, 0),
        }
    } else {
        0x5EED
    }
}
