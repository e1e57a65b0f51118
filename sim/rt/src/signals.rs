//! Fatal signals inside a simulated thread (stack overflow, abort, allocation
//! failure) become a verdict of the run instead of killing the worker.
use crate::sched;

pub fn altstack() {
    unsafe {
        let n = 128 << 10;
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let st = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: n };
        libc::sigaltstack(&st, std::ptr::null_mut());
        ALT.with(|a| a.0.set(p as usize));
    }
}

struct Alt(std::cell::Cell<usize>);
impl Drop for Alt {
    fn drop(&mut self) {
        unsafe {
            let st = libc::stack_t { ss_sp: std::ptr::null_mut(), ss_flags: libc::SS_DISABLE, ss_size: 0 };
            libc::sigaltstack(&st, std::ptr::null_mut());
            libc::munmap(self.0.get() as *mut _, 128 << 10);
        }
    }
}
thread_local! { static ALT: Alt = const { Alt(std::cell::Cell::new(0)) }; }

extern "C" fn handler(sig: i32) {
    if sched::in_sim() {
        let name = match sig {
            libc::SIGSEGV => "SIGSEGV (stack overflow or bad access)",
            libc::SIGABRT => "SIGABRT (abort)",
            libc::SIGBUS => "SIGBUS",
            libc::SIGILL => "SIGILL",
            _ => "SIGFPE",
        };
        sched::halt("signal", name.to_string());
    }
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

pub fn install() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = handler as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        // a runaway allocation fails instead of taking the machine down
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
}
