//! Raw system calls. Nothing here goes through libc, so the interposed
//! symbols in `interpose.rs` cannot recurse into themselves.
use std::arch::asm;
use std::sync::atomic::AtomicU32;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

#[inline(always)]
pub unsafe fn sys3(n: i64, a: usize, b: usize, c: usize) -> isize {
    unsafe { sys6(n, a, b, c, 0, 0, 0) }
}

pub fn futex_wait(w: &AtomicU32, val: u32, timeout_ms: Option<u64>) -> isize {
    let ts = timeout_ms.map(|t| [(t / 1000) as i64, ((t % 1000) * 1_000_000) as i64]);
    let p = ts.as_ref().map_or(0, |t| t.as_ptr() as usize);
    // FUTEX_WAIT_PRIVATE
    unsafe { sys6(202, w as *const _ as usize, 128, val as usize, p, 0, 0) }
}

pub fn futex_wake(w: &AtomicU32) {
    // FUTEX_WAKE_PRIVATE
    unsafe { sys6(202, w as *const _ as usize, 129, 1, 0, 0, 0) };
}

/// End this OS thread at once: no destructors, no unwinding.
pub fn thread_exit() -> ! {
    loop {
        unsafe { sys3(60, 0, 0, 0) };
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys3(1, fd as usize, b.as_ptr() as usize, b.len()) };
        if r == -4 || r == -11 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

/// Pin the process to one core; purely a speed-up, failure is ignored.
pub fn pin(core: usize) {
    let mut mask = [0u64; 16];
    mask[(core / 64) % 16] |= 1 << (core % 64);
    unsafe { sys3(203, 0, 128, mask.as_ptr() as usize) };
}
