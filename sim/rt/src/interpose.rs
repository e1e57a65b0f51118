//! libc symbols defined by the harness binary. Simulated threads get the
//! simulated world; every other thread gets the raw system call.
#![allow(non_snake_case)]
use crate::fs::{self, FD_BASE};
use crate::sched::{in_sim, sim};
use crate::sys::{sys3, sys6};
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, off64_t, size_t, ssize_t};

unsafe fn ret(r: Result<isize, i32>) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => {
            unsafe { *libc::__errno_location() = e };
            -1
        }
    }
}
unsafe fn raw(r: isize) -> isize {
    if r < 0 && r > -4096 { unsafe { ret(Err(-r as i32)) } } else { r }
}
fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE && in_sim()
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        if in_sim() && fs::is_sim_path(p) {
            return ret(fs::open(p, flags)) as c_int;
        }
        raw(sys3(2, p as usize, flags as usize, mode as usize)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        if in_sim() && fs::is_sim_path(p) {
            return ret(fs::open(p, flags)) as c_int;
        }
        raw(sys6(257, dir as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { openat64(dir, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    unsafe {
        if simfd(fd) {
            return ret(fs::close(fd)) as c_int;
        }
        raw(sys3(3, fd as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    unsafe {
        if simfd(fd) {
            return ret(fs::read(fd, b as *mut u8, n, None));
        }
        raw(sys3(0, fd as usize, b as usize, n))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    unsafe {
        if simfd(fd) {
            return ret(fs::read(fd, b as *mut u8, n, Some(off as usize)));
        }
        raw(sys6(17, fd as usize, b as usize, n, off as usize, 0, 0))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    unsafe {
        if simfd(fd) {
            for i in 0..n as usize {
                let x = &*v.add(i);
                if x.iov_len > 0 {
                    return ret(fs::read(fd, x.iov_base as *mut u8, x.iov_len, None));
                }
            }
            return 0;
        }
        raw(sys3(19, fd as usize, v as usize, n as usize))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    unsafe {
        if in_sim() {
            if fd >= FD_BASE {
                return ret(fs::write(fd, std::slice::from_raw_parts(b as *const u8, n), None));
            }
            if fd == 1 || fd == 2 {
                return ret(fs::console(fd, n));
            }
        }
        raw(sys3(1, fd as usize, b as usize, n))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    unsafe {
        if simfd(fd) {
            return ret(fs::write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as usize)));
        }
        raw(sys6(18, fd as usize, b as usize, n, off as usize, 0, 0))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    unsafe {
        if in_sim() && (fd >= FD_BASE || fd == 1 || fd == 2) {
            let mut all = Vec::new();
            for i in 0..n as usize {
                let x = &*v.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
            }
            if fd >= FD_BASE {
                return ret(fs::write(fd, &all, None));
            }
            return ret(fs::console(fd, all.len()));
        }
        raw(sys3(20, fd as usize, v as usize, n as usize))
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    unsafe {
        if simfd(fd) {
            return ret(fs::lseek(fd, off, w)) as off64_t;
        }
        raw(sys3(8, fd as usize, off as usize, w as usize)) as off64_t
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    unsafe {
        if simfd(fd) {
            return ret(fs::truncate_fd(fd, len as usize)) as c_int;
        }
        raw(sys3(77, fd as usize, len as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    unsafe {
        if simfd(fd) {
            return ret(fs::sync(fd)) as c_int;
        }
        raw(sys3(74, fd as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe {
        if simfd(fd) {
            return ret(fs::sync(fd)) as c_int;
        }
        raw(sys3(75, fd as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    unsafe {
        if in_sim() && fs::is_sim_path(a) {
            return ret(fs::rename(a, b)) as c_int;
        }
        raw(sys3(82, a as usize, b as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    unsafe {
        if in_sim() && fs::is_sim_path(a) {
            return ret(fs::unlink(a)) as c_int;
        }
        raw(sys3(87, a as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe {
        if simfd(fd) {
            return match cmd {
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(fs::dup(fd)) as c_int,
                libc::F_GETFL => sim().fs.fds.get(&fd).map_or(0, |f| f.flags),
                _ => 0,
            };
        }
        raw(sys3(72, fd as usize, cmd as usize, arg)) as c_int
    }
}
unsafe fn fill(st: *mut libc::stat64, size: usize) {
    unsafe {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_mode = libc::S_IFREG | 0o644;
        (*st).st_size = size as i64;
        (*st).st_nlink = 1;
        (*st).st_blksize = 4096;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    unsafe {
        if simfd(fd) {
            return match fs::size_fd(fd) {
                Ok(n) => {
                    fill(st, n);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
        raw(sys3(5, fd as usize, st as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    unsafe {
        if in_sim() && fs::is_sim_path(p) {
            return match fs::size_path(p) {
                Ok(n) => {
                    fill(st, n);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
        raw(sys3(4, p as usize, st as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    unsafe {
        if in_sim() && (dir >= FD_BASE || fs::is_sim_path(p)) {
            let r = if dir >= FD_BASE { fs::size_fd(dir) } else { fs::size_path(p) };
            return match r {
                Ok(n) => {
                    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*st).stx_mask = 0x7ff;
                    (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
                    (*st).stx_size = n as u64;
                    (*st).stx_nlink = 1;
                    (*st).stx_blksize = 4096;
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
        raw(sys6(332, dir as usize, p as usize, flags as usize, mask as usize, st as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    unsafe {
        if in_sim() {
            let s = sim();
            s.clock_ns += 100;
            (*ts).tv_sec = (s.clock_ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (s.clock_ns % 1_000_000_000) as i64;
            return 0;
        }
        raw(sys3(228, clk as usize, ts as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    unsafe {
        if in_sim() {
            sim().clock_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            crate::sched::yield_now();
            return 0;
        }
        raw(sys3(35, req as usize, rem as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    unsafe {
        if in_sim() {
            sim().clock_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            crate::sched::yield_now();
            return 0;
        }
        -(sys6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    unsafe {
        if in_sim() {
            crate::sched::yield_now();
            return 0;
        }
        raw(sys3(24, 0, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: c_uint) -> ssize_t {
    let mut x = crate::sched::hash_seed();
    let b = buf as *mut u8;
    for i in 0..len {
        unsafe { *b.add(i) = crate::tape::splitmix(&mut x) as u8 };
    }
    len as ssize_t
}

/// std, parking and once_cell block through `syscall(SYS_futex, ..)`.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    unsafe {
        if in_sim() {
            if n == libc::SYS_futex {
                match b & 0x7f {
                    0 | 9 => {
                        if *(a as *const u32) != c as u32 {
                            return ret(Err(libc::EAGAIN)) as c_long;
                        }
                        if !crate::sched::futex_wait(a, d != 0) {
                            return ret(Err(libc::ETIMEDOUT)) as c_long;
                        }
                        return 0;
                    }
                    1 | 10 => return sim().futex_wake(a, c.min(1 << 20)) as c_long,
                    _ => {}
                }
            }
            if n == libc::SYS_getrandom {
                return getrandom(a as *mut c_void, b, 0) as c_long;
            }
        }
        raw(sys6(n, a, b, c, d, e, f)) as c_long
    }
}
