//! In-memory disk and console with injected faults.
//!
//! Everything under `/simfs/` lives here. A completed `write` survives a
//! simulated process crash; the write in flight at the crash is torn at a drawn
//! byte. Descriptors belong to the simulated process and vanish with it.
use crate::sched::{self, sim};
use crate::tape::FAULT;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1 << 20;
pub const PREFIX: &[u8] = b"/simfs/";

/// Fault kinds, as bits of the per-run mask.
pub const F_EINTR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_EIO: u32 = 4;
pub const F_ENOSPC: u32 = 8;
pub const F_ZERO: u32 = 16;
pub const F_EAGAIN: u32 = 32;
pub const F_OPEN: u32 = 64;
pub const F_EPIPE: u32 = 128;
pub const F_FULL: u32 = 256;
pub const F_EBADF: u32 = 512;

#[derive(Clone, Default)]
pub struct Inode {
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub flags: i32,
    pub path: String,
    pub owner: u32,
}

#[derive(Default)]
pub struct SimFs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    pub fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    /// Fault kinds enabled for files / console, and 1/rate per operation.
    pub mask: u32,
    pub rate: u64,
    pub con_mask: u32,
    pub con_rate: u64,
    /// After its first hard fault the console stays broken this way.
    pub con_stick: bool,
    con_dead: i32,
    /// Total bytes the disk can hold (0 = unlimited).
    pub capacity: usize,
    pub ops: u64,
    /// A fault that the caller is entitled to see as an error has fired.
    pub hard: u64,
    pub soft: u64,
    pub con_hard: u64,
    /// Consecutive EINTR/EAGAIN, bounded so that retry loops make progress.
    streak: u32,
    pub con_bytes: u64,
    pub con_calls: u64,
}

pub fn is_sim_path(p: *const libc::c_char) -> bool {
    if p.is_null() {
        return false;
    }
    let b = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
    b.starts_with(PREFIX)
}

fn path_of(p: *const libc::c_char) -> String {
    String::from_utf8_lossy(unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes()).into_owned()
}

type R = Result<isize, i32>;

fn soft(k: &'static str) {
    let s = sim();
    s.fs.soft += 1;
    s.fs.streak += 1;
    fired(k);
}
fn hard(k: &'static str) {
    let s = sim();
    s.fs.hard += 1;
    fired(k);
}
fn fired(k: &'static str) {
    let s = sim();
    s.faults += 1;
    s.count(k, 1);
    let n = s.fs.ops;
    s.mark(0x71 + k.len() as u64, n);
    s.note(|| format!("  op {n}: inject {k}"));
}

/// Start of a file operation: counts it, advances time, maybe crashes here.
fn op(what: &'static str) {
    let s = sim();
    s.fs.ops += 1;
    s.clock_ns += 20_000;
    s.count("fs.ops", 1);
    let n = s.fs.ops;
    s.event(0x70, n);
    s.note(|| format!("  op {n}: {what}"));
    let left = CRASH_IN.with(|c| c.get());
    if left > 0 {
        CRASH_IN.with(|c| c.set(left - 1));
        // the operation in flight is number 1; a write is torn in write()
        if left == 1 && what != "write" {
            die();
        }
    }
}

fn die() -> ! {
    let s = sim();
    let me = sched::tid();
    s.fs.fds.retain(|_, f| f.owner != me);
    fired("fault.crash");
    sched::crash_self()
}

/// Pick one of the enabled kinds in `set`, or none.
fn pick(set: u32) -> u32 {
    let s = sim();
    let m = s.fs.mask & set;
    if m == 0 || s.fs.rate == 0 {
        return 0;
    }
    let kinds: Vec<u32> = (0..32).map(|b| 1 << b).filter(|b| m & b != 0).collect();
    let v = s.draw(FAULT, s.fs.rate * kinds.len() as u64);
    // 1..=kinds fire, everything else is "no fault"
    if v >= 1 && (v as usize) <= kinds.len() { kinds[v as usize - 1] } else { 0 }
}

impl SimFs {
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let i = self.inodes.len();
        self.inodes.push(Inode { data });
        self.names.insert(path.to_string(), i);
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.names.get(path).map(|&i| self.inodes[i].data.as_slice())
    }
    pub fn used(&self) -> usize {
        self.names.values().map(|&i| self.inodes[i].data.len()).sum()
    }
    pub fn no_faults(&mut self) {
        self.mask = 0;
        self.capacity = 0;
        self.con_mask = 0;
        self.con_dead = 0;
    }
}

pub fn open(p: *const libc::c_char, flags: i32) -> R {
    op("open");
    let path = path_of(p);
    match pick(F_EINTR | F_OPEN) {
        F_EINTR if sim().fs.streak < 3 => {
            soft("fault.open_eintr");
            return Err(libc::EINTR);
        }
        F_OPEN => {
            let e = [libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EIO, libc::EROFS][sim().draw(FAULT, 5) as usize];
            hard("fault.open_error");
            return Err(e);
        }
        _ => {}
    }
    let s = sim();
    s.fs.streak = 0;
    let ino = match s.fs.names.get(&path) {
        Some(&i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            let i = s.fs.inodes.len();
            s.fs.inodes.push(Inode::default());
            s.fs.names.insert(path.clone(), i);
            i
        }
    };
    if flags & libc::O_TRUNC != 0 {
        s.fs.inodes[ino].data.clear();
    }
    s.fs.next_fd += 1;
    let fd = FD_BASE + s.fs.next_fd;
    s.fs.fds.insert(fd, Fd { ino, pos: 0, flags, path, owner: sched::tid() });
    Ok(fd as isize)
}

pub fn close(fd: i32) -> R {
    op("close");
    match sim().fs.fds.remove(&fd) {
        Some(_) => Ok(0),
        None => Err(libc::EBADF),
    }
}

pub fn read(fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> R {
    op("read");
    let s = sim();
    let Some(f) = s.fs.fds.get(&fd).cloned() else { return Err(libc::EBADF) };
    if f.flags & libc::O_ACCMODE == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    let k = pick(F_EINTR | F_SHORT | F_EIO | F_EAGAIN);
    if k == F_EINTR && s.fs.streak < 3 {
        soft("fault.read_eintr");
        return Err(libc::EINTR);
    }
    if k == F_EIO {
        hard("fault.read_eio");
        return Err(libc::EIO);
    }
    if k == F_EAGAIN {
        hard("fault.read_eagain");
        return Err(libc::EAGAIN);
    }
    s.fs.streak = 0;
    let pos = at.unwrap_or(f.pos);
    let data = &s.fs.inodes[f.ino].data;
    let mut n = len.min(data.len().saturating_sub(pos));
    if k == F_SHORT && n > 1 {
        let cut = sim().draw(FAULT, n as u64 - 1) as usize + 1; // 1..n-1
        n = n.saturating_sub(cut).max(1);
        soft("fault.read_short");
        s.fs.streak = 0;
    }
    let data = &s.fs.inodes[f.ino].data;
    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(pos.min(data.len())), buf, n) };
    if at.is_none() {
        s.fs.fds.get_mut(&fd).unwrap().pos += n;
    }
    Ok(n as isize)
}

pub fn write(fd: i32, buf: &[u8], at: Option<usize>) -> R {
    op("write");
    let s = sim();
    let Some(f) = s.fs.fds.get(&fd).cloned() else { return Err(libc::EBADF) };
    if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    let mut n = buf.len();
    if CRASHING.with(|c| c.get()) && CRASH_IN.with(|c| c.get()) == 0 {
        n = sim().draw(FAULT, n as u64 + 1) as usize;
        store(fd, &f, &buf[..n], at);
        die();
    }
    let k = pick(F_EINTR | F_SHORT | F_EIO | F_ENOSPC | F_ZERO | F_EAGAIN);
    if k == F_EINTR && s.fs.streak < 3 {
        soft("fault.write_eintr");
        return Err(libc::EINTR);
    }
    match k {
        F_EIO => {
            hard("fault.write_eio");
            return Err(libc::EIO);
        }
        F_ENOSPC => {
            hard("fault.write_enospc");
            return Err(libc::ENOSPC);
        }
        F_EAGAIN => {
            hard("fault.write_eagain");
            return Err(libc::EAGAIN);
        }
        F_ZERO if n > 0 => {
            hard("fault.write_zero");
            return Ok(0);
        }
        _ => {}
    }
    s.fs.streak = 0;
    if k == F_SHORT && n > 1 {
        let cut = sim().draw(FAULT, n as u64 - 1) as usize + 1;
        n = n.saturating_sub(cut).max(1);
        soft("fault.write_short");
        s.fs.streak = 0;
    }
    if s.fs.capacity > 0 && n > 0 {
        let room = s.fs.capacity.saturating_sub(s.fs.used());
        if room == 0 {
            hard("fault.disk_full");
            return Err(libc::ENOSPC);
        }
        if n > room {
            n = room;
            fired("fault.disk_full_short");
        }
    }
    store(fd, &f, &buf[..n], at);
    Ok(n as isize)
}

fn store(fd: i32, f: &Fd, b: &[u8], at: Option<usize>) {
    let s = sim();
    let d = &mut s.fs.inodes[f.ino].data;
    let pos = match at {
        Some(p) => p,
        None if f.flags & libc::O_APPEND != 0 => d.len(),
        None => f.pos,
    };
    if d.len() < pos + b.len() {
        d.resize(pos + b.len(), 0);
    }
    d[pos..pos + b.len()].copy_from_slice(b);
    if at.is_none() {
        if let Some(x) = s.fs.fds.get_mut(&fd) {
            x.pos = pos + b.len();
        }
    }
}

thread_local! {
    static CRASHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CRASH_IN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Arm a crash of the calling simulated process after `n` further file operations.
pub fn arm_crash(n: u64) {
    CRASH_IN.with(|c| c.set(n));
    CRASHING.with(|c| c.set(n > 0));
}

pub fn lseek(fd: i32, off: i64, whence: i32) -> R {
    op("lseek");
    let s = sim();
    let Some(f) = s.fs.fds.get(&fd) else { return Err(libc::EBADF) };
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        libc::SEEK_END => s.fs.inodes[f.ino].data.len() as i64,
        _ => return Err(libc::EINVAL),
    };
    if base + off < 0 {
        return Err(libc::EINVAL);
    }
    s.fs.fds.get_mut(&fd).unwrap().pos = (base + off) as usize;
    Ok((base + off) as isize)
}

pub fn truncate_fd(fd: i32, len: usize) -> R {
    op("ftruncate");
    let s = sim();
    let Some(f) = s.fs.fds.get(&fd).cloned() else { return Err(libc::EBADF) };
    s.fs.inodes[f.ino].data.resize(len, 0);
    Ok(0)
}

pub fn sync(fd: i32) -> R {
    op("fsync");
    let s = sim();
    if !s.fs.fds.contains_key(&fd) {
        return Err(libc::EBADF);
    }
    match pick(F_EINTR | F_EIO | F_ENOSPC) {
        F_EINTR if s.fs.streak < 3 => {
            soft("fault.sync_eintr");
            Err(libc::EINTR)
        }
        F_EIO => {
            hard("fault.sync_eio");
            Err(libc::EIO)
        }
        F_ENOSPC => {
            hard("fault.sync_enospc");
            Err(libc::ENOSPC)
        }
        _ => {
            s.fs.streak = 0;
            Ok(0)
        }
    }
}

pub fn rename(a: *const libc::c_char, b: *const libc::c_char) -> R {
    op("rename");
    let s = sim();
    if pick(F_EIO) != 0 {
        hard("fault.rename_eio");
        return Err(libc::EIO);
    }
    let (a, b) = (path_of(a), path_of(b));
    match s.fs.names.remove(&a) {
        Some(i) => {
            s.fs.names.insert(b, i);
            Ok(0)
        }
        None => Err(libc::ENOENT),
    }
}

pub fn unlink(a: *const libc::c_char) -> R {
    op("unlink");
    match sim().fs.names.remove(&path_of(a)) {
        Some(_) => Ok(0),
        None => Err(libc::ENOENT),
    }
}

pub fn dup(fd: i32) -> R {
    let s = sim();
    let Some(f) = s.fs.fds.get(&fd).cloned() else { return Err(libc::EBADF) };
    s.fs.next_fd += 1;
    let n = FD_BASE + s.fs.next_fd;
    s.fs.fds.insert(n, f);
    Ok(n as isize)
}

pub fn size_fd(fd: i32) -> Result<usize, i32> {
    let s = sim();
    s.fs.fds.get(&fd).map(|f| s.fs.inodes[f.ino].data.len()).ok_or(libc::EBADF)
}

pub fn size_path(p: *const libc::c_char) -> Result<usize, i32> {
    let s = sim();
    let path = path_of(p);
    s.fs.names.get(&path).map(|&i| s.fs.inodes[i].data.len()).ok_or(libc::ENOENT)
}

/// Console write: bytes are swallowed, faults follow the console mask.
pub fn console(fd: i32, len: usize) -> R {
    let s = sim();
    s.fs.con_calls += 1;
    let m = s.fs.con_mask;
    if s.fs.con_dead != 0 {
        fired("fault.console_still_broken");
        return Err(s.fs.con_dead);
    }
    if m != 0 && s.fs.con_rate > 0 {
        let kinds: Vec<u32> = (0..32).map(|b| 1 << b).filter(|b| m & b != 0).collect();
        let v = s.draw(FAULT, s.fs.con_rate * kinds.len() as u64);
        if v >= 1 && (v as usize) <= kinds.len() {
            let k = kinds[v as usize - 1];
            if k == F_EINTR && s.fs.streak < 3 {
                s.fs.streak += 1;
                fired("fault.console_eintr");
                return Err(libc::EINTR);
            }
            if k == F_SHORT && len > 1 {
                let cut = s.draw(FAULT, len as u64 - 1) as usize + 1;
                fired("fault.console_short");
                s.fs.con_bytes += (len - cut).max(1) as u64;
                return Ok((len - cut).max(1) as isize);
            }
            if k == F_ZERO {
                fired("fault.console_zero");
                s.fs.con_hard += 1;
                return Ok(0);
            }
            let (e, name) = match k {
                F_EIO => (libc::EIO, "fault.console_eio"),
                F_ENOSPC => (libc::ENOSPC, "fault.console_enospc"),
                F_EPIPE => (libc::EPIPE, "fault.console_epipe"),
                F_EAGAIN => (libc::EAGAIN, "fault.console_eagain"),
                F_EBADF => (libc::EBADF, "fault.console_ebadf"),
                _ => (0, ""),
            };
            if e != 0 {
                s.fs.con_hard += 1;
                if s.fs.con_stick {
                    s.fs.con_dead = e;
                }
                fired(name);
                return Err(e);
            }
        }
    }
    s.fs.streak = 0;
    s.fs.con_bytes += len as u64;
    s.event(0x7f, (fd as u64) << 32 | len as u64);
    Ok(len as isize)
}
