//! The operating system's transfers (read, write, ...) as the harness wants them to be: these symbols take the place of
//! those of the C library in this program. Only the transfers of the calls of the code under test are concerned
//! (between `arm` and `disarm`), and only those on files (not on the standard streams).
//!
//! A schedule is a sequence of actions, one per transfer:
//!   0 everything is transferred    1 all bytes but one    2 one byte    3 the first half    4 interrupted (EINTR)
//!   5 fails with EIO               6 fails with ENOSPC    7 the process stops before it    8 ... after half of it
//! (A process that has stopped is simulated by a storage that does not change any more.)
use libc::{c_int, c_void, iovec, off_t, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static ARMED: AtomicBool = AtomicBool::new(false);
static FROZEN: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static PARTIAL: AtomicUsize = AtomicUsize::new(0);
static ERRORS: AtomicUsize = AtomicUsize::new(0);
static PLAN: Mutex<Plan> = Mutex::new(Plan { on: false, cycle: false, from: 0, reads: true, writes: true, sched: Vec::new(), last: 0 });

pub struct Plan { on: bool, cycle: bool, from: usize, reads: bool, writes: bool, sched: Vec<u8>, last: u8 }

/// The schedule holds from transfer number `from` on (counted from now); with `cycle` again and again.
pub fn set(sched: Vec<u8>, from: usize, cycle: bool, reads: bool, writes: bool) {
    COUNT.store(0, SeqCst);
    *PLAN.lock().unwrap() = Plan { on: true, cycle, from, reads, writes, sched, last: 0 };
}
pub fn clear() { PLAN.lock().unwrap().on = false; FROZEN.store(false, SeqCst); COUNT.store(0, SeqCst); }
pub fn count() -> usize { COUNT.load(SeqCst) }
pub fn frozen() -> bool { FROZEN.load(SeqCst) }
pub fn arm() { PARTIAL.store(0, SeqCst); ERRORS.store(0, SeqCst); ARMED.store(true, SeqCst); }
/// (partial or interrupted transfers, failed transfers) since `arm`
pub fn disarm() -> (usize, usize) { ARMED.store(false, SeqCst); (PARTIAL.load(SeqCst), ERRORS.load(SeqCst)) }

/// How many of n bytes to transfer; an error; or None: nothing happens, but it looks as if all was done
enum Do { Some(usize), Err(c_int), Pretend }
fn next(fd: c_int, n: usize, write: bool) -> Do {
    if !ARMED.load(SeqCst) || fd <= 2 { return Do::Some(n); }
    if FROZEN.load(SeqCst) { return if write { Do::Pretend } else { Do::Some(n) }; }
    let mut p = PLAN.lock().unwrap();
    if !p.on || (write && !p.writes) || (!write && !p.reads) { return Do::Some(n); }
    let k = COUNT.fetch_add(1, SeqCst);
    if k < p.from || p.sched.is_empty() { return Do::Some(n); }
    let j = k - p.from;
    let a = if p.cycle { p.sched[j % p.sched.len()] } else if j < p.sched.len() { p.sched[j] } else { 0 };
    let a = if a == 4 && p.last == 4 { 0 } else { a };   // (not for ever)
    p.last = a;
    let part = |m: usize| if m < n && m > 0 { PARTIAL.fetch_add(1, SeqCst); Do::Some(m) } else { Do::Some(n) };
    match a {
        1 => part(n.saturating_sub(1)),
        2 => part(1),
        3 => part((n + 1) / 2),
        4 => { PARTIAL.fetch_add(1, SeqCst); Do::Err(libc::EINTR) }
        5 => { ERRORS.fetch_add(1, SeqCst); Do::Err(libc::EIO) }
        6 => { ERRORS.fetch_add(1, SeqCst); Do::Err(libc::ENOSPC) }
        7 => { FROZEN.store(true, SeqCst); if write { Do::Pretend } else { Do::Some(n) } }
        8 => { FROZEN.store(true, SeqCst); if n < 2 { Do::Pretend } else { Do::Some(n / 2) } }
        _ => Do::Some(n),
    }
}
fn fail(e: c_int) -> ssize_t { unsafe { *libc::__errno_location() = e; } -1 }

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match next(fd, n, true) {
        Do::Some(m) => libc::syscall(libc::SYS_write, fd, buf, m) as ssize_t,
        Do::Err(e) => fail(e),
        Do::Pretend => { libc::syscall(libc::SYS_lseek, fd, n as off_t, libc::SEEK_CUR); n as ssize_t }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match next(fd, n, false) {
        Do::Some(m) => libc::syscall(libc::SYS_read, fd, buf, m) as ssize_t,
        Do::Err(e) => fail(e),
        Do::Pretend => n as ssize_t,
    }
}
unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    match next(fd, n, true) {
        Do::Some(m) => libc::syscall(libc::SYS_pwrite64, fd, buf, m, o) as ssize_t,
        Do::Err(e) => fail(e),
        Do::Pretend => n as ssize_t,
    }
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    match next(fd, n, false) {
        Do::Some(m) => libc::syscall(libc::SYS_pread64, fd, buf, m, o) as ssize_t,
        Do::Err(e) => fail(e),
        Do::Pretend => n as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t { do_pwrite(fd, buf, n, o) }
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t { do_pwrite(fd, buf, n, o) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t { do_pread(fd, buf, n, o) }
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t { do_pread(fd, buf, n, o) }
// of several buffers, the first that is not empty (a partial transfer, which the callers have to cope with)
unsafe fn first(v: *const iovec, c: c_int) -> (*mut c_void, usize) {
    for i in 0..c { let x = &*v.add(i as usize); if x.iov_len > 0 { return (x.iov_base, x.iov_len); } }
    (std::ptr::null_mut(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if !ARMED.load(SeqCst) || fd <= 2 { return libc::syscall(libc::SYS_writev, fd, v, c) as ssize_t; }
    let (b, n) = first(v, c);
    write(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if !ARMED.load(SeqCst) || fd <= 2 { return libc::syscall(libc::SYS_readv, fd, v, c) as ssize_t; }
    let (b, n) = first(v, c);
    read(fd, b, n)
}
unsafe fn do_truncate(fd: c_int, n: off_t) -> c_int {
    if ARMED.load(SeqCst) && FROZEN.load(SeqCst) { return 0; }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int { do_truncate(fd, n) }
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int { do_truncate(fd, n) }
