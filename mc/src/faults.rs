//! Stand-ins for the C library calls behind file access. While a harness is injecting, each
//! call's answer is one of the decisions the model checker enumerates; at all other times,
//! and on all other threads, the calls go straight to the kernel.

use crate::engine::Ctx;
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq)]
pub struct Injected(pub Vec<(&'static str, &'static str)>);
impl Injected {
    /// Whether any answer amounts to a failure, as opposed to an interrupted or partial call.
    pub fn fatal(&self) -> bool {
        self.0.iter().any(|f| f.1 != "interrupted" && f.1 != "short")
    }
}

thread_local! {
    static CTX: Cell<*mut c_void> = const { Cell::new(std::ptr::null_mut()) };
    static ANY: Cell<usize> = const { Cell::new(0) };
    static LEFT: Cell<usize> = const { Cell::new(0) };
    static DONE: RefCell<Vec<(&'static str, &'static str)>> = const { RefCell::new(Vec::new()) };
}

thread_local! {
    /// By how many milliseconds this thread's clocks are ahead.
    static AHEAD: Cell<i64> = const { Cell::new(0) };
}

/// Lets time pass on this thread, for as long as this lives.
pub struct Clock;
impl Clock {
    pub fn new() -> Clock {
        AHEAD.with(|a| a.set(0));
        Clock
    }
    pub fn pass(ms: i64) {
        AHEAD.with(|a| a.set(a.get() + ms));
    }
}
impl Drop for Clock {
    fn drop(&mut self) {
        AHEAD.with(|a| a.set(0));
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, t) as c_int;
    let ahead = AHEAD.with(|a| a.get());
    if r == 0 && ahead != 0 {
        let ns = (*t).tv_sec as i128 * 1_000_000_000 + (*t).tv_nsec as i128 + ahead as i128 * 1_000_000;
        // Only the time of day can be set back.
        if ahead > 0 || clock == libc::CLOCK_REALTIME {
            (*t).tv_sec = ns.div_euclid(1_000_000_000) as libc::time_t;
            (*t).tv_nsec = ns.rem_euclid(1_000_000_000) as _;
        }
    }
    r
}

struct Disarm;
impl Drop for Disarm {
    fn drop(&mut self) {
        CTX.with(|c| c.set(std::ptr::null_mut()));
    }
}

/// Runs `f` with up to `budget` of its system calls answered by a fault.
pub fn inject<T>(ctx: &mut Ctx, budget: usize, f: impl FnOnce() -> T) -> (T, Injected) {
    DONE.with(|d| d.borrow_mut().clear());
    LEFT.with(|l| l.set(budget));
    CTX.with(|c| c.set(ctx as *mut Ctx as *mut c_void));
    let guard = Disarm;
    let r = f();
    drop(guard);
    (r, Injected(DONE.with(|d| d.borrow().clone())))
}

/// The answer for this call: None to let it through.
fn answer(call: &'static str, faults: &[&'static str]) -> Option<&'static str> {
    let ctx = CTX.with(|c| c.get());
    if ctx.is_null() || LEFT.with(|l| l.get()) == 0 {
        return None;
    }
    let any = ANY.with(|a| a.get());
    let faults = if any > 0 { &errnos()[..any.min(errnos().len())] } else { faults };
    // The calls made while deciding must not be decided on themselves.
    CTX.with(|c| c.set(std::ptr::null_mut()));
    let ctx_ref: &mut Ctx = unsafe { &mut *(ctx as *mut Ctx) };
    let c = ctx_ref.choose(faults.len() + 1);
    let r = if c == 0 {
        None
    } else {
        LEFT.with(|l| l.set(l.get() - 1));
        DONE.with(|d| d.borrow_mut().push((call, faults[c - 1])));
        Some(faults[c - 1])
    };
    CTX.with(|c| c.set(ctx));
    r
}

fn errno(fault: &str) {
    let e = match fault {
        "interrupted" => libc::EINTR,
        "denied" => libc::EACCES,
        "full" => libc::ENOSPC,
        "missing" => libc::ENOENT,
        "too many files" => libc::EMFILE,
        _ => match fault.strip_prefix("error ") {
            Some(n) => n.parse().unwrap(),
            None => libc::EIO,
        },
    };
    unsafe { *libc::__errno_location() = e };
}

const OPEN: &[&str] = &["interrupted", "denied", "too many files"];

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(f) = answer("open", OPEN) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    creat(path, mode)
}

/// How much of `n` bytes a short transfer moves.
fn part(n: size_t) -> size_t {
    if n > 4096 {
        // Cut a read somewhere inside the data that is really there.
        5
    } else {
        n.div_ceil(2)
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if n > 0 {
        match answer("read", &["interrupted", "short", "failed"]) {
            None => (),
            Some("short") => n = part(n),
            Some(f) => {
                errno(f);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if n > 0 {
        match answer("write", &["interrupted", "short", "full", "failed", "nothing written"]) {
            None => (),
            Some("short") => n = n.div_ceil(2),
            Some("nothing written") => return 0,
            Some(f) => {
                errno(f);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if n > 0 {
        match answer("writev", &["interrupted", "short", "full", "failed"]) {
            None => (),
            Some("short") => {
                return libc::syscall(libc::SYS_write, fd, (*iov).iov_base, (*iov).iov_len.div_ceil(2)) as ssize_t
            }
            Some(f) => {
                errno(f);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if n > 0 {
        if let Some(f) = answer("readv", &["interrupted", "failed"]) {
            errno(f);
            return -1;
        }
    }
    libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, at: off_t) -> ssize_t {
    let mut n = n;
    match answer("pwrite", &["interrupted", "short", "full"]) {
        None => (),
        Some("short") => n = n.div_ceil(2),
        Some(f) => {
            errno(f);
            return -1;
        }
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, at) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Some(f) = answer("fsync", &["interrupted", "failed"]) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Some(f) = answer("fdatasync", &["interrupted", "failed"]) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    if let Some(f) = answer("ftruncate", &["interrupted", "failed"]) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(f) = answer("rename", &["denied", "failed"]) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(f) = answer("unlink", &["denied"]) {
        errno(f);
        return -1;
    }
    libc::syscall(libc::SYS_unlink, a) as c_int
}

unsafe fn next(name: &std::ffi::CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if let Some(f) = answer("opendir", &["denied", "too many files"]) {
        errno(f);
        return std::ptr::null_mut();
    }
    type Real = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
    std::mem::transmute::<*mut c_void, Real>(next(c"opendir"))(path)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(f) = answer("readdir", &["failed"]) {
        errno(f);
        return std::ptr::null_mut();
    }
    type Real = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    std::mem::transmute::<*mut c_void, Real>(next(c"readdir64"))(dir)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, out: *mut libc::statx) -> c_int {
    // The library probes with null pointers whether the call exists at all.
    if !out.is_null() {
        if let Some(f) = answer("statx", &["denied"]) {
            errno(f);
            return -1;
        }
    }
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(f) = answer("realpath", &["denied", "missing", "failed"]) {
        errno(f);
        return std::ptr::null_mut();
    }
    type Real = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let real = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr()) as usize);
    let real: Real = std::mem::transmute::<usize, Real>(real);
    real(path, out)
}

/// The same harness with every error number there is as a possible answer to each call.
pub fn every_errno(name: &'static str, few: usize, h: crate::engine::Harness) -> crate::engine::Harness {
    let about = format!("{}; here one call answered by any of {} error numbers of the system", h.bounds, few.min(errnos().len()));
    crate::engine::Harness::new(name, about, move |ctx| {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ANY.with(|a| a.set(0));
            }
        }
        let _off = Off;
        ANY.with(|a| a.set(few));
        (h.run)(ctx)
    })
}

/// All of them but the one for interrupted calls, those that code may treat specially first.
fn errnos() -> &'static [&'static str] {
    static ALL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![libc::ENOENT, libc::EAGAIN, libc::ENOTDIR, libc::EPERM, libc::ELOOP, libc::ETIMEDOUT, libc::ESTALE, libc::EISDIR];
        v.extend([libc::EACCES, libc::ENOSYS, libc::EINVAL, libc::EBUSY, libc::EROFS, libc::ENOTSUP, libc::ENAMETOOLONG, libc::EXDEV, libc::EEXIST, libc::EFAULT, libc::EBADF]);
        let rest: Vec<i32> = (1..=133).filter(|e| *e != libc::EINTR && !v.contains(e)).collect();
        v.extend(rest);
        v.iter().map(|e| &*format!("error {}", e).leak()).collect()
    })
}
