//! Kills this process at a chosen file operation. The libc functions that change files are
//! replaced by wrappers; they do nothing but pass calls through unless `arm` was called, which only
//! child processes of the crash checks do.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::{
    cell::UnsafeCell,
    ffi::CStr,
    sync::atomic::{AtomicBool, AtomicI64, Ordering},
};

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
static TARGET: AtomicI64 = AtomicI64::new(-1);
/// How many bytes of the fatal write are still written.
static BYTES: AtomicI64 = AtomicI64::new(0);
const MAX_FD: usize = 4096;
#[allow(clippy::declare_interior_mutable_const)]
const NO: AtomicBool = AtomicBool::new(false);
static TRACKED: [AtomicBool; MAX_FD] = [NO; MAX_FD];

struct Prefix(UnsafeCell<Vec<u8>>, UnsafeCell<Vec<(&'static str, usize)>>);
// Written only before arming, or under the counter's order by a single process at a time.
unsafe impl Sync for Prefix {}
static PREFIX: Prefix = Prefix(UnsafeCell::new(Vec::new()), UnsafeCell::new(Vec::new()));
static LOG_LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// From now on count operations on files below `prefix`; die before operation `target` (none if
/// negative), or after `bytes` bytes of it if it is a write.
pub fn setup(prefix: &str, target: i64, bytes: i64) {
    unsafe { *PREFIX.0.get() = prefix.as_bytes().to_vec() };
    TARGET.store(target, Ordering::SeqCst);
    BYTES.store(bytes, Ordering::SeqCst);
}

pub fn arm(on: bool) {
    ARMED.store(on, Ordering::SeqCst);
}

/// The operations met so far, with the length of writes.
pub fn log() -> Vec<(&'static str, usize)> {
    let _l = LOG_LOCK.lock();
    unsafe { (*PREFIX.1.get()).clone() }
}

fn die() -> ! {
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
        loop {
            libc::pause();
        }
    }
}

fn inside(path: *const c_char) -> bool {
    if path.is_null() || !ARMED.load(Ordering::SeqCst) {
        return false;
    }
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    p.starts_with(unsafe { &*PREFIX.0.get() })
}

/// Counts an operation; true if it is the fatal one.
fn fatal(kind: &'static str, len: usize) -> bool {
    let n = COUNT.fetch_add(1, Ordering::SeqCst);
    {
        let _l = LOG_LOCK.lock();
        unsafe { (*PREFIX.1.get()).push((kind, len)) };
    }
    n == TARGET.load(Ordering::SeqCst)
}

fn point(kind: &'static str, path: *const c_char) {
    if inside(path) && fatal(kind, 0) {
        die();
    }
}

fn tracked(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < MAX_FD && TRACKED[fd as usize].load(Ordering::SeqCst)
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let ours = inside(path);
    let changes = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if ours && changes && fatal("open", 0) {
        die();
    }
    let fd = libc::syscall(libc::SYS_openat, dir as c_long, path, flags as c_long, mode as c_long) as c_int;
    if fd >= 0 && (fd as usize) < MAX_FD {
        let writes = flags & libc::O_ACCMODE != libc::O_RDONLY;
        TRACKED[fd as usize].store(ours && writes, Ordering::SeqCst);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if tracked(fd) && ARMED.load(Ordering::SeqCst) && fatal("write", n) {
        let part = (BYTES.load(Ordering::SeqCst) as usize).min(n);
        let mut done = 0;
        while done < part {
            let r = libc::syscall(libc::SYS_write, fd as c_long, buf.add(done), part - done);
            if r <= 0 {
                break;
            }
            done += r as usize;
        }
        die();
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if tracked(fd) && ARMED.load(Ordering::SeqCst) && fatal("writev", 0) {
        die();
    }
    libc::syscall(libc::SYS_writev, fd as c_long, iov, n as c_long) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, at: off64_t) -> ssize_t {
    if tracked(fd) && ARMED.load(Ordering::SeqCst) && fatal("pwrite", 0) {
        die();
    }
    libc::syscall(libc::SYS_pwrite64, fd as c_long, buf, n, at) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if tracked(fd) && ARMED.load(Ordering::SeqCst) && fatal("truncate", 0) {
        die();
    }
    libc::syscall(libc::SYS_ftruncate, fd as c_long, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < MAX_FD {
        TRACKED[fd as usize].store(false, Ordering::SeqCst);
    }
    libc::syscall(libc::SYS_close, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    point("rename", b);
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    point("unlink", a);
    libc::syscall(libc::SYS_unlink, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    point("mkdir", a);
    libc::syscall(libc::SYS_mkdir, a, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: mode_t) -> c_int {
    point("chmod", a);
    libc::syscall(libc::SYS_chmod, a, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if tracked(fd) && ARMED.load(Ordering::SeqCst) && fatal("fchmod", 0) {
        die();
    }
    libc::syscall(libc::SYS_fchmod, fd as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(
    d1: c_int,
    a: *const c_char,
    d2: c_int,
    b: *const c_char,
    flags: c_int,
) -> c_int {
    point("link", b);
    libc::syscall(libc::SYS_linkat, d1 as c_long, a, d2 as c_long, b, flags as c_long) as c_int
}
