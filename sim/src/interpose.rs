//! libc symbols this binary defines itself. std and every dependency are linked
//! into this binary, so their calls to these functions land here. On threads
//! that belong to a simulated run the call is served by the `World`; on all
//! other threads it goes to the kernel unchanged.
//!
//! This is the whole seam: the library under test is built exactly as shipped.

use crate::world::{with_world, FD_BASE, SIM_PREFIX, WORLD};
use libc::*;
use std::ffi::CStr;

#[inline(always)]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
#[inline(always)]
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
#[inline(always)]
fn active() -> bool {
    !WORLD.with(|w| w.get()).is_null()
}
unsafe fn set<T>(r: Option<Result<T, i32>>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Some(Ok(v)) => f(v),
        Some(Err(e)) => {
            *__errno_location() = e;
            -1
        }
        None => {
            *__errno_location() = EBADF;
            -1
        }
    }
}
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    if s.starts_with(SIM_PREFIX) {
        Some(s)
    } else {
        None
    }
}
fn sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && active()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        with_world(|w| w.random_bytes(b));
        return len as ssize_t;
    }
    ret(sys(SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if active() {
        let ns = with_world(|w| w.read_clock()).unwrap_or(0);
        (*t).tv_sec = ns.div_euclid(1_000_000_000) as time_t;
        (*t).tv_nsec = ns.rem_euclid(1_000_000_000) as c_long;
        return 0;
    }
    ret(sys(SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as c_int
}
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(path) = sim_path(p) {
        crate::sched::step(true);
        return set(with_world(|w| w.open(&path, flags, false)), |fd| fd as i64) as c_int;
    }
    if active() {
        // A simulated run touches a path outside the simulated disk.
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        with_world(|w| w.foreign_paths.push(s));
        if flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0 {
            *__errno_location() = EACCES;
            return -1;
        }
    }
    ret(sys(SYS_openat, dir as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_fd(fd) {
        crate::sched::step(true);
        return set(with_world(|w| w.close(fd)), |_| 0) as c_int;
    }
    ret(sys(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        crate::sched::step(true);
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        return set(with_world(|w| w.read(fd, b)), |n| n as i64) as ssize_t;
    }
    ret(sys(SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(sys(SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        crate::sched::step(true);
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        return set(with_world(|w| w.write(fd, b)), |n| n as i64) as ssize_t;
    }
    ret(sys(SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(sys(SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if sim_fd(fd) {
        crate::sched::step(true);
        return set(with_world(|w| w.seek(fd, off, wh)), |n| n as i64);
    }
    ret(sys(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sim_fd(fd) {
        return set(with_world(|w| w.truncate(fd, len as u64)), |_| 0) as c_int;
    }
    ret(sys(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return set(with_world(|w| w.flush(fd)), |_| 0) as c_int;
    }
    ret(sys(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return set(with_world(|w| w.flush(fd)), |_| 0) as c_int;
    }
    ret(sys(SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if sim_fd(fd) {
        let len = with_world(|w| w.file_len(fd)).unwrap_or(0);
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
        (*st).st_mode = S_IFREG | 0o644;
        (*st).st_size = len as i64;
        return 0;
    }
    ret(sys(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    p: *const c_char,
    flags: c_int,
    mask: c_uint,
    out: *mut libc::statx,
) -> c_int {
    let path = sim_path(p);
    if sim_fd(dir) || path.is_some() {
        let len = with_world(|w| match &path {
            Some(p) => w.files.get(p).map(|f| f.data.len() as u64),
            None => Some(w.file_len(dir)),
        })
        .flatten();
        let Some(len) = len else {
            *__errno_location() = ENOENT;
            return -1;
        };
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*out).stx_mask = STATX_BASIC_STATS;
        (*out).stx_mode = (S_IFREG | 0o644) as u16;
        (*out).stx_size = len;
        return 0;
    }
    ret(sys(SYS_statx, dir as i64, p as i64, flags as i64, mask as i64, out as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(a), Some(b)) = (sim_path(a), sim_path(b)) {
        crate::sched::step(true);
        return set(with_world(|w| w.rename(&a, &b)), |_| 0) as c_int;
    }
    if active() {
        *__errno_location() = EACCES;
        return -1;
    }
    ret(sys(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(a) = sim_path(a) {
        crate::sched::step(true);
        return set(with_world(|w| w.unlink(&a)), |_| 0) as c_int;
    }
    if active() {
        *__errno_location() = EACCES;
        return -1;
    }
    ret(sys(SYS_unlink, a as i64, 0, 0, 0, 0, 0)) as c_int
}
/// std and parking_lot reach futex(2) through this function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == SYS_futex && crate::sched::is_client() {
        let op = (b as i32) & 127;
        if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
            if *(a as *const u32) != c as u32 {
                *__errno_location() = EAGAIN;
                return -1;
            }
            // The holder is another client of this run: let it proceed. A
            // spurious wake-up is always allowed.
            crate::sched::blocked();
            return 0;
        }
    }
    if n == SYS_getrandom && active() {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    ret(sys(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::sched::is_client() {
        crate::sched::blocked();
        return 0;
    }
    ret(sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
