//! libc entry points, replaced: while library code runs (IN_LIB) they act on the simulated world, otherwise they
//! go straight to the kernel. Simulated descriptors start at FD0.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions, non_upper_case_globals)]
use crate::world::{stray_entropy, w, Kind, Pre, Sys, CWD, FD0, IN_LIB, State};
use libc::*;
use std::arch::asm;
use std::ffi::CStr;

#[inline]
unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}
#[inline]
pub fn active() -> bool {
    // try_with: calls may come while the thread is being torn down
    IN_LIB.try_with(|c| c.get()).unwrap_or(false)
}
/// run simulator code with interception off
fn sim<T>(f: impl FnOnce() -> T) -> T {
    IN_LIB.with(|c| c.set(false));
    let r = f();
    IN_LIB.with(|c| c.set(true));
    r
}
unsafe fn path(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
unsafe fn out(r: Result<isize, i32>) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => fail(e),
    }
}
/// An operation on the simulated world; None: the process is dead, the call has no effect.
fn gate(k: Sys, what: impl FnOnce() -> String) -> Result<(), i32> {
    match w().pre(k, what) {
        Pre::Go => Ok(()),
        Pre::Fail(e) => Err(e),
        Pre::Kill(_) => Err(EIO),
    }
}
fn cur_pid() -> i32 {
    let c = w().cur;
    w().tasks.get(c).map(|t| t.pid).unwrap_or(99)
}

// ---------------------------------------------------------------- files

unsafe fn do_open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let p = path(p);
    sim(|| {
        out((|| {
            gate(Sys::Open, || format!("open {:?} flags={:#o}", p, flags))?;
            let pid = cur_pid();
            let r = w().disk.open(&p, flags, mode, pid);
            if let Err(e) = r {
                w().event(7, e as u64, || format!("   -> errno {}", e));
            }
            r.map(|f| f as isize)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return ret(raw(SYS_openat, AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    open(p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return ret(raw(SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    if d != AT_FDCWD && *p != b'/' as c_char {
        return fail(ENOSYS) as c_int;
    }
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(d, p, flags, mode)
}

fn sim_fd(fd: c_int) -> bool {
    fd >= FD0
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<usize>) -> isize {
    sim(|| {
        out((|| {
            let k = w().disk.ofd(fd).map(|o| o.ino).map(|i| w().disk.inodes[i].kind == Kind::Urandom)?;
            if k {
                return entropy(std::slice::from_raw_parts_mut(buf, n), 0);
            }
            gate(Sys::Read, || format!("read fd{} up to {}", fd - FD0, n))?;
            let n = w().limit(n);
            let r = w().disk.read(fd, std::slice::from_raw_parts_mut(buf, n), at)?;
            w().event(8, r as u64, || format!("   -> {} bytes", r));
            Ok(r as isize)
        })())
    })
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<usize>) -> isize {
    sim(|| {
        out((|| {
            let data = std::slice::from_raw_parts(buf, n);
            match w().pre(Sys::Write, || format!("write fd{} {} bytes", fd - FD0, n)) {
                Pre::Go => {}
                Pre::Fail(e) => return Err(e),
                Pre::Kill(frac) => {
                    let k = n * frac as usize / 256;
                    if k > 0 {
                        let _ = w().disk.write(fd, &data[..k], at);
                        w().event(9, k as u64, || format!("   {} bytes of it had been written", k));
                    }
                    return Err(EIO);
                }
            }
            let n = w().limit(n);
            let r = w().disk.write(fd, &data[..n], at)?;
            w().event(9, r as u64, || format!("   -> {} bytes", r));
            Ok(r as isize)
        })())
    })
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_read, fd as usize, buf as usize, n, 0, 0, 0));
    }
    do_read(fd, buf as *mut u8, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() {
        return ret(raw(SYS_write, fd as usize, buf as usize, n, 0, 0, 0));
    }
    if !sim_fd(fd) {
        return n as ssize_t; // library chatter on stdout/stderr
    }
    do_write(fd, buf as *const u8, n, None)
}
macro_rules! positioned {
    ($pr:ident, $pw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $pr(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
            if !active() || !sim_fd(fd) {
                return ret(raw(SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0));
            }
            do_read(fd, buf as *mut u8, n, Some(off as usize))
        }
        #[no_mangle]
        pub unsafe extern "C" fn $pw(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
            if !active() || !sim_fd(fd) {
                return ret(raw(SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0));
            }
            do_write(fd, buf as *const u8, n, Some(off as usize))
        }
    };
}
positioned!(pread, pwrite);
positioned!(pread64, pwrite64);
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0));
    }
    for v in std::slice::from_raw_parts(iov, n as usize) {
        if v.iov_len > 0 {
            return do_read(fd, v.iov_base as *mut u8, v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !active() {
        return ret(raw(SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0));
    }
    let vs = std::slice::from_raw_parts(iov, n as usize);
    if !sim_fd(fd) {
        return vs.iter().map(|v| v.iov_len).sum::<usize>() as ssize_t;
    }
    for v in vs {
        if v.iov_len > 0 {
            return do_write(fd, v.iov_base as *const u8, v.iov_len, None);
        }
    }
    0
}
unsafe fn do_lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64;
    }
    sim(|| {
        out((|| {
            let o = w().disk.ofd(fd)?;
            let (ino, cur) = (o.ino, o.off as i64);
            let len = w().disk.inodes[ino].data.len() as i64;
            let base = match wh {
                SEEK_SET => 0,
                SEEK_CUR => cur,
                SEEK_END => len,
                _ => return Err(EINVAL),
            };
            if base + off < 0 {
                return Err(EINVAL);
            }
            w().disk.ofd(fd)?.off = (base + off) as usize;
            Ok((base + off) as isize)
        })()) as i64
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    do_lseek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    do_lseek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    sim(|| {
        // the descriptor is gone whatever close reports
        let g = gate(Sys::Close, || format!("close fd{}", fd - FD0));
        let c = w().cur;
        if w().tasks.get(c).map(|t| t.crashed).unwrap_or(false) {
            return 0;
        }
        let r = w().disk.close(fd);
        out(g.and(r).map(|_| 0))
    }) as c_int
}
unsafe fn do_fsync(fd: c_int) -> c_int {
    sim(|| {
        out((|| {
            match w().pre(Sys::Fsync, || format!("fsync fd{}", fd - FD0)) {
                Pre::Go => {}
                Pre::Kill(_) => return Err(EIO),
                Pre::Fail(e) => {
                    let c = w().cur;
                    if e != EINTR && !w().tasks[c].crashed {
                        w().disk.fsync_failed(fd);
                    }
                    return Err(e);
                }
            }
            w().disk.fsync(fd)?;
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_syncfs, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    sim(|| out(gate(Sys::Fsync, || "syncfs".into()).map(|_| { w().disk.sync_all(); 0 }))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if !active() {
        raw(SYS_sync, 0, 0, 0, 0, 0, 0);
        return;
    }
    sim(|| {
        if gate(Sys::Other, || "sync".into()).is_ok() {
            w().disk.sync_all();
        }
    })
}
unsafe fn do_ftruncate(fd: c_int, n: i64) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as c_int;
    }
    sim(|| {
        out((|| {
            gate(Sys::Trunc, || format!("ftruncate fd{} {}", fd - FD0, n))?;
            let ino = w().disk.ofd(fd)?.ino;
            if n as u64 > 1 << 30 {
                return Err(EFBIG);
            }
            w().disk.truncate(ino, n as usize);
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    do_ftruncate(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    do_ftruncate(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: i64, n: i64) -> c_int {
    if !active() || !sim_fd(fd) {
        return -raw(SYS_fallocate, fd as usize, 0, off as usize, n as usize, 0, 0) as c_int;
    }
    EOPNOTSUPP
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: i64, n: i64) -> c_int {
    posix_fallocate64(fd, off, n)
}
unsafe fn do_rename(a: *const c_char, b: *const c_char, nr: bool) -> c_int {
    let (a, b) = (path(a), path(b));
    sim(|| {
        out((|| {
            gate(Sys::Rename, || format!("rename {:?} -> {:?}", a, b))?;
            w().disk.rename(&a, &b, nr)?;
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    do_rename(a, b, false)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_renameat, d as usize, a as usize, e as usize, b as usize, 0, 0)) as c_int;
    }
    do_rename(a, b, false)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if !active() {
        return ret(raw(SYS_renameat2, d as usize, a as usize, e as usize, b as usize, fl as usize, 0)) as c_int;
    }
    do_rename(a, b, fl & 1 != 0)
}
unsafe fn do_unlink(p: *const c_char) -> c_int {
    let p = path(p);
    sim(|| {
        out((|| {
            gate(Sys::Unlink, || format!("unlink {:?}", p))?;
            w().disk.unlink(&p)?;
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn remove(p: *const c_char) -> c_int {
    unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let p = path(p);
    sim(|| out(gate(Sys::Mkdir, || format!("rmdir {:?}", p)).and_then(|_| w().disk.rmdir(&p)).map(|_| 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_unlinkat, d as usize, p as usize, fl as usize, 0, 0, 0)) as c_int;
    }
    if fl & AT_REMOVEDIR != 0 {
        return rmdir(p);
    }
    do_unlink(p)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return ret(raw(SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    }
    let p = path(p);
    sim(|| out(gate(Sys::Mkdir, || format!("mkdir {:?}", p)).and_then(|_| w().disk.mkdir(&p)).map(|_| 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_link, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    let (a, b) = (path(a), path(b));
    sim(|| out(gate(Sys::Link, || format!("link {:?} {:?}", a, b)).and_then(|_| w().disk.link(&a, &b)).map(|_| 0)))
        as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_linkat, d as usize, a as usize, e as usize, b as usize, fl as usize, 0)) as c_int;
    }
    link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_symlink, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    let (a, b) = (path(a), path(b));
    sim(|| {
        out(gate(Sys::Link, || format!("symlink {:?} {:?}", a, b)).and_then(|_| w().disk.symlink(&a, &b)).map(|_| 0))
    }) as c_int
}

// ---------------------------------------------------------------- metadata

unsafe fn fill_stat(ino: usize, st: *mut stat64) {
    let i = &w().disk.inodes[ino];
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_dev = 7;
    (*st).st_ino = ino as u64 + 1;
    (*st).st_mode = i.mode;
    (*st).st_nlink = 1;
    (*st).st_size = match &i.kind {
        Kind::Symlink(t) => t.len() as i64,
        _ => i.data.len() as i64,
    };
    (*st).st_blksize = 4096;
    (*st).st_blocks = ((*st).st_size + 511) / 512;
}
unsafe fn do_stat(p: *const c_char, st: *mut stat64, follow: bool) -> c_int {
    let p = path(p);
    sim(|| {
        out((|| {
            gate(Sys::Stat, || format!("stat {:?}", p))?;
            let ino = w().disk.lookup(&p, follow)?;
            fill_stat(ino, st);
            Ok(0)
        })())
    }) as c_int
}
unsafe fn do_fstat(fd: c_int, st: *mut stat64) -> c_int {
    sim(|| {
        out((|| {
            gate(Sys::Stat, || format!("fstat fd{}", fd - FD0))?;
            let ino = w().disk.ofd(fd)?.ino;
            fill_stat(ino, st);
            Ok(0)
        })())
    }) as c_int
}
macro_rules! stats {
    ($s:ident, $l:ident, $f:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $s(p: *const c_char, st: *mut stat64) -> c_int {
            if !active() {
                return ret(raw(SYS_stat, p as usize, st as usize, 0, 0, 0, 0)) as c_int;
            }
            do_stat(p, st, true)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $l(p: *const c_char, st: *mut stat64) -> c_int {
            if !active() {
                return ret(raw(SYS_lstat, p as usize, st as usize, 0, 0, 0, 0)) as c_int;
            }
            do_stat(p, st, false)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, st: *mut stat64) -> c_int {
            if !active() || !sim_fd(fd) {
                return ret(raw(SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int;
            }
            do_fstat(fd, st)
        }
    };
}
stats!(stat, lstat, fstat);
stats!(stat64, lstat64, fstat64);
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_newfstatat, d as usize, p as usize, st as usize, fl as usize, 0, 0)) as c_int;
    }
    if *p == 0 && sim_fd(d) {
        return do_fstat(d, st);
    }
    do_stat(p, st, fl & AT_SYMLINK_NOFOLLOW == 0)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, sx: *mut statx) -> c_int {
    if !active() {
        return ret(raw(SYS_statx, d as usize, p as usize, fl as usize, mask as usize, sx as usize, 0)) as c_int;
    }
    let mut st: stat64 = std::mem::zeroed();
    let r = if (p.is_null() || *p == 0) && sim_fd(d) {
        do_fstat(d, &mut st)
    } else if p.is_null() {
        return fail(EFAULT) as c_int;
    } else {
        do_stat(p, &mut st, fl & AT_SYMLINK_NOFOLLOW == 0)
    };
    if r == 0 {
        std::ptr::write_bytes(sx, 0, 1);
        (*sx).stx_mask = STATX_BASIC_STATS;
        (*sx).stx_blksize = 4096;
        (*sx).stx_nlink = 1;
        (*sx).stx_mode = st.st_mode as u16;
        (*sx).stx_ino = st.st_ino;
        (*sx).stx_size = st.st_size as u64;
        (*sx).stx_blocks = st.st_blocks as u64;
        (*sx).stx_dev_minor = 7;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_access, p as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    }
    let mut st: stat64 = std::mem::zeroed();
    let r = do_stat(p, &mut st, true);
    if r == 0 && (st.st_mode >> 6) & 7 & mode as u32 != mode as u32 & 7 {
        *libc::__errno_location() = EACCES;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: c_int, p: *const c_char, mode: c_int, _f: c_int) -> c_int {
    access(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return ret(raw(SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    }
    let p = path(p);
    sim(|| {
        out((|| {
            gate(Sys::Chmod, || format!("chmod {:?} {:o}", p, mode))?;
            let i = w().disk.lookup(&p, true)?;
            let m = &mut w().disk.inodes[i].mode;
            *m = (*m & S_IFMT) | (mode & 0o7777);
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    }
    sim(|| {
        out((|| {
            gate(Sys::Chmod, || format!("fchmod fd{} {:o}", fd - FD0, mode))?;
            let i = w().disk.ofd(fd)?.ino;
            let m = &mut w().disk.inodes[i].mode;
            *m = (*m & S_IFMT) | (mode & 0o7777);
            Ok(0)
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, u: uid_t, g: gid_t) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_fchown, fd as usize, u as usize, g as usize, 0, 0, 0)) as c_int;
    }
    sim(|| out(gate(Sys::Chmod, || "fchown".into()).map(|_| 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_utimensat, fd as usize, 0, t as usize, 0, 0, 0)) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return ret(raw(SYS_readlink, p as usize, buf as usize, n, 0, 0, 0));
    }
    let p = path(p);
    sim(|| {
        out((|| {
            gate(Sys::Stat, || format!("readlink {:?}", p))?;
            let i = w().disk.lookup(&p, false)?;
            match &w().disk.inodes[i].kind {
                Kind::Symlink(t) => {
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                    Ok(k as isize)
                }
                _ => Err(EINVAL),
            }
        })())
    })
}
unsafe fn next<T: Copy>(name: &CStr) -> T {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, buf: *mut c_char) -> *mut c_char {
    if !active() {
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = next(c"realpath");
        return f(p, buf);
    }
    let p = path(p);
    let r = sim(|| {
        gate(Sys::Stat, || format!("realpath {:?}", p))?;
        let a = w().disk.resolve(&p, true)?;
        if !w().disk.names.contains_key(&a) {
            return Err(ENOENT);
        }
        Ok(a)
    });
    match r {
        Ok(a) => {
            let b = if buf.is_null() { malloc(a.len() + 1) as *mut c_char } else { buf };
            std::ptr::copy_nonoverlapping(a.as_ptr(), b as *mut u8, a.len());
            *b.add(a.len()) = 0;
            b
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        let f: unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char = next(c"getcwd");
        return f(buf, n);
    }
    if buf.is_null() || n <= CWD.len() {
        set_errno(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(CWD.as_ptr(), buf as *mut u8, CWD.len());
    *buf.add(CWD.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !active() {
        return ret(raw(SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    fail(ENOSYS) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    }
    sim(|| {
        out((|| {
            let flags = w().disk.ofd(fd)?.flags;
            match cmd {
                F_GETFD => Ok(FD_CLOEXEC as isize),
                F_SETFD | F_SETFL => Ok(0),
                F_GETFL => Ok(flags as isize),
                F_DUPFD | F_DUPFD_CLOEXEC => {
                    gate(Sys::Other, || format!("dup fd{}", fd - FD0))?;
                    let o = *w().disk.fds.get(&fd).ok_or(EBADF)?;
                    if w().disk.fds.len() >= w().disk.fd_limit {
                        return Err(EMFILE);
                    }
                    let n = w().disk.next_fd;
                    w().disk.next_fd += 1;
                    w().disk.fds.insert(n, o);
                    w().disk.ofds[o].refs += 1;
                    Ok(n as isize)
                }
                _ => Err(EINVAL),
            }
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_fcntl(fd, F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !active() || !sim_fd(fd) {
        return ret(raw(SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int;
    }
    sim(|| {
        out((|| {
            gate(Sys::Other, || format!("flock fd{} {}", fd - FD0, op))?;
            let o = *w().disk.fds.get(&fd).ok_or(EBADF)?;
            let ino = w().disk.ofds[o].ino;
            let key = 0x7000_0000 + ino;
            loop {
                match op & !LOCK_NB {
                    LOCK_UN => {
                        if w().disk.inodes[ino].lock.map(|l| l.0 == o).unwrap_or(false) {
                            w().disk.inodes[ino].lock = None;
                        }
                        w().wake(key, usize::MAX);
                        return Ok(0);
                    }
                    k => {
                        let l = w().disk.inodes[ino].lock;
                        match l {
                            Some((h, ex)) if h != o && (ex || k == LOCK_EX) => {
                                if op & LOCK_NB != 0 {
                                    return Err(EWOULDBLOCK);
                                }
                                w().block(key, false);
                            }
                            _ => {
                                w().disk.inodes[ino].lock = Some((o, k == LOCK_EX));
                                return Ok(0);
                            }
                        }
                    }
                }
            }
        })())
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    if !active() {
        return ret(raw(SYS_copy_file_range, a as usize, x as usize, b as usize, y as usize, n, f as usize));
    }
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if !active() {
        return ret(raw(SYS_sendfile, a as usize, b as usize, o as usize, n, 0, 0));
    }
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    sendfile64(a, b, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    if !active() {
        return ret(raw(SYS_splice, a as usize, x as usize, b as usize, y as usize, n, f as usize));
    }
    fail(ENOSYS)
}

// ---------------------------------------------------------------- directories

const DIR_MAGIC: u64 = 0x51D1_51D1_0D12_0001;
struct SimDir {
    magic: u64,
    fd: c_int,
    list: Vec<(String, usize)>,
    pos: usize,
    ent: dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if !active() {
        let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = next(c"opendir");
        return f(p);
    }
    let fd = do_open(p, O_RDONLY | O_DIRECTORY, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let p = path(p);
    sim(|| {
        let a = w().disk.resolve(&p, true).unwrap_or_default();
        let list = w().disk.children(&a);
        Box::into_raw(Box::new(SimDir { magic: DIR_MAGIC, fd, list, pos: 0, ent: std::mem::zeroed() })) as *mut DIR
    })
}
unsafe fn is_sim(d: *mut DIR) -> bool {
    (*(d as *mut SimDir)).magic == DIR_MAGIC
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if !active() {
        let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent64 = next(c"readdir64");
        return f(d);
    }
    let sd = &mut *(d as *mut SimDir);
    sim(|| {
        if let Err(e) = gate(Sys::Read, || "readdir".into()) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        if sd.pos >= sd.list.len() {
            return std::ptr::null_mut();
        }
        let (name, ino) = sd.list[sd.pos].clone();
        sd.pos += 1;
        sd.ent.d_ino = ino as u64 + 1;
        sd.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        sd.ent.d_type = match w().disk.inodes[ino].kind {
            Kind::Dir => DT_DIR,
            Kind::File => DT_REG,
            Kind::Symlink(_) => DT_LNK,
            Kind::Urandom => DT_CHR,
        };
        let b = name.as_bytes();
        for (i, c) in b.iter().take(255).enumerate() {
            sd.ent.d_name[i] = *c as c_char;
        }
        sd.ent.d_name[b.len().min(255)] = 0;
        &mut sd.ent
    })
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent {
    if !active() {
        let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent = next(c"readdir");
        return f(d);
    }
    readdir64(d) as *mut dirent
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if !active() || !is_sim(d) {
        let f: unsafe extern "C" fn(*mut DIR) -> c_int = next(c"dirfd");
        return f(d);
    }
    (*(d as *mut SimDir)).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if !active() {
        let f: unsafe extern "C" fn(*mut DIR) -> c_int = next(c"closedir");
        return f(d);
    }
    let fd = (*(d as *mut SimDir)).fd;
    sim(|| drop(Box::from_raw(d as *mut SimDir)));
    close(fd)
}

// ---------------------------------------------------------------- entropy, time, identity, scheduling

/// fill from the running task's entropy source; may be short or interrupted
fn entropy(buf: &mut [u8], _flags: u32) -> Result<isize, i32> {
    let world = w();
    let c = world.cur;
    if world.tasks.is_empty() {
        stray_entropy(buf);
        return Ok(buf.len() as isize);
    }
    world.point(1 << 41);
    let mut n = buf.len();
    let t = &mut world.tasks[c];
    let mut ev = None;
    if t.entropy_trouble > 0 && n > 0 {
        let mut r = crate::rng::Rng::new(t.entropy_pattern ^ t.calls.wrapping_mul(77));
        t.calls += 1;
        if r.chance(t.entropy_trouble) {
            if r.chance(500) {
                ev = Some("EINTR@getrandom");
            } else if n > 1 {
                n = 1 + r.below(n as u64 - 1) as usize;
                ev = Some("short@getrandom");
            }
        }
    }
    if t.calls > 1_000_000 {
        world.die(77, "hang: endless entropy requests");
    }
    if let Some(e) = ev {
        world.count(e);
        world.event(10, n as u64, || format!("getrandom {} -> {}", buf.len(), e));
        if e.starts_with("EINTR") {
            return Err(EINTR);
        }
    } else {
        world.event(10, n as u64, || format!("getrandom {}", n));
    }
    let t = &mut world.tasks[c];
    match t.entropy_mode {
        1 => buf[..n].fill(0),
        2 => buf[..n].fill(0xff),
        3 => {
            for (i, b) in buf[..n].iter_mut().enumerate() {
                *b = (t.entropy_const >> (8 * (i % 8))) as u8;
            }
        }
        _ => {
            for b in buf[..n].iter_mut() {
                *b = (t.entropy.next() >> 32) as u8;
            }
        }
    }
    Ok(n as isize)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if n == 0 {
        return 0;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    if !active() {
        stray_entropy(b);
        return n as ssize_t;
    }
    sim(|| out(entropy(b, flags)))
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    if !active() {
        stray_entropy(b);
        return 0;
    }
    let mut k = 0;
    while k < n {
        let r = getrandom(buf.add(k), n - k, 0);
        if r > 0 {
            k += r as usize;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if !active() {
        return raw(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t;
    }
    sim(cur_pid)
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if !active() {
        return raw(SYS_gettid, 0, 0, 0, 0, 0, 0) as pid_t;
    }
    sim(|| 5000 + w().cur as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if !active() {
        return ret(raw(SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0)) as c_int;
    }
    sim(|| {
        w().time_ns += 50;
        let mut n = w().time_ns;
        if c == CLOCK_REALTIME {
            n = n.wrapping_add(w().skew_ns as u64);
        }
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int {
    if !active() {
        return ret(raw(SYS_nanosleep, t as usize, r as usize, 0, 0, 0, 0)) as c_int;
    }
    sim(|| sleep_for((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, t: *const timespec, r: *mut timespec) -> c_int {
    if !active() {
        return -raw(SYS_clock_nanosleep, c as usize, fl as usize, t as usize, r as usize, 0, 0) as c_int;
    }
    sim(|| {
        let n = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        sleep_for(if fl != 0 { n.saturating_sub(w().time_ns) } else { n })
    });
    0
}
fn sleep_for(ns: u64) {
    w().time_ns += ns;
    w().spin();
    w().event(11, ns, || format!("sleep {}us", ns / 1000));
    w().yield_now();
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    sim(|| {
        w().spin();
        w().yield_now()
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn poll(f: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_poll, f as usize, n as usize, t as usize, 0, 0, 0)) as c_int;
    }
    n as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !active() {
        if n == SYS_getrandom && b > 0 {
            stray_entropy(std::slice::from_raw_parts_mut(a as *mut u8, b));
            return b as c_long;
        }
        return ret(raw(n, a, b, c, d, e, f)) as c_long;
    }
    match n {
        SYS_getrandom => getrandom(a as *mut c_void, b, c as c_uint) as c_long,
        SYS_futex => {
            let op = b as c_int & 127;
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    if *(a as *const i32) != c as i32 {
                        return fail(EAGAIN) as c_long;
                    }
                    sim(|| {
                        let k = w().key(a);
                        w().block(k, d != 0);
                        let c = w().cur;
                        if w().tasks[c].timed_out {
                            w().tasks[c].timed_out = false;
                            return fail(ETIMEDOUT) as c_long;
                        }
                        0
                    })
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    let k = sim(|| {
                        let k = w().key(a);
                        let k = w().wake(k, c);
                        w().point(1 << 42);
                        k
                    });
                    // a waiter that is not a simulated task
                    let r = raw(n, a, b, c, d, e, f);
                    if k > 0 {
                        k as c_long
                    } else {
                        ret(r) as c_long
                    }
                }
                _ => ret(raw(n, a, b, c, d, e, f)) as c_long,
            }
        }
        SYS_gettid => gettid() as c_long,
        SYS_renameat2 => renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
        SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        SYS_copy_file_range | SYS_openat2 => fail(ENOSYS) as c_long,
        _ => ret(raw(n, a, b, c, d, e, f)) as c_long,
    }
}

// ---------------------------------------------------------------- threads started by library code

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
    gate: std::sync::Arc<crate::world::Gate>,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    crate::world::TASK.with(|t| t.set(s.id));
    // nothing of the world may be touched before it is this thread's turn
    s.gate.wait();
    w().tids.push((s.id, unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32));
    IN_LIB.with(|c| c.set(true));
    let r = (s.f)(s.arg);
    IN_LIB.with(|c| c.set(false));
    w().finish(s.id);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real: unsafe extern "C" fn(
        *mut pthread_t,
        *const pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int = next(c"pthread_create");
    if !active() {
        return real(t, attr, f, arg);
    }
    sim(|| {
        let id = w().spawn_task();
        let gate = w().tasks[id].gate.clone();
        let s = Box::into_raw(Box::new(Start { f, arg, id, gate }));
        let r = real(t, attr, trampoline, s as *mut c_void);
        if r == 0 {
            w().tasks[id].thread = *t as usize;
            w().event(12, id as u64, || format!("starts thread t{}", id));
            w().point(1 << 43);
        } else {
            w().tasks[id].state = State::Done;
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = next(c"pthread_join");
    if active() {
        sim(|| {
            while let Some(i) = w().tasks.iter().position(|x| x.thread == t as usize && x.state != State::Done) {
                w().block(0x6000_0000 + i, false);
            }
        });
    }
    real(t, out)
}
