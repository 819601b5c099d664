//! System calls that the code under test reaches through libc, redirected into the simulation. Outside of a simulation (and for
//! everything that does not concern it) they behave as usual.

use simcore::{fs, sim};
use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

thread_local! {
    static HASH_SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

/// From now on hash keys on this thread are a function of this number.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(Some(s)));
}

fn set_errno(e: c_int) {
    // SAFETY: errno of this thread
    unsafe { *libc::__errno_location() = e }
}
fn res(e: i32) -> c_int {
    if e == 0 {
        0
    } else {
        set_errno(e);
        -1
    }
}

unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
unsafe fn ours<'a>(p: *const c_char) -> Option<&'a [u8]> {
    if p.is_null() || sim().is_none() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if fs::owns(b) {
        Some(b)
    } else {
        None
    }
}

/// A call that would change something outside of the simulated file system, by the code under test: it is recorded and refused.
unsafe fn refused(op: &'static str, p: *const c_char) -> bool {
    if p.is_null() || simcore::in_coro().is_none() {
        return false;
    }
    fs::other(op, CStr::from_ptr(p).to_bytes());
    true
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if fd == 60 {
        if let Some(s) = sim() {
            if s.fd60.active {
                return ret(simcore::fd::read(std::slice::from_raw_parts_mut(buf as *mut u8, n)));
            }
        }
    }
    ret(raw6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if fd == 60 && sim().is_some_and(|s| s.fd60.active) {
        let v = std::slice::from_raw_parts(v, n as usize);
        let first = v.iter().find(|x| x.iov_len > 0);
        let (p, n) = first.map_or((std::ptr::NonNull::dangling().as_ptr(), 0), |x| (x.iov_base as *mut u8, x.iov_len));
        return ret(simcore::fd::read(std::slice::from_raw_parts_mut(p, n)));
    }
    ret(raw6(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd == 60 {
        if let Some(s) = sim() {
            if s.fd60.active {
                return ret(simcore::fd::close()) as c_int;
            }
        }
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
/// std asks whether a descriptor that it is about to close is open
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd == 60 {
        if let Some(s) = sim() {
            if s.fd60.active {
                return match cmd {
                    libc::F_GETFD if s.fd60.exists && s.fd60.closes == 0 => libc::FD_CLOEXEC,
                    libc::F_GETFD => res(libc::EBADF),
                    _ if !s.fd60.exists || s.fd60.closes > 0 => res(libc::EBADF),
                    libc::F_SETFD | libc::F_SETFL | libc::F_GETFL => 0,
                    _ => res(libc::EINVAL),
                };
            }
        }
    }
    ret(raw6(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match ours(p) {
        Some(b) => res(fs::unlink(b)),
        None if refused("unlink", p) => res(libc::EPERM),
        None => ret(raw6(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int {
    match ours(p) {
        Some(b) if flags & libc::AT_REMOVEDIR != 0 => res(fs::rmdir(b)),
        Some(b) => res(fs::unlink(b)),
        None if refused("unlinkat", p) => res(libc::EPERM),
        None => ret(raw6(libc::SYS_unlinkat, fd as usize, p as usize, flags as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match ours(p) {
        Some(b) => res(fs::rmdir(b)),
        None if refused("rmdir", p) => res(libc::EPERM),
        None => ret(raw6(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    match ours(p) {
        Some(b) => res(fs::mkdir(b)),
        None if refused("mkdir", p) => res(libc::EPERM),
        None => ret(raw6(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (ours(a), ours(b)) {
        (None, None) if refused("rename", a) => res(libc::EPERM),
        (None, None) => ret(raw6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int,
        (Some(x), _) | (None, Some(x)) => res(fs::other("rename", x)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: libc::mode_t) -> c_int {
    match ours(p) {
        // permissions are not modelled; on what exists it succeeds
        Some(b) => res(fs::stat(b).err().unwrap_or(0)),
        None if refused("chmod", p) => res(libc::EPERM),
        None => ret(raw6(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match ours(p) {
        Some(b) => res(fs::stat(b).err().unwrap_or(0)),
        None => ret(raw6(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
unsafe fn do_open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    match ours(p) {
        Some(b) => {
            let b = b.to_vec();
            res(fs::other("open", &b))
        }
        None if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0
            && refused("open for writing", p) =>
        {
            res(libc::EPERM)
        }
        None => ret(raw6(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize | libc::O_LARGEFILE as usize, mode as usize, 0, 0))
            as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(p, flags, mode)
}

fn mode_of(n: &fs::Node) -> u32 {
    match n {
        fs::Node::Dir => libc::S_IFDIR | 0o700,
        fs::Node::File => libc::S_IFREG | 0o600,
        fs::Node::Socket(_) => libc::S_IFSOCK | 0o700,
        fs::Node::Link(_) => libc::S_IFLNK | 0o777,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    match ours(p) {
        Some(b) => match if flags & libc::AT_SYMLINK_NOFOLLOW != 0 { fs::lstat(b) } else { fs::stat(b) } {
            Ok(n) => {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_mode = mode_of(&n) as u16;
                (*out).stx_nlink = 1;
                0
            }
            Err(e) => res(e),
        },
        None => ret(raw6(libc::SYS_statx, dirfd as usize, p as usize, flags as usize, mask as usize, out as usize, 0)) as c_int,
    }
}
unsafe fn do_stat(p: *const c_char, nr: c_long, out: *mut libc::stat) -> c_int {
    match ours(p) {
        Some(b) => match if nr == libc::SYS_lstat { fs::lstat(b) } else { fs::stat(b) } {
            Ok(n) => {
                std::ptr::write_bytes(out, 0, 1);
                (*out).st_mode = mode_of(&n);
                (*out).st_nlink = 1;
                0
            }
            Err(e) => res(e),
        },
        None => ret(raw6(nr, p as usize, out as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat) -> c_int {
    do_stat(p, libc::SYS_stat, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat) -> c_int {
    do_stat(p, libc::SYS_lstat, out)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(s) = simcore::in_coro() {
        if matches!(id, libc::CLOCK_MONOTONIC | libc::CLOCK_REALTIME | libc::CLOCK_BOOTTIME) {
            let base = if id == libc::CLOCK_REALTIME { 1_600_000_000 } else { 1000 };
            let t = s.now();
            (*ts).tv_sec = base + (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
            return 0;
        }
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

/// libc's function is what std uses for hash keys.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if let Some(s) = HASH_SEED.try_with(|c| c.get()).unwrap_or(None) {
        let mut r = simcore::rng::Rng::new(s);
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        b.iter_mut().for_each(|b| *b = r.u64() as u8);
        HASH_SEED.with(|c| c.set(Some(r.u64())));
        return n as isize;
    }
    ret(raw6(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}

/// The getrandom crate makes the system call directly.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom && sim().is_some() {
        return ret(simcore::entropy::getrandom(std::slice::from_raw_parts_mut(a as *mut u8, b))) as c_long;
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if simcore::in_coro().is_some() {
        return 4242;
    }
    ret(raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0)) as c_int
}

// What nothing here has a use for: refused if it concerns the simulated file system or comes from the code under test.
macro_rules! never {
    ($($name:ident($($x:ident: $t:ty),*; $p:ident $q:ident) = $nr:ident;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name($($x: $t),*) -> c_int {
                for x in [$p, $q] {
                    if let Some(b) = ours(x) {
                        return res(fs::other(stringify!($name), b));
                    }
                }
                if refused(stringify!($name), $p) {
                    return res(libc::EPERM);
                }
                let a = [$($x as usize,)* 0, 0, 0, 0];
                ret(raw6(libc::$nr, a[0], a[1], a[2], a[3], a[4], 0)) as c_int
            }
        )*
    };
}
never! {
    mkdirat(fd: c_int, p: *const c_char, mode: libc::mode_t; p p) = SYS_mkdirat;
    renameat(fd: c_int, p: *const c_char, fd2: c_int, q: *const c_char; p q) = SYS_renameat;
    link(p: *const c_char, q: *const c_char; p q) = SYS_link;
    linkat(fd: c_int, p: *const c_char, fd2: c_int, q: *const c_char, flags: c_int; p q) = SYS_linkat;
    symlink(p: *const c_char, q: *const c_char; p q) = SYS_symlink;
    truncate64(p: *const c_char, n: i64; p p) = SYS_truncate;
    chown(p: *const c_char, u: u32, g: u32; p p) = SYS_chown;
    lchown(p: *const c_char, u: u32, g: u32; p p) = SYS_lchown;
    fchmodat(fd: c_int, p: *const c_char, mode: libc::mode_t, flags: c_int; p p) = SYS_fchmodat;
    mknod(p: *const c_char, mode: libc::mode_t, dev: u64; p p) = SYS_mknod;
}

/// the code under test signals nobody
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if simcore::in_coro().is_some() {
        return res(fs::other("kill", b"/"));
    }
    ret(raw6(libc::SYS_kill, pid as usize, sig as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, out: *mut c_char, n: usize) -> isize {
    match ours(p) {
        Some(b) => match fs::lstat(b) {
            Ok(fs::Node::Link(to)) => {
                let k = to.len().min(n);
                std::ptr::copy_nonoverlapping(to.as_ptr() as *const c_char, out, k);
                k as isize
            }
            Ok(_) => res(libc::EINVAL) as isize,
            Err(e) => res(e) as isize,
        },
        None => ret(raw6(libc::SYS_readlink, p as usize, out as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(b) = ours(p) {
        let b = b.to_vec();
        return match fs::stat_at(&b, true) {
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
            Ok((_, n)) => {
                let to = if out.is_null() { libc::malloc(n.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, to, n.len());
                *to.add(n.len()) = 0;
                to
            }
        };
    }
    // SAFETY: the next definition of it in line is libc's
    let f = libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr());
    if f.is_null() {
        set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(f);
    f(p, out)
}
