//! Controlled operating system: the libc entry points the logger goes through are interposed, so
//! that the clock is virtual and every system call is a scheduling point where a fault or a crash
//! may be injected. Outside of `controlled`, calls go straight to the kernel.
use std::cell::Cell;

use libc::{c_char, c_int, c_long, c_void, mode_t, size_t, ssize_t, timespec};
use vmc::Case;

#[derive(Clone, Copy)]
pub struct Ctl {
    pub case: *mut Case<'static>,
    pub now_ns: i128,
    pub faults_left: u32,
    pub crashes_left: u32,
    pub crashed: bool,
    /// a fault was injected during the current call
    pub faulted: bool,
    /// bytes persisted by the current call
    pub persisted: usize,
    pub calls: u64,
}

thread_local! {
    static CTL: Cell<Option<Ctl>> = const { Cell::new(None) };
}

/// Runs `f` with the controlled operating system.
pub fn controlled<T>(ctl: &mut Ctl, case: &mut Case, f: impl FnOnce() -> T) -> T {
    ctl.case = case as *mut Case<'_> as *mut Case<'static>;
    ctl.faulted = false;
    ctl.persisted = 0;
    CTL.set(Some(*ctl));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CTL.set(None);
        }
    }
    let reset = Reset;
    let r = f();
    *ctl = CTL.get().unwrap();
    drop(reset);
    r
}

enum Answer {
    Go,
    Short,
    Fail(c_int),
}

/// Decides what the operating system answers to one call.
fn decide(is_write: bool, len: usize, errs: &[c_int]) -> Answer {
    let Some(mut c) = CTL.get() else { return Answer::Go };
    c.calls += 1;
    if c.crashed {
        CTL.set(Some(c));
        return Answer::Fail(libc::EIO);
    }
    // SAFETY: set by `controlled`, which is on the stack of this thread.
    let case = unsafe { &mut *c.case };
    let short = is_write && len > 1;
    let nf = if c.faults_left > 0 { errs.len() + short as usize } else { 0 };
    let nc = if c.crashes_left > 0 { 1 + short as usize } else { 0 };
    let mut k = case.choose(1 + nf + nc);
    let r = if k == 0 {
        Answer::Go
    } else {
        c.faulted = true;
        k -= 1;
        if k < nf {
            c.faults_left -= 1;
            if k < errs.len() { Answer::Fail(errs[k]) } else { Answer::Short }
        } else {
            k -= nf;
            c.crashed = true;
            c.crashes_left -= 1;
            if k == 0 { Answer::Fail(libc::EIO) } else { Answer::Short }
        }
    };
    CTL.set(Some(c));
    r
}

fn fail(e: c_int) -> c_long {
    // SAFETY: errno of this thread.
    unsafe { *libc::__errno_location() = e };
    -1
}

fn is_file(fd: c_int) -> bool {
    fd > 2
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if is_file(fd) {
        match decide(true, n, &[libc::EINTR, libc::ENOSPC]) {
            Answer::Go => {}
            Answer::Short => n = 1,
            Answer::Fail(e) => return fail(e) as ssize_t,
        }
    }
    // SAFETY: forwarded.
    let r = unsafe { libc::syscall(libc::SYS_write, fd, buf, n) };
    if r > 0
        && let Some(mut c) = CTL.get()
    {
        c.persisted += r as usize;
        CTL.set(Some(c));
    }
    r as ssize_t
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Answer::Fail(e) = decide(false, 0, &[libc::EACCES]) {
        return fail(e) as c_int;
    }
    // SAFETY: forwarded.
    unsafe { libc::syscall(libc::SYS_rename, a, b) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0
        && let Answer::Fail(e) = decide(false, 0, &[libc::EMFILE])
    {
        return fail(e) as c_int;
    }
    // SAFETY: forwarded.
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as c_int) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if let Some(c) = CTL.get() {
        let (s, n) = (c.now_ns.div_euclid(1_000_000_000), c.now_ns.rem_euclid(1_000_000_000));
        // SAFETY: caller's pointer.
        unsafe {
            (*ts).tv_sec = s as _;
            (*ts).tv_nsec = n as _;
        }
        return 0;
    }
    // SAFETY: forwarded.
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int }
}
