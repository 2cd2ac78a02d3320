//! Interposed C library functions: virtual clock, scripted waits, fault injection and handle accounting.
//! The definitions below take precedence over libc's for the whole binary, so the real ipmb code
//! runs unmodified against them.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

/// nanoseconds added to CLOCK_MONOTONIC
pub static OFFSET: AtomicI64 = AtomicI64::new(0);
pub static BAD_CLOSE: AtomicU64 = AtomicU64::new(0);
pub static BAD_UNMAP: AtomicU64 = AtomicU64::new(0);
pub static TRACK_MAPS: AtomicBool = AtomicBool::new(false);
pub static MAPS: Mutex<Vec<(usize, usize, i64, i32)>> = Mutex::new(Vec::new());

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    Pass,
    Errno(i32),
}

thread_local! {
    /// sleeps of this thread advance the virtual clock instead
    pub static VSLEEP: Cell<bool> = const { Cell::new(false) };
    /// the clock stands still for this thread except through the script (value: frozen nanoseconds)
    pub static FROZEN: Cell<Option<i64>> = const { Cell::new(None) };
    pub static SLEPT: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    pub static CONNECT_PLAN: RefCell<VecDeque<Plan>> = const { RefCell::new(VecDeque::new()) };
    pub static BIND_PLAN: RefCell<VecDeque<Plan>> = const { RefCell::new(VecDeque::new()) };
    pub static ADDRS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    pub static CONNECTS: Cell<u32> = const { Cell::new(0) };
    pub static BINDS: Cell<u32> = const { Cell::new(0) };
    pub static WAITS: RefCell<Vec<c_int>> = const { RefCell::new(Vec::new()) };
    /// what the next waits of this thread do
    pub static WAIT_SCRIPT: RefCell<VecDeque<WaitStep>> = const { RefCell::new(VecDeque::new()) };
    /// a wait with nothing ready advances the virtual clock by its timeout
    pub static VWAIT: Cell<bool> = const { Cell::new(false) };
    pub static SEND_PLAN: RefCell<VecDeque<Plan>> = const { RefCell::new(VecDeque::new()) };
    pub static DUP_FAIL: Cell<bool> = const { Cell::new(false) };
}
/// when set, sendmsg on this descriptor by any thread fails with the errno
pub static SEND_FAIL_FD: Mutex<Option<HashMap<c_int, i32>>> = Mutex::new(None);
/// errors to inject in the next sendmsg calls of any thread, one each
pub static SEND_FAIL_NEXT: Mutex<Vec<i32>> = Mutex::new(Vec::new());
pub static SENDS: AtomicU64 = AtomicU64::new(0);

pub enum WaitStep {
    /// advance the clock, run the action, then poll
    Do(u64, Box<dyn FnOnce()>),
    /// the wait is interrupted after that time
    Eintr(u64),
    /// nothing happens during the whole wait
    Quiet,
}

/// raw system call; the C function below interposes on it
unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// std waits on futexes with absolute times of the (virtual) monotonic clock
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let mut d = d;
    let mut ts: libc::timespec;
    let mut timed = 0;
    if n == libc::SYS_futex && (b & 0x7f) == libc::FUTEX_WAIT_BITSET as c_long && b & libc::FUTEX_CLOCK_REALTIME as c_long == 0 && d != 0 {
        let t = &*(d as *const libc::timespec);
        let want = t.tv_sec.saturating_mul(1_000_000_000).saturating_add(t.tv_nsec);
        let real = real_ns();
        let wait = (want - now_ns()).max(0);
        timed = wait;
        let abs = real.saturating_add(wait);
        ts = libc::timespec { tv_sec: abs / 1_000_000_000, tv_nsec: abs % 1_000_000_000 };
        d = &mut ts as *mut _ as c_long;
    }
    let r = raw6(n, a, b, c, d, e, f);
    if timed > 0 && r == -(libc::ETIMEDOUT as c_long) {
        skew(timed);
    }
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        return -1;
    }
    r
}
/// In the globally frozen state time passes for the thread that waited only.
fn skew(ns: i64) {
    if GLOBAL_FROZEN.load(SeqCst) != 0 {
        let _ = SKEW.try_with(|s| s.set(s.get() + ns));
    }
}
/// The clock of every thread stands still except through `advance`.
pub fn freeze_all(on: bool) {
    SKEW.with(|s| s.set(0));
    GLOBAL_FROZEN.store(0, SeqCst);
    if on {
        GLOBAL_FROZEN.store(now_ns(), SeqCst);
    }
}
pub static GLOBAL_FROZEN: AtomicI64 = AtomicI64::new(0);
pub static ALL_CONNECTS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    pub static SKEW: Cell<i64> = const { Cell::new(0) };
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

pub fn advance(ns: u64) {
    OFFSET.fetch_add(ns as i64, SeqCst);
    if GLOBAL_FROZEN.load(SeqCst) != 0 {
        GLOBAL_FROZEN.fetch_add(ns as i64, SeqCst);
    }
    FROZEN.with(|f| {
        if let Some(v) = f.get() {
            f.set(Some(v + ns as i64));
        }
    });
}
pub fn advance_ms(ms: u64) {
    advance(ms * 1_000_000)
}
pub fn now_ns() -> i64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}
pub fn real_ns() -> i64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}
/// Freeze the clock of this thread; it then only moves through `advance`, sleeps and waits.
pub fn freeze(on: bool) {
    if on {
        let n = now_ns();
        FROZEN.with(|f| f.set(Some(n)));
    } else {
        FROZEN.with(|f| f.set(None));
    }
    VSLEEP.with(|v| v.set(on));
    VWAIT.with(|v| v.set(on));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int;
    if r == 0 && clk == libc::CLOCK_MONOTONIC {
        let frozen = FROZEN.try_with(|f| f.get()).unwrap_or(None);
        let g = GLOBAL_FROZEN.load(SeqCst);
        let n = match frozen {
            Some(n) => n,
            None if g != 0 => g + SKEW.try_with(|s| s.get()).unwrap_or(0),
            None => (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64 + OFFSET.load(SeqCst),
        };
        (*ts).tv_sec = n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
    }
    r
}

unsafe fn vsleep(req: *const libc::timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let _ = SLEPT.try_with(|s| s.borrow_mut().push(ns));
    advance(ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if VSLEEP.try_with(|v| v.get()).unwrap_or(false) {
        vsleep(req);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if VSLEEP.try_with(|v| v.get()).unwrap_or(false) {
        if flags & libc::TIMER_ABSTIME != 0 {
            let want = (*req).tv_sec as i64 * 1_000_000_000 + (*req).tv_nsec as i64;
            let d = want - now_ns();
            if d > 0 {
                let _ = SLEPT.try_with(|s| s.borrow_mut().push(d as u64));
                advance(d as u64);
            }
        } else {
            vsleep(req);
        }
        return 0;
    }
    let mut ts;
    let mut req = req;
    if flags & libc::TIMER_ABSTIME != 0 {
        // absolute times of the virtual clock
        let want = (*req).tv_sec as i64 * 1_000_000_000 + (*req).tv_nsec as i64 - OFFSET.load(SeqCst);
        ts = libc::timespec { tv_sec: want / 1_000_000_000, tv_nsec: want % 1_000_000_000 };
        req = &mut ts;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req, rem) == -1 {
        return *libc::__errno_location();
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    fd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    let real = |t: c_int| libc::syscall(libc::SYS_epoll_wait, fd as c_long, ev, max as c_long, t as c_long) as c_int;
    if !VWAIT.try_with(|v| v.get()).unwrap_or(false) {
        let r = real(timeout);
        if r == 0 && timeout > 0 {
            skew(timeout as i64 * 1_000_000);
        }
        return r;
    }
    WAITS.with(|w| w.borrow_mut().push(timeout));
    if WAITS.with(|w| w.borrow().len()) > 200_000 {
        panic!("wait loop does not make progress");
    }
    let n = real(0);
    if n != 0 {
        return n;
    }
    // looking without waiting takes a little time, too
    let lasts = if timeout == 0 { 20_000 } else { timeout.max(0) as u64 * 1_000_000 };
    let step = WAIT_SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        // a step that lies beyond the timeout happens later
        match s.front_mut() {
            None => None,
            Some(WaitStep::Quiet) => s.pop_front(),
            Some(WaitStep::Do(d, _)) | Some(WaitStep::Eintr(d)) => {
                if timeout >= 0 && *d > timeout as u64 * 1_000_000 {
                    *d = d.saturating_sub(lasts);
                    None
                } else {
                    s.pop_front()
                }
            }
        }
    });
    match step {
        Some(WaitStep::Do(d, f)) => {
            advance(d);
            f();
            // let the controller thread forward what was sent
            let n = real(500);
            if n != 0 {
                return n;
            }
            return 0;
        }
        Some(WaitStep::Eintr(d)) => {
            advance(d);
            set_errno(libc::EINTR);
            return -1;
        }
        Some(WaitStep::Quiet) | None => {}
    }
    if timeout < 0 {
        panic!("infinite wait with nothing to come");
    }
    advance(lasts);
    0
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    let _ = CONNECTS.try_with(|c| c.set(c.get() + 1));
    ALL_CONNECTS.fetch_add(1, SeqCst);
    let bytes = std::slice::from_raw_parts(addr as *const u8, len as usize).to_vec();
    if let Some(mut h) = CONNECT_HOOK.try_with(|h| h.borrow_mut().take()).ok().flatten() {
        h(&bytes);
        CONNECT_HOOK.with(|c| *c.borrow_mut() = Some(h));
    }
    let _ = ADDRS.try_with(|a| a.borrow_mut().push(bytes));
    match CONNECT_PLAN.try_with(|p| p.borrow_mut().pop_front()).ok().flatten() {
        Some(Plan::Errno(e)) => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_connect, fd as c_long, addr, len as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
    let _ = BINDS.try_with(|c| c.set(c.get() + 1));
    let bytes = std::slice::from_raw_parts(addr as *const u8, len as usize).to_vec();
    let _ = ADDRS.try_with(|a| a.borrow_mut().push(bytes));
    match BIND_PLAN.try_with(|p| p.borrow_mut().pop_front()).ok().flatten() {
        Some(Plan::Errno(e)) => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_bind, fd as c_long, addr, len as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const libc::msghdr, flags: c_int) -> isize {
    SENDS.fetch_add(1, SeqCst);
    match SEND_PLAN.try_with(|p| p.borrow_mut().pop_front()).ok().flatten() {
        Some(Plan::Errno(e)) => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    let e = {
        let m = SEND_FAIL_FD.lock().unwrap();
        m.as_ref().and_then(|m| m.get(&fd).copied())
    };
    if let Some(e) = e {
        set_errno(e);
        return -1;
    }
    libc::syscall(libc::SYS_sendmsg, fd as c_long, msg, flags as c_long) as isize
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r = libc::syscall(libc::SYS_close, fd as c_long) as c_int;
    if r == -1 {
        BAD_CLOSE.fetch_add(1, SeqCst);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn mmap(
    addr: *mut c_void,
    len: usize,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: libc::off_t,
) -> *mut c_void {
    let r = libc::syscall(libc::SYS_mmap, addr, len, prot as c_long, flags as c_long, fd as c_long, off) as usize;
    if r != usize::MAX && fd >= 0 && TRACK_MAPS.load(SeqCst) {
        MAPS.lock().unwrap().push((r, len, off as i64, fd));
    }
    r as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> c_int {
    let r = libc::syscall(libc::SYS_munmap, addr, len) as c_int;
    if TRACK_MAPS.load(SeqCst) {
        let mut m = MAPS.lock().unwrap();
        if let Some(i) = m.iter().position(|x| x.0 == addr as usize) {
            if pages(m[i].1) != pages(len) {
                BAD_UNMAP.fetch_add(1, SeqCst);
            }
            m.swap_remove(i);
        }
    }
    if r == -1 {
        BAD_UNMAP.fetch_add(1, SeqCst);
    }
    r
}
fn pages(n: usize) -> usize {
    n.div_ceil(4096)
}

/// descriptors open in this process, with what they refer to
pub fn open_fds() -> Vec<(i32, String)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            let n: i32 = e.file_name().to_string_lossy().parse().unwrap_or(-1);
            if let Ok(t) = std::fs::read_link(e.path()) {
                let t = t.to_string_lossy().to_string();
                if !t.starts_with("/proc/") {
                    v.push((n, t));
                }
            }
        }
    }
    v.sort();
    v
}

thread_local! {
    pub static CONNECT_HOOK: RefCell<Option<Box<dyn FnMut(&[u8])>>> = const { RefCell::new(None) };
}
