//! The libc symbols through which the real program reaches the outside, taken over by the simulator.
//! Calls from threads that are not simulated (or outside a run) go to the kernel unchanged.
#![allow(clippy::missing_safety_doc)]
use crate::core::{self, block, futex_wait, futex_wake, on, point, raw, resched, sim, spawn_hook, wake, Group, St, Thread, ACTIVE, COUNTDOWN, ME, NOSIM};
use crate::fs;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn res<T: Into<i64>>(r: fs::R<T>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn path<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap_or("")
}
fn vfd(fd: i32) -> bool {
    fd >= fs::FD_BASE
}
/// Virtual file descriptors exist only in the simulator, whoever asks.
fn on_fd(fd: i32) -> bool {
    vfd(fd) && ACTIVE.load(Ordering::Relaxed)
}

// ---- basic-block preemption and coverage ---------------------------------------------------------------
pub const NCOV: usize = 1 << 20;
pub static mut COV: [u8; NCOV] = [0; NCOV];
pub static mut NGUARD: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    COV[*g as usize & (NCOV - 1)] = 1;
    COUNTDOWN -= 1;
    if COUNTDOWN <= 0 {
        preempt();
    }
}
#[cold]
unsafe fn preempt() {
    if on() {
        let s = sim();
        s.stats.preemptions += 1;
        core::rearm();
        resched();
    } else {
        COUNTDOWN = 50;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            NGUARD += 1;
            *p = NGUARD;
        }
        p = p.add(1);
    }
}
pub fn coverage() -> Vec<u32> {
    unsafe { (0..NCOV as u32).filter(|i| COV[*i as usize] != 0).collect() }
}

// ---- threads ---------------------------------------------------------------------------------------------
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start {
    f: StartFn,
    arg: *mut c_void,
    tid: i32,
}
unsafe fn next_sym(name: &'static CStr, slot: &AtomicUsize) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr()) as usize;
    slot.store(p, Ordering::Relaxed);
    p
}
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
unsafe extern "C" fn at_exit(_: *mut c_void) {
    if ME.with(|m| m.get()) >= 0 && ACTIVE.load(Ordering::Relaxed) {
        core::thread_done();
    }
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        ME.with(|m| m.set(s.tid));
        core::park_self(s.tid);
        pthread_setspecific(KEY.load(Ordering::Relaxed), 1 as *const c_void);
        (s.f)(s.arg)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int =
        std::mem::transmute(next_sym(c"pthread_create", &SLOT));
    if !on() {
        return real(t, attr, f, arg);
    }
    if KEY.load(Ordering::Relaxed) == u32::MAX {
        let mut k = 0;
        pthread_key_create(&mut k, Some(at_exit));
        KEY.store(k, Ordering::Relaxed);
    }
    let s = sim();
    let tid = s.threads.len() as i32;
    let group = spawn_hook(tid);
    let prio = s.rng.next();
    s.threads.push(Thread { st: St::Runnable, group, park: Box::new(AtomicU32::new(0)), timed_out: false, prio, pthread: 0 });
    s.stats.threads += 1;
    let b = Box::into_raw(Box::new(Start { f, arg, tid }));
    let r = real(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        core::fatal("pthread_create failed");
    }
    s.threads[tid as usize].pthread = *t;
    core::note(|| format!("thread {tid} starts"));
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, rv: *mut *mut c_void) -> c_int {
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next_sym(c"pthread_join", &SLOT));
    if on() {
        if let Some(i) = sim().threads.iter().rposition(|x| x.pthread == t && t != 0) {
            if sim().threads[i].st != St::Done {
                block(St::Join { tid: i as i32, deadline: None });
            }
        }
    }
    real(t, rv)
}
unsafe fn ts_ns(t: *const timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if on() {
        if n == SYS_futex {
            let op = (b as i32) & 0x7f;
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    let to = d as *const timespec;
                    let deadline = if to.is_null() {
                        None
                    } else if op == FUTEX_WAIT {
                        Some(sim().now + ts_ns(to))
                    } else if b as i32 & FUTEX_CLOCK_REALTIME != 0 {
                        Some(ts_ns(to).saturating_sub(sim().wall_base))
                    } else {
                        Some(ts_ns(to))
                    };
                    let bits = if op == FUTEX_WAIT_BITSET { f as u32 } else { u32::MAX };
                    let r = futex_wait(a as usize, c as u32, bits, deadline);
                    if r == 0 {
                        return 0;
                    }
                    set_errno(r);
                    return -1;
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    let bits = if op == FUTEX_WAKE_BITSET { f as u32 } else { u32::MAX };
                    let n = futex_wake(a as usize, c as i32, bits);
                    point();
                    return n as c_long;
                }
                _ => core::fatal("futex op not modelled"),
            }
        }
        if n == SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
        }
        if n == SYS_gettid {
            return 1000 + core::me() as c_long;
        }
        if n == SYS_statx {
            return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        sim().boost += 1000;
        point();
        return 0;
    }
    ret(raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if on() {
        core::sleep_ns(ts_ns(a));
        return 0;
    }
    ret(raw(SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if on() {
        let ns = ts_ns(a);
        let now = if clk == CLOCK_REALTIME { core::wall_ns() } else { core::now_ns() };
        core::sleep_ns(if flags & TIMER_ABSTIME != 0 { ns.saturating_sub(now) } else { ns });
        return 0;
    }
    -(raw(SYS_clock_nanosleep, clk as i64, flags as i64, a as i64, b as i64, 0, 0)) as c_int
}
fn timed() -> bool {
    ACTIVE.load(Ordering::Relaxed) && core::me() >= 0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, t: *mut timespec) -> c_int {
    if timed() {
        if NOSIM.with(|n| n.get()) == 0 {
            sim().now += 50;
        }
        let ns = match clk {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => core::wall_ns(),
            _ => core::now_ns(),
        };
        (*t).tv_sec = (ns / 1_000_000_000) as i64;
        (*t).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(SYS_clock_gettime, clk as i64, t as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, _z: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*t).tv_sec = ts.tv_sec;
    (*t).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if timed() {
        let s = sim();
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for ch in out.chunks_mut(8) {
            let v = s.ent.next().to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()]);
        }
        return len as ssize_t;
    }
    ret(raw(SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    if getrandom(buf, len, 0) == len as ssize_t {
        0
    } else {
        -1
    }
}
/// The simulated process's own: in half the runs every process gets the same (as in a container), else
/// each has its own.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if timed() {
        let s = sim();
        return if s.sched.seed >> 7 & 1 == 0 { 7 } else { 1000 + crate::my_group() as pid_t };
    }
    raw(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, sz: size_t, set: *mut cpu_set_t) -> c_int {
    if timed() {
        std::ptr::write_bytes(set as *mut u8, 0, sz);
        for i in 0..4 {
            CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = raw(SYS_sched_getaffinity, pid as i64, sz as i64, set as i64, 0, 0, 0);
    if r >= 0 {
        let k = r as usize;
        if k < sz {
            std::ptr::write_bytes((set as *mut u8).add(k), 0, sz - k);
        }
        return 0;
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, n: c_int, to: c_int) -> c_int {
    if on() {
        let deadline = if to < 0 { None } else { Some(core::now_ns() + to as u64 * 1_000_000) };
        loop {
            let r = raw(SYS_epoll_wait, ep as i64, ev as i64, n as i64, 0, 0, 0);
            if r != 0 {
                return ret(r) as c_int;
            }
            if to == 0 {
                point();
                return 0;
            }
            if block(St::Poll { deadline }) {
                return 0;
            }
        }
    }
    ret(raw(SYS_epoll_wait, ep as i64, ev as i64, n as i64, to as i64, 0, 0)) as c_int
}

// ---- files -----------------------------------------------------------------------------------------------
unsafe fn do_open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::open(path(p), flags)) as c_int;
    }
    ret(raw(SYS_openat, AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(p, flags, mode)
}
fn join_at(fd: i32, p: &str) -> Option<String> {
    if fs::is_sim(p) {
        return Some(p.to_string());
    }
    if on_fd(fd) && !p.starts_with('/') {
        let base = sim().disk.fds.get(&fd).map(|f| f.path.clone())?;
        return Some(if p.is_empty() { base } else { format!("{base}/{p}") });
    }
    None
}
unsafe fn do_openat(fd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if on() {
        if let Some(q) = join_at(fd, path(p)) {
            return res(fs::open(&q, flags)) as c_int;
        }
    }
    ret(raw(SYS_openat, fd as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(fd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(fd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on_fd(fd) {
        sim().disk.close(fd);
        return 0;
    }
    if vfd(fd) {
        return 0;
    }
    ret(raw(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if on_fd(fd) {
        return res(fs::read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None).map(|v| v as i64)) as ssize_t;
    }
    ret(raw(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if on_fd(fd) {
        return res(fs::read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64)).map(|v| v as i64)) as ssize_t;
    }
    ret(raw(SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if on_fd(fd) {
        return res(fs::write(fd, std::slice::from_raw_parts(b as *const u8, n), None).map(|v| v as i64)) as ssize_t;
    }
    let r = ret(raw(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t;
    if fd > 2 && on() {
        // an eventfd of the I/O driver: whoever polls looks again
        let s = sim();
        for i in 0..s.threads.len() {
            if matches!(s.threads[i].st, St::Poll { .. }) {
                wake(i);
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if on_fd(fd) {
        return res(fs::write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as u64)).map(|v| v as i64)) as ssize_t;
    }
    ret(raw(SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if on_fd(fd) {
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return read(fd, e.iov_base, e.iov_len);
            }
        }
        return 0;
    }
    ret(raw(SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if on_fd(fd) {
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return write(fd, e.iov_base, e.iov_len);
            }
        }
        return 0;
    }
    ret(raw(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    if on_fd(fd) {
        return res(fs::seek(fd, off, w).map(|v| v as i64));
    }
    ret(raw(SYS_lseek, fd as i64, off, w as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, w: c_int) -> off_t {
    lseek64(fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if on_fd(fd) {
        return res(fs::sync(fd).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if on_fd(fd) {
        return res(fs::sync(fd).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if on_fd(fd) {
        return res(fs::truncate(fd, len as u64).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if on_fd(fd) {
        return res(fs::flock(fd, op).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if on_fd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => res(fs::dup(fd).map(|v| v as i64)) as c_int,
            F_GETFL => O_RDWR,
            _ => 0,
        };
    }
    ret(raw(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if on_fd(fd) {
        return 0;
    }
    ret(raw(SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return 0;
    }
    ret(raw(SYS_chmod, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if on_fd(a) || on_fd(b) {
        set_errno(ENOSYS);
        return -1;
    }
    ret(raw(SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if on_fd(a) || on_fd(b) {
        set_errno(ENOSYS);
        return -1;
    }
    ret(raw(SYS_sendfile, a as i64, b as i64, o as i64, n as i64, 0, 0)) as ssize_t
}
unsafe fn fill(st: *mut stat64, v: (u64, bool, u64)) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_ino = v.0;
    (*st).st_mode = if v.1 { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*st).st_size = v.2 as i64;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if on_fd(fd) {
        return res(fs::fstat(fd).map(|v| {
            fill(st, v);
            0i64
        })) as c_int;
    }
    ret(raw(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::stat(path(p)).map(|v| {
            fill(st, v);
            0i64
        })) as c_int;
    }
    ret(raw(SYS_stat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return stat64(p, st);
    }
    ret(raw(SYS_lstat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let r = if on() && fs::is_sim(path(p)) {
        Some(fs::stat(path(p)))
    } else if on_fd(fd) && path(p).is_empty() {
        Some(fs::fstat(fd))
    } else if on_fd(fd) {
        join_at(fd, path(p)).map(|q| fs::stat(&q))
    } else {
        None
    };
    if let Some(r) = r {
        return res(r.map(|v| {
            std::ptr::write_bytes(st, 0, 1);
            (*st).stx_mask = STATX_BASIC_STATS;
            (*st).stx_ino = v.0;
            (*st).stx_mode = (if v.1 { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
            (*st).stx_size = v.2;
            (*st).stx_nlink = 1;
            (*st).stx_blksize = 4096;
            0i64
        })) as c_int;
    }
    ret(raw(SYS_statx, fd as i64, p as i64, flags as i64, mask as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::stat(path(p)).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::unlink(path(p), false).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::unlink(path(p), true).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int {
    if on() {
        if let Some(q) = join_at(fd, path(p)) {
            return res(fs::unlink(&q, flags & AT_REMOVEDIR != 0).map(|_| 0i64)) as c_int;
        }
    }
    ret(raw(SYS_unlinkat, fd as i64, p as i64, flags as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if on() && fs::is_sim(path(p)) {
        return res(fs::mkdir(path(p)).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_mkdir, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on() && fs::is_sim(path(a)) {
        return res(fs::rename(path(a), path(b)).map(|_| 0i64)) as c_int;
    }
    ret(raw(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if on() && fs::is_sim(path(p)) {
        if fs::stat(path(p)).is_err() {
            set_errno(ENOENT);
            return std::ptr::null_mut();
        }
        return if out.is_null() {
            strdup(p)
        } else {
            strcpy(out, p)
        };
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next_sym(c"realpath", &SLOT));
    real(p, out)
}
// directories
const DIR_MAGIC: u64 = 0x51_4d_d1_12_51_4d_d1_12;
#[repr(C)]
struct SimDir {
    magic: u64,
    ents: Vec<(String, u64, bool)>,
    at: usize,
    fd: i32,
    buf: dirent64,
}
unsafe fn is_simdir(d: *mut c_void) -> bool {
    // The first word of a real DIR is its small file descriptor.
    ACTIVE.load(Ordering::Relaxed) && *(d as *const u64) == DIR_MAGIC
}
unsafe fn make_dir(fd: i32) -> *mut c_void {
    let d = &mut sim().disk;
    let ino = d.fds[&fd].ino;
    let mut ents: Vec<(String, u64, bool)> =
        d.inodes[&ino].ents.iter().map(|(k, i)| (k.clone(), *i, d.inodes[i].dir)).collect();
    // The order in which a file system lists a directory is not defined.
    sim().ent.shuffle(&mut ents);
    Box::into_raw(Box::new(SimDir { magic: DIR_MAGIC, ents, at: 0, fd, buf: std::mem::zeroed() })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if on() && fs::is_sim(path(p)) {
        return match fs::open(path(p), O_RDONLY | O_DIRECTORY) {
            Ok(fd) => make_dir(fd),
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(next_sym(c"opendir", &SLOT));
    real(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if on_fd(fd) {
        return make_dir(fd);
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(next_sym(c"fdopendir", &SLOT));
    real(fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if is_simdir(d) {
        return (*(d as *mut SimDir)).fd;
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next_sym(c"dirfd", &SLOT));
    real(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut dirent64 {
    if is_simdir(d) {
        let s = &mut *(d as *mut SimDir);
        if s.at >= s.ents.len() {
            return std::ptr::null_mut();
        }
        let (name, ino, dir) = s.ents[s.at].clone();
        s.at += 1;
        s.buf = std::mem::zeroed();
        s.buf.d_ino = ino;
        s.buf.d_type = if dir { DT_DIR } else { DT_REG };
        s.buf.d_reclen = std::mem::size_of::<dirent64>() as u16;
        for (i, b) in name.bytes().enumerate() {
            s.buf.d_name[i] = b as c_char;
        }
        return &mut s.buf;
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut c_void) -> *mut dirent64 = std::mem::transmute(next_sym(c"readdir64", &SLOT));
    real(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if is_simdir(d) {
        let s = Box::from_raw(d as *mut SimDir);
        sim().disk.close(s.fd);
        return 0;
    }
    static SLOT: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next_sym(c"closedir", &SLOT));
    real(d)
}

#[used]
static KEEP: [usize; 0] = [];
/// Referenced by the binaries so that the linker takes this object, and with it every symbol above.
pub fn keep() -> usize {
    let f: [*const (); 12] = [
        pthread_create as *const (),
        pthread_join as *const (),
        syscall as *const (),
        clock_gettime as *const (),
        getrandom as *const (),
        open64 as *const (),
        write as *const (),
        read as *const (),
        fsync as *const (),
        readdir64 as *const (),
        statx as *const (),
        epoll_wait as *const (),
    ];
    f.iter().map(|p| *p as usize).fold(0, |a, b| a ^ b) ^ std::mem::size_of::<Group>() ^ KEEP.len()
}
