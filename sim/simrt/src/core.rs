//! Token scheduler, simulated clock and process groups.
//!
//! Every thread of the simulated program is a real thread, but exactly one runs at a time: the one that
//! holds the token. The token moves only at intercepted points (futex wait/wake, sleeps, yields, thread
//! create/join/exit, file operations and, when asked for, basic-block boundaries of the code under test),
//! and the next holder is chosen by the PRNG of the run. Time is simulated: it moves when nothing is
//! runnable, jumping to the next deadline, and by a little at each step.
use crate::fs::Disk;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering};

thread_local! {
    pub static ME: Cell<i32> = const { Cell::new(-1) };
    pub static NOSIM: Cell<u32> = const { Cell::new(0) };
}
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut COUNTDOWN: i64 = i64::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Runnable,
    Futex { addr: usize, bitset: u32, deadline: Option<u64> },
    Sleep { deadline: u64 },
    Join { tid: i32, deadline: Option<u64> },
    Poll { deadline: Option<u64> },
    WaitGroup { g: u32, deadline: Option<u64> },
    Done,
}
pub struct Thread {
    pub st: St,
    pub group: u32,
    pub park: Box<AtomicU32>,
    pub timed_out: bool,
    pub prio: u64,
    pub pthread: u64,
}
#[derive(Default)]
pub struct Group {
    pub alive: bool,
    pub wall_skew: i64,
    pub stalled_until: u64,
    pub main: i32,
    pub main_done: bool,
    pub name: String,
    pub panics: Vec<String>,
    pub crashed_at: String,
}
#[derive(Clone, Debug)]
pub struct Sched {
    pub seed: u64,
    /// 0 random, 1 sticky, 2 priorities (PCT-like), 3 run-to-block
    pub policy: u8,
    /// mean number of basic blocks between forced preemptions, 0 for none
    pub preempt: u64,
    /// scheduling decisions after this many are deterministic run-to-block
    pub limit: u64,
    pub max_steps: u64,
    pub spurious: u64,
}
impl Default for Sched {
    fn default() -> Self {
        Self { seed: 1, policy: 0, preempt: 0, limit: u64::MAX, max_steps: 20_000_000, spurious: 0 }
    }
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub preemptions: u64,
    pub io_ops: u64,
    pub threads: u64,
    pub crashes: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}
pub struct Sim {
    pub threads: Vec<Thread>,
    pub groups: Vec<Group>,
    pub now: u64,
    pub wall_base: u64,
    pub rng: Rng,
    pub ent: Rng,
    pub sched: Sched,
    pub stats: Stats,
    pub sched_hash: u64,
    pub ev_hash: u64,
    pub log_on: bool,
    pub log: Vec<String>,
    pub next_group: u32,
    pub disk: Disk,
    pub fatal: Option<fn(&str)>,
    pub boost: u64,
}
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn me() -> i32 {
    ME.with(|m| m.get())
}
/// Is the calling thread simulated right now?
#[inline]
pub fn on() -> bool {
    ACTIVE.load(Ordering::Relaxed) && me() >= 0 && NOSIM.with(|n| n.get()) == 0
}
/// As `on`, and also inside `critical`.
fn live() -> bool {
    ACTIVE.load(Ordering::Relaxed) && me() >= 0
}
pub fn my_group() -> u32 {
    sim().threads[me() as usize].group
}

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
/// The thread that has handed over the token for good and is on its way out.
static LEAVING: AtomicI32 = AtomicI32::new(0);
fn park(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        unsafe { raw(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0) };
    }
    // What a thread frees as it goes (its stack, its caches) decides the addresses of what is allocated
    // next, and some locks hash addresses: wait until it is gone.
    let t = LEAVING.swap(0, Ordering::Acquire);
    if t != 0 {
        unsafe {
            let pid = raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0);
            while raw(libc::SYS_tgkill, pid, t as i64, 0, 0, 0, 0) == 0 {
                raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
            }
        }
    }
}
fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe { raw(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0) };
}

/// Start simulating, with the calling thread as simulated thread 0 of group 0 (the controller).
pub fn start(sched: Sched, log_on: bool, fatal: fn(&str)) {
    let mut rng = Rng::new(crate::rng::mix(sched.seed, "sched"));
    let ent = Rng::new(crate::rng::mix(sched.seed, "entropy"));
    let prio = rng.next();
    let s = Box::new(Sim {
        threads: vec![Thread { st: St::Runnable, group: 0, park: Box::new(AtomicU32::new(0)), timed_out: false, prio, pthread: 0 }],
        groups: vec![Group { alive: true, name: "ctl".into(), ..Default::default() }],
        now: 1_000_000_000,
        wall_base: 1_700_000_000_000_000_000,
        rng,
        ent,
        sched,
        stats: Stats::default(),
        sched_hash: 0xcbf29ce484222325,
        ev_hash: 0xcbf29ce484222325,
        log_on,
        log: vec![],
        next_group: 0,
        disk: Disk::default(),
        fatal: Some(fatal),
        boost: 0,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    ME.with(|m| m.set(0));
    rearm();
    ACTIVE.store(true, Ordering::SeqCst);
}
pub fn stop() {
    ACTIVE.store(false, Ordering::SeqCst);
    unsafe { COUNTDOWN = i64::MAX };
}
pub fn rearm() {
    let s = sim();
    unsafe {
        COUNTDOWN = if s.sched.preempt == 0 || s.stats.choices >= s.sched.limit { i64::MAX } else { s.rng.gap(s.sched.preempt) as i64 };
    }
}
#[inline]
fn fold(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
}
pub fn event(tag: u64, x: u64) {
    let s = sim();
    fold(&mut s.ev_hash, tag);
    fold(&mut s.ev_hash, x);
}
/// Append to the log of the run. Draws nothing from the PRNG and moves no clock.
pub fn note(f: impl FnOnce() -> String) {
    // formatting, and this function where it is instantiated, may be instrumented code
    let left = unsafe { std::mem::replace(&mut COUNTDOWN, i64::MAX) };
    if live() && sim().log_on {
        let s = sim();
        let g = s.threads[me() as usize].group;
        let m = NOSIM.with(|n| n.replace(1));
        let line = format!("t={:.6} step={} g{} th{} {}", s.now as f64 / 1e9, s.stats.steps, g, me(), f());
        s.log.push(line);
        NOSIM.with(|n| n.set(m));
    }
    unsafe { COUNTDOWN = left };
}
pub fn fault(name: &str) {
    *sim().stats.faults.entry(name.to_string()).or_insert(0) += 1;
    note(|| format!("FAULT {name}"));
}
pub fn probe(name: &str) {
    if live() {
        *sim().stats.probes.entry(name.to_string()).or_insert(0) += 1;
    }
}
pub fn fatal(why: &str) -> ! {
    let f = sim().fatal;
    stop();
    if let Some(f) = f {
        f(why);
    }
    unsafe {
        raw(libc::SYS_exit_group, 99, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

fn runnable(s: &Sim, i: usize) -> bool {
    let t = &s.threads[i];
    if t.st != St::Runnable {
        return false;
    }
    let g = &s.groups[t.group as usize];
    g.alive && g.stalled_until <= s.now
}
fn deadline_of(st: &St) -> Option<u64> {
    match st {
        St::Futex { deadline, .. } | St::Join { deadline, .. } | St::Poll { deadline } | St::WaitGroup { deadline, .. } => *deadline,
        St::Sleep { deadline } => Some(*deadline),
        _ => None,
    }
}
/// Hand the token on. The state of the calling thread is already set; returns when it is scheduled again.
pub fn resched() {
    let s = sim();
    let me_i = me() as usize;
    s.stats.steps += 1;
    s.now += 200 + s.boost;
    s.boost = 0;
    if s.stats.steps > s.sched.max_steps {
        fatal("step-limit");
    }
    let next = loop {
        let mut cand: [u16; 256] = [0; 256];
        let mut n = 0;
        let mut min_dl = u64::MAX;
        for i in 0..s.threads.len() {
            let alive = s.groups[s.threads[i].group as usize].alive;
            if !alive {
                continue;
            }
            if let Some(d) = deadline_of(&s.threads[i].st) {
                if d <= s.now {
                    s.threads[i].st = St::Runnable;
                    s.threads[i].timed_out = true;
                } else {
                    min_dl = min_dl.min(d);
                    continue;
                }
            }
            if s.threads[i].st == St::Runnable {
                let su = s.groups[s.threads[i].group as usize].stalled_until;
                if su > s.now {
                    min_dl = min_dl.min(su);
                } else if n < 256 {
                    cand[n] = i as u16;
                    n += 1;
                }
            }
        }
        if n == 0 {
            if min_dl == u64::MAX {
                fatal("deadlock");
            }
            s.now = min_dl;
            continue;
        }
        let cand = &cand[..n];
        if n == 1 {
            break cand[0] as usize;
        }
        s.stats.choices += 1;
        let det = s.stats.choices > s.sched.limit || s.sched.policy == 3;
        let pick = if det {
            if cand.contains(&(me_i as u16)) {
                me_i
            } else {
                cand[0] as usize
            }
        } else {
            match s.sched.policy {
                1 => {
                    if cand.contains(&(me_i as u16)) && !s.rng.chance(1, 8) {
                        me_i
                    } else {
                        *s.rng.pick(cand) as usize
                    }
                }
                2 => {
                    if s.rng.chance(1, 24) {
                        s.threads[me_i].prio = s.rng.next();
                    }
                    *cand.iter().max_by_key(|i| s.threads[**i as usize].prio).unwrap() as usize
                }
                _ => *s.rng.pick(cand) as usize,
            }
        };
        fold(&mut s.sched_hash, pick as u64);
        crate::trail(s.stats.steps, s.sched_hash, s.ev_hash);
        let [lo, hi] = trap();
        if s.stats.steps >= lo && s.stats.steps < hi {
            critical(|| note(|| format!("TRAP th{me_i} -> th{pick} of {cand:?}\n{}", std::backtrace::Backtrace::force_capture())));
        }
        break pick;
    };
    if next == me_i {
        return;
    }
    s.stats.switches += 1;
    let my_park: *const AtomicU32 = &*s.threads[me_i].park;
    let done = s.threads[me_i].st == St::Done;
    if done {
        LEAVING.store(unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32, Ordering::Release);
    }
    unpark(&s.threads[next].park);
    if done {
        return;
    }
    unsafe { park(&*my_park) };
}
/// A scheduling point of a runnable thread.
pub fn point() {
    if on() {
        resched();
    }
}
/// Block with the given state; true if woken by the deadline.
pub fn block(st: St) -> bool {
    let m = me() as usize;
    sim().threads[m].timed_out = false;
    sim().threads[m].st = st;
    resched();
    sim().threads[m].timed_out
}
pub fn wake(i: usize) {
    let t = &mut sim().threads[i];
    t.st = St::Runnable;
    t.timed_out = false;
}
pub fn futex_wait(addr: usize, val: u32, bitset: u32, deadline: Option<u64>) -> i32 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return libc::EAGAIN;
    }
    let s = sim();
    if s.sched.spurious > 0 && s.stats.choices < s.sched.limit && s.rng.chance(1, s.sched.spurious) {
        fault("spurious_wakeup");
        resched();
        return libc::EINTR;
    }
    if block(St::Futex { addr, bitset, deadline }) {
        libc::ETIMEDOUT
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: i32, bits: u32) -> i32 {
    let s = sim();
    let mut woken = 0;
    let mut w: Vec<usize> = (0..s.threads.len())
        .filter(|i| matches!(s.threads[*i].st, St::Futex { addr: a, bitset, .. } if a == addr && bitset & bits != 0) && s.groups[s.threads[*i].group as usize].alive)
        .collect();
    if w.len() as i32 > n && s.sched.policy != 3 {
        s.rng.shuffle(&mut w);
    }
    for i in w {
        if woken >= n {
            break;
        }
        wake(i);
        woken += 1;
    }
    woken
}
pub fn sleep_ns(ns: u64) {
    if on() {
        let d = sim().now + ns;
        block(St::Sleep { deadline: d });
    }
}
pub fn now_ns() -> u64 {
    sim().now
}
pub fn wall_ns() -> u64 {
    let s = sim();
    let g = &s.groups[s.threads[me() as usize].group as usize];
    (s.wall_base as i64 + s.now as i64 + g.wall_skew) as u64
}
pub fn thread_done() {
    let m = me() as usize;
    let s = sim();
    s.threads[m].st = St::Done;
    let g = s.threads[m].group as usize;
    if s.groups[g].main == m as i32 {
        s.groups[g].main_done = true;
    }
    for i in 0..s.threads.len() {
        match s.threads[i].st {
            St::Join { tid, .. } if tid == m as i32 => wake(i),
            St::WaitGroup { g: wg, .. } if wg as usize == g && s.groups[g].main_done => wake(i),
            _ => {}
        }
    }
    resched();
    ME.with(|x| x.set(-1));
}
/// The group a new thread belongs to.
pub fn spawn_hook(tid: i32) -> u32 {
    let s = sim();
    if s.next_group != 0 {
        let g = s.next_group;
        s.next_group = 0;
        s.groups[g as usize].main = tid;
        g
    } else {
        s.threads[me() as usize].group
    }
}
pub fn park_self(tid: i32) {
    let p: *const AtomicU32 = &*sim().threads[tid as usize].park;
    unsafe { park(&*p) };
}
/// Start `f` as the main thread of a new process group. Threads it starts belong to the same group.
pub fn spawn_group(name: &str, f: impl FnOnce() + Send + 'static) -> u32 {
    let s = sim();
    let g = s.groups.len() as u32;
    s.groups.push(Group { alive: true, name: name.into(), main: -1, ..Default::default() });
    s.next_group = g;
    let h = std::thread::Builder::new()
        .name(name.to_string())
        .stack_size(16 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            drop(r);
        })
        .expect("spawn");
    std::mem::forget(h);
    g
}
/// Wait until the group's main thread ended (true) or the group was killed or the time is up (false).
pub fn wait_group(g: u32, timeout_ns: u64) -> bool {
    let dl = sim().now + timeout_ns;
    loop {
        let gr = &sim().groups[g as usize];
        if gr.main_done {
            return true;
        }
        if !gr.alive || sim().now >= dl {
            return false;
        }
        block(St::WaitGroup { g, deadline: Some(dl) });
    }
}
pub fn group_alive(g: u32) -> bool {
    let gr = &sim().groups[g as usize];
    gr.alive && !gr.main_done
}
/// Stop every thread of the group where it stands, for good. Its memory is gone as far as the system is
/// concerned; its files are as the kernel last saw them.
pub fn kill_group(g: u32) {
    let s = sim();
    if !s.groups[g as usize].alive {
        return;
    }
    s.groups[g as usize].alive = false;
    s.stats.crashes += 1;
    note(|| format!("KILL group {g}"));
    event(77, g as u64);
    for i in 0..s.threads.len() {
        if let St::WaitGroup { g: wg, .. } = s.threads[i].st {
            if wg == g {
                wake(i);
            }
        }
    }
    s.disk.close_group(g);
    if s.threads[me() as usize].group == g {
        resched(); // never returns: the group is dead
        unreachable!();
    }
}
/// Run `f` with no preemption (the token stays here).
pub fn critical<R>(f: impl FnOnce() -> R) -> R {
    NOSIM.with(|n| n.set(n.get() + 1));
    let r = f();
    NOSIM.with(|n| n.set(n.get() - 1));
    r
}

/// Debugging aid: the running hashes by step, in memory the runs' own allocations never see.
/// Note every scheduling point in a range of steps with where the thread is (debugging; with the trail on).
pub fn trap_set(lo: u64, hi: u64) {
    let p = TRAIL.load(std::sync::atomic::Ordering::Relaxed);
    unsafe { *(p as *mut [u64; 2]).add(TRAIL_LEN - 1) = [lo, hi] };
}
#[inline]
fn trap() -> [u64; 2] {
    match TRAIL.load(std::sync::atomic::Ordering::Relaxed) {
        0 => [0, 0],
        p => unsafe { *(p as *mut [u64; 2]).add(TRAIL_LEN - 1) },
    }
}
static TRAIL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const TRAIL_LEN: usize = 1 << 20;
pub fn trail_on() {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), TRAIL_LEN * 16, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    TRAIL.store(p as usize, std::sync::atomic::Ordering::Relaxed);
}
pub fn trail_get() -> Vec<[u64; 2]> {
    let p = TRAIL.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 {
        return vec![];
    }
    unsafe { std::slice::from_raw_parts(p as *const [u64; 2], TRAIL_LEN).to_vec() }
}
#[inline]
pub fn trail(step: u64, a: u64, b: u64) {
    let p = TRAIL.load(std::sync::atomic::Ordering::Relaxed);
    if p != 0 && (step as usize) < TRAIL_LEN - 1 {
        unsafe { *(p as *mut [u64; 2]).add(step as usize) = [a, b] };
    }
}
