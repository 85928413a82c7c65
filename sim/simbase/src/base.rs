//! What the workloads share: lock-free cells between processes and controller, incarnations, faults.
use simcore::*;
use simrt::fs::{IoFault, Kind};
use std::cell::UnsafeCell;
use std::sync::Arc;

/// Data that outlives simulated processes (the harness's own record of what it did and was told). It is
/// only touched inside `with`, where nothing can be preempted or killed, so it needs no lock.
pub struct Shared<T>(Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Self(Arc::new(UnsafeCell::new(t)))
    }
    #[allow(dead_code)]
    pub fn ptr(&self) -> *mut T {
        self.0.get()
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        simrt::critical(|| f(unsafe { &mut *self.0.get() }))
    }
}
pub const FOREVER: u64 = 3_600_000_000_000;

pub fn disk() -> &'static mut simrt::fs::Disk {
    &mut simrt::sim().disk
}
/// Run `f` as a process. True when it ended by itself; otherwise it was killed (by a fault, or by us at
/// the time limit).
pub fn process(name: &str, limit_ns: u64, f: impl FnOnce() + Send + 'static) -> bool {
    let g = simrt::spawn_group(name, f);
    let done = simrt::wait_group(g, limit_ns);
    let panicked = simrt::sim().groups[g as usize].panics.clone();
    simrt::kill_group(g);
    statics_anew();
    if let Some(p) = panicked.first() {
        violate("panic", p.clone());
    }
    done
}
/// Like `process`, but the panics are handed to the caller.
pub fn process_may_panic(name: &str, limit_ns: u64, f: impl FnOnce() + Send + 'static) -> (bool, Vec<String>) {
    let g = simrt::spawn_group(name, f);
    let done = simrt::wait_group(g, limit_ns);
    let p = std::mem::take(&mut simrt::sim().groups[g as usize].panics);
    simrt::kill_group(g);
    statics_anew();
    (done, p)
}
static STATICS: std::sync::OnceLock<Vec<(usize, Vec<u8>)>> = std::sync::OnceLock::new();
/// Note the small writable statics of the storage crate, as they are before anything has run. A new
/// simulated process starts with these: a lock its predecessor held when it was killed is free again.
pub fn note_statics() {
    STATICS.get_or_init(|| {
        extern "C" {
            static __executable_start: u8;
        }
        let base = unsafe { &__executable_start as *const u8 as usize };
        let elf = std::fs::read("/proc/self/exe").unwrap();
        let u = |at: usize, n: usize| (0..n).fold(0usize, |v, i| v | (elf[at + i] as usize) << (8 * i));
        let (shoff, shsize, shnum) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2));
        let sec = |i: usize| shoff + i * shsize;
        let is = |i: usize, n: &[u8]| elf[u(sec(u(0x3e, 2)) + 0x18, 8) + u(sec(i), 4)..].starts_with(n);
        let mut found = vec![];
        for i in (0..shnum).filter(|i| u(sec(*i) + 4, 4) == 2) {
            let (off, len, names) = (u(sec(i) + 0x18, 8), u(sec(i) + 0x20, 8), u(sec(u(sec(i) + 0x28, 4)) + 0x18, 8));
            for at in (off..off + len).step_by(24) {
                let (info, size) = (elf[at + 4], u(at + 16, 8));
                if info & 15 != 1 || size == 0 || size > 64 {
                    continue;
                }
                let shndx = u(at + 6, 2);
                if shndx >= shnum || !is(shndx, b".bss\0") && !is(shndx, b".data\0") {
                    continue;
                }
                let name = &elf[names + u(at, 4)..];
                let name = &name[..name.iter().position(|c| *c == 0).unwrap()];
                let name = String::from_utf8_lossy(name);
                if name.contains("10tn_storage") && !name.contains("CALLSITE") && !name.contains("META") {
                    let a = base + u(at + 8, 8);
                    found.push((a, unsafe { std::slice::from_raw_parts(a as *const u8, size) }.to_vec()));
                }
            }
        }
        found
    });
}
fn statics_anew() {
    for (a, v) in STATICS.get().into_iter().flatten() {
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len()) };
    }
}
pub const CLASSES: &[char] = &['w', 's', 'r', 'o', 't', 'n', 'm', '*', 'p'];
pub const KINDS: &[Kind] = &[Kind::Eio, Kind::Enospc, Kind::Short, Kind::Eintr, Kind::Delay, Kind::CrashBefore, Kind::CrashPartial, Kind::CrashAfter];

/// "io" op: [class, nth, kind, arg, times, path]
pub fn arm(vol: &str, o: &Op, paths: &[&str]) {
    let path = paths.get(o.u(5) as usize).copied().unwrap_or("");
    let f = IoFault {
        vol: vol.into(),
        path: path.into(),
        class: CLASSES[(o.u(0) as usize).min(CLASSES.len() - 1)],
        nth: o.u(1),
        times: o.u(4).max(1),
        kind: KINDS[(o.u(2) as usize).min(KINDS.len() - 1)].clone(),
        arg: o.u(3),
        hit: 0,
    };
    disk().faults.push(f);
}
/// How many faults of these classes took effect so far.
pub fn fired(classes: &str) -> u64 {
    disk().faults.iter().filter(|f| classes.is_empty() || classes.contains(f.class)).map(|f| f.hit.saturating_sub(f.nth)).sum()
}
pub fn disarm() {
    disk().faults.clear();
}
/// An errors-and-interruptions fault, or (crash) one that kills the process at a mutation.
pub fn gen_crash(r: &mut Rng, span: u64, npaths: u64) -> Op {
    let kind = *r.pick(&[5i64, 6, 6, 7]);
    let class = *r.pick(&[6i64, 6, 6, 0, 1, 3]);
    let path = if r.chance(1, 2) { npaths as i64 } else { r.below(npaths + 1) as i64 };
    Op::new("io", &[class, r.below(span) as i64, kind, 0, 1, path])
}
pub fn gen_soft(r: &mut Rng, span: u64, npaths: u64) -> Op {
    let kind = *r.pick(&[2i64, 3, 4]);
    let class = *r.pick(&[0i64, 2, 2, 0]);
    Op::new("io", &[class, r.below(span) as i64, kind, 1 + r.below(40) as i64, 1 + r.below(4) as i64, npaths as i64])
}
pub fn gen_err(r: &mut Rng, span: u64, npaths: u64) -> Op {
    let kind = *r.pick(&[0i64, 0, 1]);
    let class = *r.pick(&[0i64, 0, 1, 2, 4]);
    let path = if r.chance(1, 2) { npaths as i64 } else { r.below(npaths + 1) as i64 };
    Op::new("io", &[class, r.below(span) as i64, kind, if r.chance(1, 2) { 1 + r.below(300) as i64 } else { 0 }, 1 + r.below(3) as i64, path])
}
pub fn body(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x5151);
    let z = r.chance(1, 3);
    (0..len).map(|_| if z { 7 } else { r.next() as u8 }).collect()
}
