//! Seeded search over simulated runs: generation, execution in a forked child, replay, minimisation and
//! evidence.
pub use simrt;
pub use simrt::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::time::Instant;

mod engine;
pub use engine::*;

/// One step of a workload, or one fault: a kind and integer arguments, so that any scenario can be
/// written down, cut and shrunk without knowing what it means.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: String,
    #[serde(default)]
    pub a: Vec<i64>,
}
impl Op {
    pub fn new(k: &str, a: &[i64]) -> Self {
        Self { k: k.into(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn u(&self, i: usize) -> u64 {
        self.arg(i).max(0) as u64
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    pub policy: u8,
    pub preempt: u64,
    pub limit: u64,
    pub spurious: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub check: String,
    pub seed: u64,
    pub sched: SchedCfg,
    pub params: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Op>,
}
impl Scenario {
    pub fn new(check: &str, seed: u64) -> Self {
        let mut r = Rng::new(simrt::mix(seed, "schedcfg"));
        let policy = *r.pick(&[0u8, 0, 1, 1, 2, 3]);
        let preempt = *r.pick(&[0u64, 0, 20, 60, 200, 800, 3000]);
        let spurious = *r.pick(&[0u64, 0, 0, 20]);
        Self {
            check: check.into(),
            seed,
            sched: SchedCfg { seed: simrt::mix(seed, "sched") >> 1, policy, preempt: if policy == 3 { 0 } else { preempt }, limit: u64::MAX >> 1, spurious },
            params: BTreeMap::new(),
            ops: vec![],
            faults: vec![],
        }
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.params.insert(k.into(), v);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunResult {
    /// (class, message)
    pub violation: Option<(String, String)>,
    /// "ok", "step-limit", "deadlock", "died"
    pub end: String,
    pub steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub preemptions: u64,
    pub io_ops: u64,
    pub threads: u64,
    pub crashes: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub ev_hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub cov: Vec<u32>,
    pub checks: u64,
    pub log: Vec<String>,
}

/// A property's check.
pub struct Check {
    pub id: &'static str,
    /// Names of the workloads this check mixes, for evidence.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub gen: fn(seed: u64, i: u64) -> Scenario,
    pub run: fn(&Scenario),
    /// (quick runs, thorough runs) and (quick, thorough) wall seconds
    pub runs: (u64, u64),
    pub wall: (u64, u64),
    /// deadlock (nothing can ever run again) and step limit count as violations
    pub stuck_is_violation: bool,
    pub max_steps: u64,
}

pub struct Cx {
    pub violation: Option<(String, String)>,
    pub states: BTreeSet<u64>,
    pub checks: u64,
    pub out: i32,
    pub sc: Option<Scenario>,
    pub stuck: bool,
}
static mut CX: *mut Cx = std::ptr::null_mut();
pub fn cx() -> &'static mut Cx {
    unsafe { &mut *CX }
}
/// Record the violation and end the run here.
pub fn violate(class: &str, msg: impl Into<String>) -> ! {
    let msg = msg.into();
    simrt::note(|| format!("VIOLATION {class}: {msg}"));
    cx().violation = Some((class.into(), msg));
    finish("ok");
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {{
        $crate::cx().checks += 1;
        if !($cond) { $crate::violate($class, format!($($fmt)*)); }
    }};
}
/// A distinct state, by whatever signature the check defines.
pub fn state(sig: u64) {
    cx().states.insert(sig);
}
pub fn hash_str(s: &str) -> u64 {
    simrt::mix(7, s)
}
/// End the run and report.
pub fn finish(end: &str) -> ! {
    let s = simrt::sim();
    let panics: Vec<String> = s.groups.iter().flat_map(|g| g.panics.iter().cloned()).collect();
    simrt::stop();
    let c = cx();
    let mut violation = c.violation.take();
    if violation.is_none() && !panics.is_empty() {
        violation = Some(("panic".into(), panics.join(" | ")));
    }
    if violation.is_none() && c.stuck && (end == "deadlock" || end == "step-limit") {
        violation = Some(("stuck".into(), format!("{end}: no progress is possible any more")));
    }
    let st = &s.stats;
    let r = RunResult {
        violation,
        end: end.into(),
        steps: st.steps,
        switches: st.switches,
        choices: st.choices,
        preemptions: st.preemptions,
        io_ops: st.io_ops,
        threads: st.threads,
        crashes: st.crashes,
        sim_ns: s.now - 1_000_000_000,
        sched_hash: s.sched_hash,
        ev_hash: s.ev_hash,
        faults: st.faults.clone(),
        probes: st.probes.clone(),
        states: c.states.iter().copied().take(4096).collect(),
        cov: simrt::interpose::coverage(),
        checks: c.checks,
        log: std::mem::take(&mut s.log),
    };
    let buf = serde_json::to_vec(&r).unwrap();
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(c.out) };
    let _ = f.write_all(&(buf.len() as u32).to_le_bytes());
    let _ = f.write_all(&buf);
    drop(f);
    unsafe {
        simrt::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
fn on_fatal(why: &str) {
    finish(why);
}

/// Runs inside the forked child.
pub(crate) fn child(check: &Check, sc: &Scenario, out: i32, log: bool) -> ! {
    unsafe {
        CX = Box::into_raw(Box::new(Cx { violation: None, states: BTreeSet::new(), checks: 0, out, sc: Some(sc.clone()), stuck: check.stuck_is_violation }));
        if simrt::interpose::keep() == 1 {
            libc::abort();
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if simrt::ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && simrt::me() >= 0 {
            let g = simrt::my_group() as usize;
            simrt::note(|| format!("PANIC at {loc}: {msg}"));
            simrt::sim().groups[g].panics.push(format!("{loc}: {msg}"));
        } else if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("panic outside the simulation at {loc}: {msg}");
        }
    }));
    let s = &sc.sched;
    simrt::start(
        simrt::Sched { seed: s.seed, policy: s.policy, preempt: s.preempt, limit: s.limit, max_steps: check.max_steps, spurious: s.spurious },
        log,
        on_fatal,
    );
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(sc)));
    let _ = r;
    finish("ok")
}
pub fn wall() -> Instant {
    Instant::now()
}
