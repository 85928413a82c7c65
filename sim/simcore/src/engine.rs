use crate::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::fd::RawFd;

pub const HANG_S: u64 = 120;

/// Runs are forked from helper processes that stay as they were when the program started, so that the
/// memory a run starts with (and with it every address it sees) does not depend on what ran before.
#[derive(Clone, Copy)]
struct Zygote {
    pid: i32,
    req: RawFd,
    res: RawFd,
}
const NZ: usize = 8;
const REQ_MAX: usize = 32 << 20;
static mut ZYGOTES: [Zygote; NZ] = [Zygote { pid: 0, req: -1, res: -1 }; NZ];
fn read_full(fd: RawFd, p: *mut u8, n: usize) -> bool {
    let mut got = 0;
    while got < n {
        let r = unsafe { libc::read(fd, p.add(got) as *mut _, n - got) };
        if r <= 0 {
            return false;
        }
        got += r as usize;
    }
    true
}
fn write_full(fd: RawFd, b: &[u8]) {
    let mut put = 0;
    while put < b.len() {
        let r = unsafe { libc::write(fd, b[put..].as_ptr() as *const _, b.len() - put) };
        if r <= 0 {
            return;
        }
        put += r as usize;
    }
}
fn start_zygotes(checks: &[Check]) {
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    unsafe {
        let buf = libc::mmap(std::ptr::null_mut(), REQ_MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        for z in 0..NZ {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
            assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // the same descriptor numbers in every helper
                libc::dup2(a[0], 90);
                libc::dup2(b[1], 91);
                for fd in 3..90 {
                    libc::close(fd);
                }
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(z % ncpu, &mut set);
                simrt::raw(libc::SYS_sched_setaffinity, 0, std::mem::size_of_val(&set) as i64, &set as *const _ as i64, 0, 0, 0);
                let mut head = [0u32; 3];
                loop {
                    if !read_full(90, head.as_mut_ptr() as *mut u8, 12) || head[2] as usize > REQ_MAX || !read_full(90, buf, head[2] as usize) {
                        libc::_exit(0);
                    }
                    let kid = libc::fork();
                    if kid == 0 {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        libc::close(90);
                        write_full(91, &(libc::getpid() as u32).to_le_bytes());
                        let sc: Scenario = serde_json::from_slice(std::slice::from_raw_parts(buf, head[2] as usize)).unwrap();
                        child(&checks[head[0] as usize], &sc, 91, head[1] == 1);
                    }
                    let mut st = 0;
                    libc::waitpid(kid, &mut st, 0);
                    write_full(91, &u32::MAX.to_le_bytes());
                }
            }
            libc::close(a[0]);
            libc::close(b[1]);
            ZYGOTES[z] = Zygote { pid, req: a[1], res: b[0] };
        }
    }
}
static mut NAMES: Vec<&'static str> = vec![];
/// One run under way on one helper.
struct Kid {
    slot: usize,
    buf: Vec<u8>,
    t0: Instant,
    killed: bool,
}
impl Kid {
    #[allow(static_mut_refs)]
    fn start(slot: usize, check: &Check, sc: &Scenario, log: bool) -> Kid {
        let z = unsafe { ZYGOTES[slot] };
        let idx = unsafe { NAMES.iter().position(|n| *n == check.id).unwrap() } as u32;
        let js = serde_json::to_vec(sc).unwrap();
        let mut m = vec![];
        for v in [idx, log as u32, js.len() as u32] {
            m.extend_from_slice(&v.to_le_bytes());
        }
        m.extend_from_slice(&js);
        write_full(z.req, &m);
        Kid { slot, buf: vec![], t0: Instant::now(), killed: false }
    }
    fn fd(&self) -> RawFd {
        unsafe { ZYGOTES[self.slot].res }
    }
    /// pid, then a length and a result if it got that far, then the helper's end mark
    fn take(&self) -> Option<RunResult> {
        let b = &self.buf;
        let died = || RunResult { end: "died".into(), ..Default::default() };
        if b.len() < 8 {
            return None;
        }
        let w = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        if w(4) == u32::MAX {
            return Some(died());
        }
        let n = w(4) as usize;
        if b.len() >= 8 + n + 4 {
            return Some(serde_json::from_slice(&b[8..8 + n]).unwrap_or_else(|_| died()));
        }
        if self.killed && b.ends_with(&u32::MAX.to_le_bytes()) {
            return Some(died());
        }
        None
    }
    fn pump(&mut self) {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(self.fd(), b.as_mut_ptr() as *mut _, b.len()) };
        if n > 0 {
            self.buf.extend_from_slice(&b[..n as usize]);
        }
    }
    fn hung(&mut self) {
        if self.t0.elapsed().as_secs() > HANG_S {
            self.kill();
        }
    }
    fn kill(&mut self) {
        if !self.killed && self.buf.len() >= 4 {
            self.killed = true;
            let pid = u32::from_le_bytes(self.buf[..4].try_into().unwrap());
            unsafe { libc::kill(pid as i32, libc::SIGKILL) };
        }
    }
    fn wait(mut self) -> RunResult {
        loop {
            let mut pfd = libc::pollfd { fd: self.fd(), events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut pfd, 1, 500) };
            if pfd.revents != 0 {
                self.pump();
            }
            if let Some(r) = self.take() {
                return r;
            }
            self.hung();
        }
    }
}
/// One run in a child of its own.
pub fn run_one(check: &Check, sc: &Scenario, log: bool) -> RunResult {
    Kid::start(0, check, sc, log).wait()
}
/// Many runs, `jobs` at a time; `sink` sees each result and says whether to go on.
pub fn run_many(check: &Check, mut next: impl FnMut() -> Option<(u64, Scenario)>, jobs: usize, mut sink: impl FnMut(u64, Scenario, RunResult) -> bool) {
    let mut kids: Vec<Option<(Kid, u64, Scenario)>> = (0..jobs.min(NZ)).map(|_| None).collect();
    let mut open = true;
    loop {
        for (slot, k) in kids.iter_mut().enumerate() {
            if k.is_none() && open {
                match next() {
                    Some((idx, sc)) => *k = Some((Kid::start(slot, check, &sc, false), idx, sc)),
                    None => open = false,
                }
            }
        }
        let live: Vec<usize> = (0..kids.len()).filter(|i| kids[*i].is_some()).collect();
        if live.is_empty() {
            return;
        }
        let mut pf: Vec<libc::pollfd> = live.iter().map(|i| libc::pollfd { fd: kids[*i].as_ref().unwrap().0.fd(), events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for (j, i) in live.iter().enumerate() {
            let k = &mut kids[*i].as_mut().unwrap().0;
            if pf[j].revents != 0 {
                k.pump();
            }
            let Some(r) = k.take() else {
                k.hung();
                continue;
            };
            let (_, idx, sc) = kids[*i].take().unwrap();
            if !sink(idx, sc, r) {
                for k in kids.iter_mut() {
                    if let Some((mut k, _, _)) = k.take() {
                        k.kill();
                        k.wait();
                    }
                }
                return;
            }
        }
    }
}

/// Shrink while the same class of violation persists.
pub fn minimise(check: &Check, sc: &Scenario, class: &str, secs: u64) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut trials = 0u64;
    let mut seen: HashSet<String> = HashSet::new();
    let mut fails = |c: &Scenario, trials: &mut u64| -> bool {
        if t0.elapsed().as_secs() >= secs {
            return false;
        }
        if !seen.insert(serde_json::to_string(c).unwrap()) {
            return false;
        }
        *trials += 1;
        run_one(check, c, false).violation.map(|v| v.0 == class).unwrap_or(false)
    };
    loop {
        let before = best.clone();
        // the schedule: simplest policy, then the shortest random prefix
        for (policy, preempt, spurious) in [(3u8, 0u64, 0u64), (best.sched.policy, 0, 0), (best.sched.policy, best.sched.preempt, 0)] {
            let mut c = best.clone();
            c.sched.policy = policy;
            c.sched.preempt = preempt;
            c.sched.spurious = spurious;
            if c != best && fails(&c, &mut trials) {
                best = c;
                break;
            }
        }
        if best.sched.policy != 3 {
            let mut lim = best.sched.limit.min(1 << 20);
            while lim > 0 {
                lim /= 2;
                let mut c = best.clone();
                c.sched.limit = lim;
                if fails(&c, &mut trials) {
                    best = c;
                } else {
                    break;
                }
            }
        }
        // drop chunks of operations and faults
        for which in 0..2 {
            let len = if which == 0 { best.faults.len() } else { best.ops.len() };
            let mut chunk = len.max(1);
            while chunk >= 1 {
                let mut i = 0;
                while i < if which == 0 { best.faults.len() } else { best.ops.len() } {
                    let mut c = best.clone();
                    let v = if which == 0 { &mut c.faults } else { &mut c.ops };
                    let e = (i + chunk).min(v.len());
                    v.drain(i..e);
                    if fails(&c, &mut trials) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // shrink arguments and parameters
        for which in 0..2 {
            let n = if which == 0 { best.faults.len() } else { best.ops.len() };
            for i in 0..n {
                let m = if which == 0 { best.faults[i].a.len() } else { best.ops[i].a.len() };
                for j in 0..m {
                    for _ in 0..8 {
                        let mut c = best.clone();
                        let v = if which == 0 { &mut c.faults[i].a[j] } else { &mut c.ops[i].a[j] };
                        if *v == 0 {
                            break;
                        }
                        let old = *v;
                        *v = if old.abs() > 16 { old / 2 } else { old - old.signum() };
                        if fails(&c, &mut trials) {
                            best = c;
                        } else {
                            break;
                        }
                    }
                }
            }
        }
        if best == before || t0.elapsed().as_secs() >= secs {
            return (best, trials);
        }
    }
}

#[derive(Deserialize)]
struct Known {
    property: String,
    class: String,
    /// every one of these must occur in the violation's message
    contains: Vec<String>,
    what: String,
    #[serde(default)]
    status: String,
}
fn known(verif: &str, id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{verif}/known-findings.json")) else { return vec![] };
    let v: Vec<Known> = serde_json::from_str(&t).unwrap_or_default();
    v.into_iter().filter(|k| k.property == id && k.status == "known").collect()
}
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    scenario: Scenario,
    original_seed: u64,
    sched_hash: u64,
    ev_hash: u64,
    trials: u64,
    trace: Vec<String>,
}
fn json_top(m: &BTreeMap<String, u64>) -> serde_json::Value {
    serde_json::to_value(m).unwrap()
}

pub fn run_check(check: &Check, verif: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let jobs = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let (nruns, wall_s) = if thorough { (check.runs.1, check.wall.1) } else { (check.runs.0, check.wall.0) };
    let nruns = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(nruns);
    let wall_s = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(wall_s);
    println!("VERIF_SEED={seed} check={} runs<={nruns} wall<={wall_s}s jobs={jobs}", check.id);
    let t0 = Instant::now();
    let knowns = known(verif, check.id);
    let mut known_hits = vec![0u64; knowns.len()];
    let mut evals = 0u64;
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut fault_runs: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut switches, mut choices, mut preempt, mut io, mut crashes, mut sim_ns, mut checks, mut threads) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u128, 0u64, 0u64);
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut events: HashSet<(u64, u64)> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut cov: HashSet<u32> = HashSet::new();
    let mut nontrivial: HashSet<(u64, u64)> = HashSet::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut twice: HashMap<u64, (u64, u64, u64)> = HashMap::new();
    let (mut rechecked, mut diverged) = (0u64, 0u64);
    let mut bad: Option<(Scenario, RunResult)> = None;
    let mut died: Option<(u64, String)> = None;
    let mut i = 0u64;
    // Every 64th scenario runs twice, and its hashes are compared.
    let mut again: Vec<(u64, Scenario)> = vec![];
    run_many(
        check,
        || {
            if t0.elapsed().as_secs() >= wall_s {
                return None;
            }
            if let Some(x) = again.pop() {
                return Some(x);
            }
            if i >= nruns {
                return None;
            }
            let s = simrt::mix(seed ^ i.wrapping_mul(0x9E3779B97F4A7C15), check.id);
            let mut sc = (check.gen)(s, i);
            sc.check = check.id.into();
            sc.seed = s;
            if i % 64 == 5 {
                again.push((i | 1 << 62, sc.clone()));
            }
            i += 1;
            Some((i - 1, sc))
        },
        jobs,
        |idx, sc, r| {
            if r.end == "died" {
                died = Some((sc.seed, serde_json::to_string(&sc).unwrap()));
                return false;
            }
            let key = idx & !(1 << 62);
            if key % 64 == 5 {
                if let Some(h) = twice.remove(&key) {
                    rechecked += 1;
                    if h != (r.sched_hash, r.ev_hash, r.steps) {
                        diverged += 1;
                        if std::env::var_os("SIM_DEBUG").is_some() {
                            println!("diverged: seed {} {:?} {:?}", sc.seed, h, (r.sched_hash, r.ev_hash, r.steps));
                        }
                    }
                    if r.violation.is_none() {
                        return true;
                    }
                } else {
                    twice.insert(key, (r.sched_hash, r.ev_hash, r.steps));
                }
            }
            evals += 1;
            *ends.entry(r.end.clone()).or_insert(0) += 1;
            for (k, v) in &r.faults {
                *faults.entry(k.clone()).or_insert(0) += v;
                *fault_runs.entry(k.clone()).or_insert(0) += 1;
            }
            for (k, v) in &r.probes {
                *probes.entry(k.clone()).or_insert(0) += v;
            }
            steps += r.steps;
            switches += r.switches;
            choices += r.choices;
            preempt += r.preemptions;
            io += r.io_ops;
            crashes += r.crashes;
            threads += r.threads;
            sim_ns += r.sim_ns as u128;
            checks += r.checks;
            scheds.insert(r.sched_hash);
            events.insert((r.sched_hash, r.ev_hash));
            states.extend(r.states.iter());
            cov.extend(r.cov.iter());
            let injected: u64 = r.faults.values().sum::<u64>() + r.crashes;
            if r.checks > 0 && (injected > 0 || r.choices > 0) {
                nontrivial.insert((r.sched_hash, r.ev_hash));
            }
            if samples.len() < 3 && (evals == 1 || injected > 0) {
                samples.push(serde_json::json!({
                    "seed": sc.seed, "schedule": sc.sched, "params": sc.params,
                    "ops": sc.ops.iter().take(12).map(|o| format!("{}{:?}", o.k, o.a)).collect::<Vec<_>>(), "n_ops": sc.ops.len(),
                    "faults": sc.faults.iter().take(12).map(|o| format!("{}{:?}", o.k, o.a)).collect::<Vec<_>>(),
                    "fired": r.faults, "end": r.end, "steps": r.steps, "checks": r.checks, "sim_s": r.sim_ns as f64 / 1e9,
                }));
            }
            if let Some((class, msg)) = &r.violation {
                if let Some(k) = knowns.iter().position(|k| &k.class == class && k.contains.iter().all(|c| msg.contains(c.as_str()))) {
                    known_hits[k] += 1;
                    return true;
                }
                // looking around: note it and go on
                if std::env::var_os("SIM_KEEP").is_some() {
                    let path = format!("{verif}/replays/keep-{}-{}.json", check.id, sc.seed);
                    let rep = Replay { property: check.id.into(), class: class.clone(), message: msg.clone(), scenario: sc.clone(), original_seed: sc.seed, sched_hash: r.sched_hash, ev_hash: r.ev_hash, trials: 0, trace: vec![] };
                    let _ = std::fs::create_dir_all(format!("{verif}/replays"));
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
                    println!("KEEP {class} {path} {:?} {}", sc.ops.iter().map(|o| format!("{}{:?}", o.k, o.a)).filter(|o| !o.starts_with("tx")).collect::<Vec<_>>(), trunc(msg));
                    return true;
                }
                bad = Some((sc, r));
                return false;
            }
            true
        },
    );
    let explored_s = t0.elapsed().as_secs_f64();
    if let Some((s, sc)) = died {
        println!("ERROR: run with seed {s} died without a result (harness error)\n{sc}");
        return 2;
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some((sc, r)) = &bad {
        let (class, msg) = r.violation.clone().unwrap();
        println!("violation of {} found: seed={} class={} after {} runs: {}", check.id, sc.seed, class, evals, trunc(&msg));
        // It must happen again, from the scenario alone.
        let again = (0..3).any(|_| run_one(check, sc, false).violation.map(|v| v.0 == class).unwrap_or(false));
        if !again {
            println!("ERROR: seed {} does not reproduce (harness is not deterministic here)", sc.seed);
            return 2;
        }
        let (min, trials) = minimise(check, sc, &class, if thorough { 180 } else { 60 });
        let f = run_one(check, &min, true);
        let (c2, m2) = f.violation.clone().unwrap_or((class.clone(), msg.clone()));
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.json", check.id, sc.seed);
        let n = f.log.len();
        let trace: Vec<String> = if n > 2000 { f.log[n - 2000..].to_vec() } else { f.log.clone() };
        let rep = Replay { property: check.id.into(), class: c2, message: m2.clone(), scenario: min.clone(), original_seed: sc.seed, sched_hash: f.sched_hash, ev_hash: f.ev_hash, trials, trace };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("minimised: {} -> {} ops, {} -> {} faults in {} trials; {}", sc.ops.len(), min.ops.len(), sc.faults.len(), min.faults.len(), trials, trunc(&m2));
        println!("replay with: bash /verif/tools/replay.sh {path}");
        println!("VIOLATION property={} replay={}", check.id, path);
        violations = 1;
        code = 1;
    }
    for (k, n) in knowns.iter().zip(&known_hits) {
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", k.property, k.what, n);
    }
    let wall = t0.elapsed().as_secs_f64();
    let guards = unsafe { simrt::interpose::NGUARD };
    let ev = serde_json::json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial.len(),
            "rule": check.rule,
            "samples": samples,
            "simulated_runs_per_hour": (evals as f64 / explored_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (evals as f64 / explored_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (sim_ns as f64 / 1e9),
            "faults_injected": json_top(&faults),
            "runs_with_fault": json_top(&fault_runs),
            "process_crashes": crashes,
            "rare_conditions_hit": json_top(&probes),
            "oracle_evaluations": checks,
            "scheduling_steps": steps,
            "scheduling_choices": choices,
            "context_switches": switches,
            "forced_preemptions": preempt,
            "disk_operations": io,
            "threads_started": threads,
            "distinct_interleavings": scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of scheduling choices (which thread got the token, each time more than one could)",
            "distinct_event_histories": events.len(),
            "distinct_states": states.len(),
            "distinct_states_measure": "check-specific signature of the system state at quiescent points",
            "edges_covered": cov.len(),
            "edges_instrumented": guards,
            "run_ends": json_top(&ends),
            "determinism_rechecks": rechecked,
            "determinism_divergences": diverged,
            "known_finding_hits": known_hits.iter().sum::<u64>(),
            "real_code": check.real,
            "stubs": check.stub,
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{}.json", check.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs ({} distinct non-trivial), {:.0} simulated s, {} crashes, {} faults, {} interleavings, {} states, {} edges, ends {:?}, rechecked {} diverged {}, {:.1}s",
        check.id,
        evals,
        nontrivial.len(),
        sim_ns as f64 / 1e9,
        crashes,
        faults.values().sum::<u64>(),
        scheds.len(),
        states.len(),
        cov.len(),
        ends,
        rechecked,
        diverged,
        wall
    );
    if std::env::var_os("SIM_DEBUG").is_some() {
        println!("faults {faults:?}\nprobes {probes:?}");
    }
    code
}
fn trunc(s: &str) -> String {
    s.chars().take(600).collect()
}
/// Entry point of the check binaries: `<id>` | `replay <file>` | `one <id> <index>` | `list`
pub fn main(checks: &[Check]) -> i32 {
    // Addresses must not differ between runs.
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64);
            std::env::set_var("SIM_NOASLR", "1");
            std::env::set_var("MALLOC_ARENA_MAX", "1");
            let exe = std::env::current_exe().unwrap();
            let e = std::os::unix::process::CommandExt::exec(std::process::Command::new(exe).args(std::env::args_os().skip(1)));
            eprintln!("re-exec failed: {e}");
        }
    }
    unsafe { NAMES = checks.iter().map(|c| c.id).collect() };
    if std::env::var_os("SIM_TRAIL").is_some() {
        simrt::trail_on();
    }
    start_zygotes(checks);
    let verif = std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks {
                println!("{}", c.id);
            }
            0
        }
        Some("replay") => {
            let rep: Replay = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("file")).expect("json");
            let c = checks.iter().find(|c| c.id == rep.property).expect("check of this binary");
            if std::env::var_os("SIM_TRAIL").is_some() {
                return trail(c, &rep.scenario);
            }
            let r = run_one(c, &rep.scenario, std::env::var_os("SIM_NOLOG").is_none());
            for l in r.log.iter() {
                println!("{l}");
            }
            println!("end={} steps={} sched_hash={:x} ev_hash={:x} (recorded {:x} {:x})", r.end, r.steps, r.sched_hash, r.ev_hash, rep.sched_hash, rep.ev_hash);
            match r.violation {
                Some((c, m)) => {
                    println!("reproduced class={c}: {m}");
                    println!("VIOLATION property={} replay={}", rep.property, args[2]);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        Some("one") => {
            let c = checks.iter().find(|c| c.id == args[2]).expect("check");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let i: u64 = args[3].parse().unwrap();
            let s = simrt::mix(seed ^ i.wrapping_mul(0x9E3779B97F4A7C15), c.id);
            let mut sc = (c.gen)(s, i);
            sc.check = c.id.into();
            println!("{}", serde_json::to_string(&sc).unwrap());
            let r = run_one(c, &sc, true);
            for l in r.log.iter() {
                println!("{l}");
            }
            println!("end={} steps={} choices={} faults={:?} probes={:?} violation={:?}", r.end, r.steps, r.choices, r.faults, r.probes, r.violation);
            0
        }
        // again CHECK I N: one scenario N times; the first log that differs from the first run's
        Some("again") => {
            let c = checks.iter().find(|c| c.id == args[2]).unwrap();
            let i: u64 = args[3].parse().unwrap();
            let sc = (c.gen)(simrt::mix(99 ^ i * 77, c.id), i);
            let width: u64 = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(3);
            let a = run_one(c, &sc, true);
            let ta = simrt::trail_get();
            for k in 0..args[4].parse::<u64>().unwrap() {
                let b = run_one(c, &sc, true);
                if b.sched_hash != a.sched_hash {
                    let tb = simrt::trail_get();
                    let d = (0..ta.len()).find(|j| ta[*j] != tb[*j]).unwrap_or(0) as u64;
                    println!("run {k} differs at step {d}");
                    simrt::trap_set(d.saturating_sub(width), d + 1);
                    let mut seen = HashSet::new();
                    for _ in 0..100 {
                        let r = run_one(c, &sc, true);
                        if seen.insert(r.sched_hash) {
                            println!("---- {:x}", r.sched_hash);
                            r.log.iter().filter(|l| l.contains("TRAP")).for_each(|l| println!("{l}"));
                        }
                    }
                    break;
                }
            }
            0
        }
        // determinism: the same scenarios again and again, at another number of workers
        Some("determinism") => {
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
            let mut bad = 0;
            for c in checks.iter().filter(|c| args.get(2).map(|a| a == c.id || a == "all").unwrap_or(true)) {
                let mut first: HashMap<u64, (u64, u64, u64, String)> = HashMap::new();
                for (round, jobs) in [8usize, 3, 1].iter().enumerate() {
                    let mut i = 0;
                    let top = if round == 2 { n / 8 } else { n };
                    run_many(
                        c,
                        || {
                            if i >= top {
                                return None;
                            }
                            let s = simrt::mix(99 ^ i * 77, c.id);
                            i += 1;
                            Some((i - 1, (c.gen)(s, i - 1)))
                        },
                        *jobs,
                        |idx, _, r| {
                            let v = (r.sched_hash, r.ev_hash, r.steps, format!("{:?}", r.violation));
                            if round == 0 {
                                first.insert(idx, v);
                            } else if first.get(&idx) != Some(&v) {
                                bad += 1;
                                println!("{} scenario {idx} differs: {:?} {:?}", c.id, first.get(&idx), v);
                            }
                            true
                        },
                    );
                }
                println!("{}: {n} scenarios compared", c.id);
            }
            println!("divergences: {bad}");
            (bad > 0) as i32 * 2
        }
        Some(id) => match checks.iter().find(|c| c.id == id) {
            Some(c) => run_check(c, &verif),
            None => {
                eprintln!("no such check {id}");
                2
            }
        },
        None => 2,
    }
}

/// Where does a run with the log on part from one without?
fn trail(c: &Check, sc: &Scenario) -> i32 {

    let r0 = run_one(c, sc, false);
    let a = simrt::trail_get();
    let r = run_one(c, sc, true);
    let b = simrt::trail_get();
    let d = (0..a.len()).find(|i| a[*i] != b[*i]);
    println!("{:?} {} {:x}/{:x}\nfirst difference at step {d:?}", r0.violation.is_some(), r.violation.is_some(), r0.sched_hash, r.sched_hash);
    if let Some(d) = d {
        for l in r.log.iter().filter(|l| l.split("step=").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<usize>().ok()).map(|s| s + 60 > d && s < d + 60).unwrap_or(false)) {
            println!("{l}");
        }
    }
    0
}
