//! P24: configuration files are replaced whole.
use crate::base::*;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::collections::BTreeMap;
use tn_config::{ConfigFmt, ConfigTrait, NetworkConfig, Parameters};

pub const CHECK: Check = Check {
    id: "P24",
    rule: "an evaluation is one seeded history of writing and loading configuration files over several process lives with I/O faults, kills, power loss and a concurrent reader, judged after every load and at every restart; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-config traits (ConfigTrait), Parameters, NetworkConfig", "serde_yaml, serde_json"],
    stub: &["disk: simulated file system below the libc calls"],
    assumptions: &["the directory of the files exists durably before faults start", "one process writes a given file at a time"],
    gen,
    run,
    runs: (40_000, 600_000),
    wall: (20, 600),
    stuck_is_violation: true,
    max_steps: 200_000_000,
};
const SLOTS: usize = 3;

#[derive(Debug, Clone, Default, Serialize, Deserialize)]
struct Cfg {
    name: String,
    number: u64,
    list: Vec<String>,
    map: BTreeMap<String, u64>,
    params: Parameters,
    maybe: Option<NetworkConfig>,
}
struct Files;
impl ConfigTrait for Files {}

fn path(slot: usize) -> String {
    format!("/sim/a/etc/{}", ["one.yaml", "two.json", "network-config"][slot])
}
fn fmt(slot: usize) -> ConfigFmt {
    if slot == 1 {
        ConfigFmt::JSON
    } else {
        ConfigFmt::YAML
    }
}
fn value(seed: u64, size: u64) -> Cfg {
    let mut r = Rng::new(seed);
    let word = |r: &mut Rng| -> String {
        (0..1 + r.below(12)).map(|_| *r.pick(&['a', 'z', '0', ' ', ':', '#', '"', '\'', '\n', '{', '-', 'é', '\u{1F600}', '\\'])).collect()
    };
    let mut c = Cfg { name: word(&mut r), number: 1 + r.next() / 2, ..Default::default() };
    for _ in 0..r.below(size) {
        c.list.push(word(&mut r));
    }
    for _ in 0..r.below(size) {
        c.map.insert(word(&mut r), r.next());
    }
    c.params.gc_depth = r.below(1000) as u32;
    if r.chance(1, 3) {
        c.maybe = Some(NetworkConfig::default());
    }
    c
}
fn sig(c: &Cfg) -> String {
    serde_json::to_string(c).unwrap()
}
fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P24", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    for _ in 0..1 + r.below(4) {
        for _ in 0..r.below(3) {
            let f = match r.below(6) {
                5 => Op::new("io", &[8, r.below(8) as i64, r.below(2) as i64, 0, 1 + r.below(2) as i64, 0]),
                0 => gen_soft(&mut r, 20, 0),
                1 | 2 => gen_crash(&mut r, 20, 0),
                _ => gen_err(&mut r, 12, 0),
            };
            sc.ops.push(f);
        }
        for _ in 0..1 + r.below(7) {
            let slot = if r.chance(2, 3) { 0 } else { r.below(SLOTS as u64) } as i64;
            let size = if r.chance(1, 12) { 800 } else { 8 };
            let o = match r.below(7) {
                0..=2 => Op::new("write", &[slot, r.below(1 << 50) as i64, size]),
                3 => Op::new("load", &[slot]),
                4 => Op::new("default", &[slot]),
                5 => Op::new("edit", &[slot, r.below(5) as i64]),
                _ => Op::new("reader", &[slot, 1 + r.below(6) as i64]),
            };
            sc.ops.push(o);
        }
        sc.ops.push(Op::new("life", &[if r.chance(1, 2) { r.below(5) as i64 } else { -1 }]));
    }
    sc
}
/// What was written to a file, in order, and the last that was acknowledged.
#[derive(Default)]
struct Slot {
    log: Vec<String>,
    acked: Option<usize>,
}
#[derive(Default)]
struct M {
    s: [Slot; SLOTS],
}
fn begin(m: &Shared<M>, slot: usize, v: &Cfg) -> usize {
    m.with(|m| {
        m.s[slot].log.push(sig(v));
        m.s[slot].log.len() - 1
    })
}
fn ack(m: &Shared<M>, slot: usize, i: usize) {
    m.with(|m| m.s[slot].acked = m.s[slot].acked.max(Some(i)));
}
fn load(m: &Shared<M>, slot: usize, faulty: bool) {
    let (from, f0) = (m.with(|m| m.s[slot].acked), fired(""));
    let res = Files::load_from_path::<Cfg>(path(slot), fmt(slot));
    judge(m, slot, from, res.map(|c| sig(&c)).map_err(|e| format!("{e:#}")), faulty && fired("") != f0);
}
fn judge(m: &Shared<M>, slot: usize, from: Option<usize>, res: Result<String, String>, faulted: bool) {
    m.with(|m| {
        let s = &m.s[slot];
        match res {
            Ok(v) => check!(s.log[from.unwrap_or(0)..].contains(&v), "mixed_content",
                "{} reads as something other than what was last stored or being stored: {}", path(slot), &v[..v.len().min(300)]),
            Err(e) => check!(from.is_none() || faulted, "unreadable",
                "{} cannot be read, though {} writes of it were acknowledged or begun: {e}", path(slot), s.log.len()),
        }
    });
}
fn life(ops: &[Op], m: &Shared<M>) {
    let mut readers = vec![];
    for o in ops {
        let slot = o.u(0) as usize % SLOTS;
        match o.k.as_str() {
            "write" => {
                let v = value(o.u(1), o.u(2));
                let f0 = fired("");
                let i = begin(m, slot, &v);
                match Files::write_to_path(path(slot), &v, fmt(slot)) {
                    Ok(()) => ack(m, slot, i),
                    Err(e) => check!(fired("") != f0, "refused", "writing {} failed with no fault: {e:#}", path(slot)),
                }
                simrt::event(1, i as u64);
            }
            "load" => load(m, slot, true),
            "default" => {
                let (from, f0) = (m.with(|m| m.s[slot].acked), fired(""));
                let none = m.with(|m| m.s[slot].log.is_empty());
                // the file may be absent: then the default is written
                let i = from.is_none().then(|| begin(m, slot, &Cfg::default()));
                let res = Files::load_from_path_or_default::<Cfg>(path(slot), fmt(slot));
                simrt::event(2, res.is_ok() as u64);
                match (&res, i) {
                    (Ok(c), Some(i)) if none && sig(c) == sig(&Cfg::default()) => ack(m, slot, i),
                    (Err(e), Some(_)) if none => check!(fired("") != f0, "refused", "{} could not be created with no fault: {e:#}", path(slot)),
                    _ => {}
                }
                judge(m, slot, from, res.map(|c| sig(&c)).map_err(|e| format!("{e:#}")), fired("") != f0);
            }
            "edit" => {
                // an operator's slip: the file is there, but cannot be parsed
                let (p, junk) = (path(slot), ["{", "\t: [", "name: [1", "}{", "a: b: c"][o.u(1) as usize % 5]);
                let Some(good) = disk().peek(&p) else { continue };
                if !disk().faults.is_empty() || !readers.is_empty() {
                    continue;
                }
                std::fs::write(&p, junk).unwrap();
                let a = Files::load_from_path::<Cfg>(&p, fmt(slot)).is_ok();
                let b = Files::load_from_path_or_default::<Cfg>(&p, fmt(slot)).is_ok();
                check!(!a && !b, "junk_accepted", "{p} holds {junk:?} and loads ({a}, {b})");
                let now = disk().peek(&p);
                check!(now.as_deref() == Some(junk.as_bytes()), "load_changed_file", "loading {p} changed it from {junk:?} to {now:?}");
                std::fs::write(&p, good).unwrap();
                std::fs::File::open(&p).unwrap().sync_all().unwrap();
            }
            "reader" => {
                let (m, n) = (m.clone(), o.u(1));
                readers.push(std::thread::spawn(move || {
                    for _ in 0..n {
                        load(&m, slot, true);
                        simrt::sleep_ns(20_000);
                    }
                }));
            }
            _ => {}
        }
    }
    for r in readers {
        let _ = r.join();
    }
}
fn run(sc: &Scenario) {
    disk().mkvol("a");
    process("setup", FOREVER, || std::fs::create_dir_all("/sim/a/etc").unwrap());
    disk().sync_all("a");
    let m: Shared<M> = Shared::new(M::default());
    let mut rng = Rng::new(sc.seed ^ 0x24);
    let mut from = 0;
    for (k, o) in sc.ops.iter().enumerate() {
        if o.k != "life" {
            continue;
        }
        let ops: Vec<Op> = sc.ops[from..k].to_vec();
        from = k + 1;
        for f in ops.iter().filter(|f| f.k == "io") {
            arm("a", f, &[]);
        }
        let m1 = m.clone();
        process("life", FOREVER, move || life(&ops, &m1));
        disarm();
        if o.arg(0) >= 0 {
            simrt::fault("power_loss");
            disk().power_loss("a", o.u(0), &mut rng);
        }
        let m2 = m.clone();
        process("look", FOREVER, move || {
            for s in 0..SLOTS {
                load(&m2, s, false);
            }
        });
    }
    let st = m.with(|m| m.s.iter().map(|s| format!("{} {:?};", s.log.len(), s.acked)).collect::<String>());
    state(hash_str(&st));
}
