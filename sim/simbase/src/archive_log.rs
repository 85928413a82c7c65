//! P07: the append-only record log.
use crate::base::*;
use serde::{Deserialize, Serialize};
use simcore::*;
use tn_storage::archive::error::fetch::FetchError;
use tn_storage::archive::pack::{Pack, PackCompression};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub idx: u64,
    pub body: Vec<u8>,
}
pub const CHECK: Check = Check {
    id: "P07",
    rule: "an evaluation is one seeded history of appends, flushes, commits, reads, truncations, reopenings, I/O faults, process kills and power losses against one record log; it is non-trivial if at least one oracle comparison ran and at least one fault or scheduling choice occurred; distinct by schedule and I/O event hashes",
    real: &["tn-storage archive::pack, pack_iter, data_file, crc", "tn-types codec", "zstd, crc32fast"],
    stub: &["disk: simulated file system below the libc calls"],
    assumptions: &["fsync makes the file's contents and all earlier directory operations of the volume durable", "a process kill loses nothing already handed to the kernel", "sectors of 512 bytes are written atomically or not at all on power loss, in any order"],
    gen,
    run,
    runs: (30_000, 400_000),
    wall: (25, 600),
    stuck_is_violation: true,
    max_steps: 3_000_000,
};
fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P07", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("zstd", r.below(2) as i64);
    let n = 5 + r.below(60);
    let big = r.chance(1, 3);
    for _ in 0..n {
        let o = match r.below(20) {
            0..=9 => {
                let len = match r.below(8) {
                    0 => 0,
                    1 => 16384 - 40 + r.below(60) as i64,
                    2 if big => 30_000 + r.below(40_000) as i64,
                    3 => 4000 + r.below(9000) as i64,
                    _ => r.below(300) as i64,
                };
                Op::new("append", &[len, r.below(1 << 30) as i64])
            }
            10 | 11 => Op::new("commit", &[]),
            12 => Op::new("flush", &[]),
            13..=15 => Op::new("read", &[r.below(1 << 20) as i64]),
            16 => Op::new("iter", &[]),
            17 => Op::new("reopen", &[]),
            18 if r.chance(1, 3) => Op::new("truncate", &[r.below(1 << 20) as i64]),
            18 => Op::new("bytes", &[r.below(1 << 20) as i64, r.below(1 << 20) as i64]),
            _ => Op::new("crash", &[if r.chance(1, 3) { -1 } else { r.below(5) as i64 }]),
        };
        sc.ops.push(o);
    }
    for _ in 0..r.below(4) {
        let f = match r.below(4) {
            0 => gen_soft(&mut r, 40, 0),
            1 | 2 => gen_crash(&mut r, 40, 0),
            _ => gen_err(&mut r, 30, 0),
        };
        sc.faults.push(f);
    }
    sc
}
#[derive(Default)]
struct M {
    recs: Vec<(u64, Rec)>,
    /// how many records a successful commit covered
    durable: usize,
    op: usize,
    next_idx: u64,
    poisoned: bool,
    ever: bool,
    clean: bool,
}
const PATH: &str = "/sim/a/data";
fn open(z: bool) -> Result<Pack<Rec>, String> {
    Pack::open(PATH, 3, false, if z { PackCompression::ZStd } else { PackCompression::None }, 2).map_err(|e| format!("{e}"))
}
/// What every user of the log does after a crash: walk it, cut it after the last good record.
fn recover(p: &mut Pack<Rec>, m: &Shared<M>) -> Result<(), String> {
    let mut good = vec![];
    let mut end = 28u64;
    let mut it = p.raw_iter().map_err(|e| format!("raw_iter: {e}"))?;
    let mut damaged = false;
    loop {
        match it.next() {
            None => break,
            Some(Ok(v)) => {
                good.push((end, v));
                end = it.position().map_err(|e| e.to_string())?;
            }
            Some(Err(FetchError::IO(e))) if e.kind() != std::io::ErrorKind::UnexpectedEof => return Err(format!("read error: {e}")),
            Some(Err(_)) => {
                damaged = true;
                break;
            }
        }
    }
    m.with(|m| {
        simrt::note(|| format!("recovered {} records, end {end}, file {}, durable {}, appended {}", good.len(), p.file_len(), m.durable, m.recs.len()));
        check!(good.len() >= m.durable, "committed-lost", "{} records were committed but only {} survive the crash (damaged tail: {damaged})", m.durable, good.len());
        check!(good.len() <= m.recs.len(), "phantom", "{} records appended, {} found", m.recs.len(), good.len());
        for (i, g) in good.iter().enumerate() {
            check!(*g == m.recs[i], "changed", "record {i} at {} differs after the crash (found at {} idx {})", m.recs[i].0, g.0, g.1.idx);
        }
        m.recs.truncate(good.len());
    });
    if end < p.file_len() {
        p.truncate(end).map_err(|e| format!("truncate: {e}"))?;
        // A cut is as durable as anything else: with the next commit.
        p.commit().map_err(|e| format!("commit of the cut: {e}"))?;
        simrt::probe("healed_tail");
    }
    check!(p.file_len() == end, "length", "file_len {} after cutting at {end}", p.file_len());
    Ok(())
}
fn body_fn(sc: Scenario, m: Shared<M>) {
    let z = sc.p("zstd") == 1;
    // the faults are armed: opening may fail
    let mut p = match open(z) {
        Ok(p) => p,
        Err(e) => {
            simrt::note(|| format!("open failed: {e}"));
            return;
        }
    };
    if let Err(e) = recover(&mut p, &m) {
        simrt::note(|| format!("recover failed: {e}"));
        return;
    }
    m.with(|m| m.ever = true);
    let mut poisoned = false;
    let mut soft = false;
    loop {
        let i = m.with(|m| m.op);
        let Some(o) = sc.ops.get(i) else { break };
        m.with(|m| m.op += 1);
        simrt::note(|| format!("op {} {:?}", o.k, o.a));
        match o.k.as_str() {
            "append" => {
                let rec = m.with(|m| {
                    m.next_idx += 1;
                    Rec { idx: m.next_idx, body: body(o.u(1), o.u(0) as usize) }
                });
                let want = p.file_len();
                // it may be on disk from now on
                m.with(|m| m.recs.push((want, rec.clone())));
                match p.append(&rec) {
                    Ok(pos) => {
                        check!(!poisoned, "append-after-failure", "append succeeded after an earlier append had failed to reach the file");
                        check!(soft || pos == want, "position", "append returned {pos}, the log ended at {want}");
                    }
                    Err(e) => {
                        simrt::note(|| format!("append failed: {e}"));
                        poisoned = true;
                    }
                }
            }
            "commit" => {
                let r = p.commit();
                if let Err(e) = &r {
                    simrt::note(|| format!("commit failed: {e}"));
                    soft = true;
                } else {
                    check!(!poisoned, "commit-after-failure", "commit reports success although an append to this log failed to reach the file");
                    m.with(|m| m.durable = m.recs.len());
                    simrt::event(8, i as u64);
                }
            }
            "flush" => {
                if p.flush().is_err() {
                    soft = true;
                }
            }
            "read" if !poisoned && !soft => {
                let n = m.with(|m| m.recs.len());
                if n > 0 {
                    let k = (o.u(0) % n as u64) as usize;
                    let (pos, want) = m.with(|m| m.recs[k].clone());
                    match p.fetch(pos) {
                        Ok(v) => check!(v == want, "wrong-read", "fetch({pos}) returned record {} instead of {}", v.idx, want.idx),
                        Err(e) => {
                            let armed = disk().faults.iter().any(|f| matches!(f.class, 'r' | '*') && f.hit > f.nth);
                            check!(armed, "unreadable", "fetch({pos}) of record {k} of {n} failed: {e}");
                        }
                    }
                    if let Ok(sz) = p.record_size(pos) {
                        let next = m.with(|m| m.recs.get(k + 1).map(|r| r.0)).unwrap_or(p.file_len());
                        check!(pos + sz as u64 == next, "size", "record_size({pos}) = {sz}, next record at {next}");
                    }
                }
            }
            "bytes" if !poisoned && !soft => {
                let len = p.file_len();
                let (a, b) = (o.u(0) % (len + 8), o.u(1) % (len + 8));
                match p.read_bytes(a, b) {
                    Ok(v) => {
                        check!(a <= b && b <= len && v.len() as u64 == b - a, "bytes", "read_bytes({a},{b}) of {len} gave {} bytes", v.len());
                        if p.flush().is_ok() {
                            let f = disk().peek(PATH).unwrap_or_default();
                            check!(f[a as usize..b as usize] == v[..], "bytes", "read_bytes({a},{b}) differs from the file");
                        } else {
                            soft = true;
                        }
                    }
                    Err(_) => {
                        let armed = disk().faults.iter().any(|f| matches!(f.class, 'r' | '*') && f.hit > f.nth);
                        check!(a > b || b > len || armed, "bytes", "read_bytes({a},{b}) of {len} refused");
                    }
                }
            }
            "iter" if !poisoned && !soft => {
                if p.flush().is_err() {
                    soft = true;
                    continue;
                }
                let want: Vec<Rec> = m.with(|m| m.recs.iter().map(|r| r.1.clone()).collect());
                if let Ok(it) = p.raw_iter() {
                    let mut n = 0;
                    for r in it {
                        match r {
                            Ok(v) => {
                                check!(want.get(n) == Some(&v), "iter", "iteration item {n} is record {}", v.idx);
                                n += 1;
                            }
                            Err(_) => {
                                let armed = disk().faults.iter().any(|f| matches!(f.class, 'r' | '*') && f.hit > f.nth);
                                check!(armed, "iter", "iteration fails at item {n} of {}", want.len());
                                n = usize::MAX;
                                break;
                            }
                        }
                    }
                    check!(n == usize::MAX || n == want.len(), "iter", "iteration gave {n} of {} records", want.len());
                }
            }
            "truncate" if !poisoned && !soft => {
                let n = m.with(|m| m.recs.len());
                if n > 0 {
                    let k = (o.u(0) % n as u64) as usize;
                    let pos = m.with(|m| m.recs[k].0);
                    // Cutting gives up on what follows, whether or not the process survives doing it.
                    m.with(|m| m.durable = m.durable.min(k));
                    if p.truncate(pos).is_err() {
                        return;
                    }
                    check!(p.file_len() == pos, "length", "file_len {} after truncate({pos})", p.file_len());
                    // Until the next commit the cut may be undone by a power loss.
                    if p.commit().is_err() {
                        return;
                    }
                    m.with(|m| {
                        m.recs.truncate(k);
                        m.durable = k
                    });
                }
            }
            "reopen" => {
                let ok = p.commit().is_ok();
                if ok {
                    check!(!poisoned, "commit-after-failure", "commit reports success although an append to this log failed to reach the file");
                    m.with(|m| m.durable = m.recs.len());
                }
                return;
            }
            "crash" => {
                m.with(|m| m.clean = false);
                let g = simrt::my_group();
                m.with(|m| m.poisoned = o.arg(0) >= 0);
                simrt::sim().groups[g as usize].crashed_at = format!("power{}", o.arg(0));
                simrt::kill_group(g);
            }
            _ => {}
        }
    }
    m.with(|m| m.clean = true);
}
fn run(sc: &Scenario) {
    disk().mkvol("a");
    let mut r = Rng::new(simrt::mix(sc.seed, "power"));
    let m = Shared::new(M::default());
    // The log exists when the history starts: creation under faults is covered by the chain store's check.
    {
        let z = sc.p("zstd") == 1;
        process("create", FOREVER, move || drop(open(z)));
        disk().sync_all("a");
    }
    for f in &sc.faults {
        arm("a", f, &[]);
    }
    let mut rounds = 0;
    while m.with(|m| m.op) < sc.ops.len() && rounds < 80 {
        rounds += 1;
        let (s2, m2) = (sc.clone(), m.clone());
        let g = simrt::spawn_group("node", move || body_fn(s2, m2));
        let done = simrt::wait_group(g, FOREVER);
        let panics = simrt::sim().groups[g as usize].panics.clone();
        if let Some(p) = panics.first() {
            violate("panic", p.clone());
        }
        let at = simrt::sim().groups[g as usize].crashed_at.clone();
        simrt::kill_group(g);
        if !done {
            let mode = at.strip_prefix("power").and_then(|x| x.parse::<i64>().ok()).unwrap_or(if r.chance(1, 2) { r.below(5) as i64 } else { -1 });
            if mode >= 0 {
                disk().power_loss("a", mode as u64, &mut r);
            }
            if mode < 0 {
                // nothing can tell pages dropped by a failed fsync from clean ones after a restart
                disk().sync_all("a");
            }
            simrt::probe("crashed");
        }
        state(hash_str(&format!("{:?}", m.with(|m| (m.recs.len(), m.durable, m.op)))));
        if done {
            disk().sync_all("a");
        }
        if done && rounds > 40 {
            disarm();
        }
    }
    // Faults over: the log must open and hold everything committed.
    disarm();
    let (z, m2) = (sc.p("zstd") == 1, m.clone());
    process("final", FOREVER, move || {
        let mut p = match open(z) {
            Ok(p) => p,
            Err(e) => violate("unopenable", format!("the log cannot be opened after the faults stopped: {e}")),
        };
        if let Err(e) = recover(&mut p, &m2) {
            violate("unrecoverable", e);
        }
        let rec = Rec { idx: u64::MAX, body: vec![1, 2, 3] };
        let pos = match p.append(&rec).map_err(|e| e.to_string()).and_then(|pos| p.commit().map(|_| pos).map_err(|e| e.to_string())) {
            Ok(pos) => pos,
            Err(e) => violate("not-writable", e),
        };
        check!(p.fetch(pos).ok() == Some(rec), "wrong-read", "record appended after recovery reads back differently");
    });
}
