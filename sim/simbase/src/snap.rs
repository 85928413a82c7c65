//! P13: execution state snapshots.
use crate::base::*;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::collections::BTreeMap;
use tn_storage::archive::pack::{Pack, PackCompression};
use tn_storage::exec_state_pack::{ExecStateAccount, ExecStateMeta, ExecStatePackReader, ExecStatePackWriter, ExecStateStats, StateEntry, EXEC_STATE_PACK_VERSION, STORAGE_CHUNK_SLOTS};
use tn_types::{Address, Bytes, ExecHeader, GenesisAccount, B256, U256};

pub const CHECK: Check = Check {
    id: "P13",
    rule: "an evaluation is one seeded snapshot written through the real writer under I/O faults, kills and power loss, then read back through every read path, then damaged or rebuilt out of order and read again; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage exec_state_pack, archive::pack, pack_iter, data_file, crc", "tn-types codec", "alloy header RLP, zstd, crc32fast"],
    stub: &["disk: simulated file system below the libc calls", "the state walk that feeds the writer (reth) is replaced by a generated account set"],
    assumptions: &["the snapshot's directory exists before faults start, as the exporter's temporary directory does", "a damaged byte range is at most 32 bits or is detected by CRC32 with probability 1-2^-32"],
    gen,
    run,
    runs: (20_000, 300_000),
    wall: (22, 600),
    stuck_is_violation: true,
    max_steps: 200_000_000,
};
const FLAKY: &str = "under a read error";
const DIR: &str = "/sim/a/snap";
const FILE: &str = "/sim/a/snap/state_data";

/// The record layout of the pack, restated: what another implementation of the format would write.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Mirror {
    Meta(ExecStateMeta),
    Header(Vec<u8>),
    Account(MirrorAccount),
    Storage(Vec<(B256, B256)>),
    End(ExecStateStats),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MirrorAccount {
    address: Address,
    nonce: u64,
    balance: B256,
    code: Option<Bytes>,
}
fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P13", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    // block number, how many headers
    let (block, n) = match r.below(6) {
        0 => (0, 1 + r.below(2)),
        1 | 2 => {
            let b = r.below(12);
            (b, b.max(1) + r.below(2))
        }
        3 if r.chance(1, 3) => (250 + r.below(12), 262),
        _ => {
            let b = r.below(5);
            (b, b + 1)
        }
    };
    sc.set("block", block as i64);
    sc.set("headers", n as i64);
    let most = if r.chance(1, 5) { 40 } else { 8 };
    for _ in 0..r.below(most) {
        // seed, code bytes (-1 none), slots, through which calls
        let code: i64 = match r.below(5) {
            0 | 1 => -1,
            2 => 0,
            3 => 1 + r.below(200) as i64,
            _ if r.chance(1, 12) => r.below(26_000) as i64,
            _ => r.below(900) as i64,
        };
        let huge = r.chance(1, 400);
        let slots = match r.below(9 + huge as u64) {
            0..=3 => 0,
            4..=7 => 1 + r.below(12) as i64,
            8 => r.below(100) as i64,
            _ => STORAGE_CHUNK_SLOTS as i64 - 2 + r.below(5) as i64,
        };
        sc.ops.push(Op::new("acct", &[r.below(1 << 40) as i64, code, slots, r.below(3) as i64]));
    }
    if r.chance(1, 80) {
        sc.ops.push(Op::new("toolong", &[]));
    }
    if r.chance(5, 6) {
        sc.ops.push(Op::new("finish", &[]));
    }
    // what happens to the machine after the writer ended or died
    sc.set("power", if r.chance(1, 2) { r.below(5) as i64 } else { -1 });
    for _ in 0..r.below(3) {
        let f = match r.below(4) {
            0 => gen_soft(&mut r, 30, 0),
            1 | 2 => gen_crash(&mut r, 12, 0),
            _ => gen_err(&mut r, 12, 0),
        };
        sc.faults.push(f);
    }
    for _ in 0..1 + r.below(4) {
        let o = match r.below(4) {
            0 => Op::new("flip", &[r.below(1 << 40) as i64, r.below(8) as i64]),
            1 => Op::new("cut", &[r.below(1 << 40) as i64]),
            2 => Op::new("zero", &[r.below(1 << 40) as i64, 1 + r.below(700) as i64]),
            _ => Op::new("rebuild", &[if r.chance(1, 50) { 8 } else { r.below(8) as i64 }, r.below(1 << 40) as i64]),
        };
        sc.ops.push(o);
    }
    sc.ops.push(Op::new("readerr", &[r.below(30) as i64, r.below(4) as i64]));
    sc
}
fn b256(r: &mut Rng) -> B256 {
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    B256::from(b)
}
fn headers(seed: u64, block: u64, n: u64) -> Vec<ExecHeader> {
    let mut r = Rng::new(simrt::mix(seed, "headers"));
    (0..n)
        .map(|i| ExecHeader {
            number: block.saturating_sub(i),
            state_root: b256(&mut r),
            parent_hash: b256(&mut r),
            timestamp: r.next() >> 20,
            gas_used: r.below(30_000_000),
            gas_limit: 30_000_000,
            base_fee_per_gas: r.chance(1, 2).then(|| r.below(1 << 40)),
            extra_data: Bytes::from(body(r.next(), r.below(40) as usize)),
            difficulty: U256::from(r.below(1 << 20)),
            ..Default::default()
        })
        .collect()
}
type Slots = Vec<(B256, B256)>;
/// Slots in ascending order, as the exporter's cursor yields them.
fn account(o: &Op) -> (ExecStateAccount, Slots) {
    let mut r = Rng::new(o.u(0));
    let mut slots: BTreeMap<B256, B256> = BTreeMap::new();
    while (slots.len() as i64) < o.arg(2) {
        slots.insert(b256(&mut r), b256(&mut r));
    }
    let v: Slots = slots.iter().map(|(k, v)| (*k, *v)).collect();
    let address = Address::from_slice(&b256(&mut r)[..20]);
    let balance = match r.below(3) {
        0 => U256::ZERO,
        1 => U256::from(r.next()),
        _ => U256::from_be_bytes(b256(&mut r).0),
    };
    let nonce = Some(if r.chance(1, 8) { u64::MAX } else { r.below(1 << 30) });
    let code = (o.arg(1) >= 0).then(|| Bytes::from(body(r.next(), o.u(1) as usize)));
    (ExecStateAccount { address, account: GenesisAccount { nonce, balance, code, storage: (!slots.is_empty()).then_some(slots), private_key: None } }, v)
}
#[derive(Default)]
struct M {
    /// accounts whose first append began
    begun: Vec<ExecStateAccount>,
    stats: ExecStateStats,
    finish_called: bool,
    finished: bool,
    refused: bool,
}
fn write(sc: &Scenario, m: &Shared<M>) {
    let h = headers(sc.seed, sc.p("block") as u64, sc.p("headers") as u64);
    if sc.seed % 16 == 0 {
        check!(ExecStatePackWriter::create("/sim/a/other", b256(&mut Rng::new(1)), &h).is_err(), "root-accepted", "a snapshot was started under a state root its header does not carry");
    }
    let mut w = match ExecStatePackWriter::create(DIR, h[0].state_root, &h) {
        Ok(w) => w,
        Err(e) => {
            simrt::note(|| format!("create: {e}"));
            return;
        }
    };
    for o in &sc.ops {
        match o.k.as_str() {
            "acct" => {
                let (a, slots) = account(o);
                m.with(|m| {
                    m.stats.account_count += 1;
                    m.stats.storage_slots += slots.len() as u64;
                    m.stats.bytecodes += a.account.code.as_ref().is_some_and(|c| !c.is_empty()) as u64;
                    m.begun.push(a.clone())
                });
                let res = match o.u(3) {
                    0 => w.append_account(&a),
                    how => w.append_account_header(a.address, a.account.nonce.unwrap(), a.account.balance, a.account.code.clone()).and_then(|()| {
                        let n = if how == 1 { STORAGE_CHUNK_SLOTS } else { 1 + (o.u(0) % 9) as usize };
                        if o.u(0) % 5 == 0 {
                            w.append_storage_chunk(&[])?;
                        }
                        for c in slots.chunks(n) {
                            if o.u(0) % 2 == 0 {
                                w.append_storage_chunk(c)?;
                            } else {
                                w.append_storage_chunk_owned(c.to_vec())?;
                            }
                        }
                        Ok(())
                    }),
                };
                if let Err(e) = res {
                    simrt::note(|| format!("append: {e}"));
                    m.with(|m| m.refused = true);
                    // the exporter gives up at the first error; a stubborn one must not succeed either
                    if o.u(0) % 3 != 0 {
                        return;
                    }
                }
            }
            "toolong" => {
                let big = vec![(B256::ZERO, B256::ZERO); STORAGE_CHUNK_SLOTS + 1];
                check!(w.append_storage_chunk_owned(big).is_err(), "oversize-accepted", "a storage chunk above the bound was written");
            }
            "finish" => {
                m.with(|m| m.finish_called = true);
                match w.finish() {
                    Ok(s) => {
                        m.with(|m| {
                            check!(!m.refused, "finished-after-error", "finish succeeded although an append had failed");
                            check!(s == m.stats, "stats", "finish returned {s:?}, written {:?}", m.stats);
                            m.finished = true
                        });
                    }
                    Err(e) => simrt::note(|| format!("finish: {e}")),
                }
                return;
            }
            _ => {}
        }
    }
}
#[derive(PartialEq, Debug, Default)]
struct Seen {
    headers: Vec<ExecHeader>,
    accounts: Vec<ExecStateAccount>,
    err: Option<String>,
}
/// How a whole pack reads through one of the streaming paths.
fn stream(path: u64, dir: &str) -> Seen {
    let mut s = Seen::default();
    let mut rd = match ExecStatePackReader::open(dir) {
        Ok(r) => r,
        Err(e) => {
            s.err = Some(format!("open: {e}"));
            return s;
        }
    };
    s.headers = rd.headers().to_vec();
    check!(rd.snapshot_header() == &s.headers[0] && rd.meta().header_count as usize == s.headers.len(), "headers", "the reader's header views disagree");
    if path < 2 {
        loop {
            let x = if path == 0 { rd.next_account() } else { rd.accounts().next() };
            match x {
                None => break,
                Some(Ok(a)) => s.accounts.push(a),
                Some(Err(e)) => {
                    s.err = Some(e.to_string());
                    break;
                }
            }
        }
        if s.err.is_none() {
            check!(rd.next_account().is_none(), "restarts", "the account stream goes on after its end");
        }
        return s;
    }
    loop {
        match rd.next_entry() {
            None => break,
            Some(Ok(StateEntry::Account(a))) => s.accounts.push(ExecStateAccount { address: a.address, account: GenesisAccount { nonce: Some(a.nonce), balance: a.balance, code: a.code, storage: None, private_key: None } }),
            Some(Ok(StateEntry::Storage(v))) => {
                check!(v.len() <= STORAGE_CHUNK_SLOTS, "oversize-read", "a chunk of {} slots was handed out", v.len());
                match s.accounts.last_mut() {
                    Some(a) => a.account.storage.get_or_insert_with(Default::default).extend(v),
                    // the chunked stream leaves this to its consumer
                    None => {
                        s.err = Some("storage before any account".into());
                        break;
                    }
                }
            }
            Some(Err(e)) => {
                s.err = Some(e.to_string());
                break;
            }
        }
    }
    s
}
/// The whole file against what was written: a clean read must be exactly that; an aborted one a prefix.
fn judge(want_h: &[ExecHeader], begun: &[ExecStateAccount], may_be_whole: bool, must: bool, what: &str) {
    let v = ExecStatePackReader::verify(DIR);
    simrt::note(|| format!("{what}: verify {v:?}"));
    if must {
        check!(v.is_ok(), "finished-unreadable", "{what}: verify of a finished snapshot says {:?}", v);
    }
    if let Ok(rep) = &v {
        check!(may_be_whole, "unfinished-accepted", "{what}: verify accepts a snapshot that was never finished");
        let slots: u64 = begun.iter().map(|a| a.account.storage.as_ref().map_or(0, |s| s.len()) as u64).sum();
        let codes = begun.iter().filter(|a| a.account.code.as_ref().is_some_and(|c| !c.is_empty())).count() as u64;
        check!(
            (rep.header_count as usize, rep.account_count, rep.storage_slots, rep.bytecodes) == (want_h.len(), begun.len() as u64, slots, codes),
            "report",
            "{what}: verify reports {rep:?}; written: {} headers, {} accounts, {slots} slots, {codes} codes",
            want_h.len(),
            begun.len()
        );
    }
    for p in 0..3 {
        let s = stream(p, DIR);
        // a read error can hit one walk and not the other
        if v.is_ok() && what != FLAKY {
            check!(s.err.is_none(), "verified-unreadable", "{what}: verify accepts the snapshot but reading it (path {p}) fails: {:?}", s.err);
        }
        if s.err.is_none() {
            check!(may_be_whole, "unfinished-accepted", "{what}: an unfinished snapshot reads to a clean end (path {p})");
            check!(s.accounts.len() == begun.len(), "incomplete", "{what}: path {p} gives {} of {} accounts and a clean end", s.accounts.len(), begun.len());
        }
        if !s.headers.is_empty() {
            check!(s.headers == want_h, "headers", "{what}: path {p} gives other headers than were written");
        }
        for (i, a) in s.accounts.iter().enumerate() {
            let w = begun.get(i);
            // the chunked stream can stop inside an account
            let cut = p == 2 && s.err.is_some() && i + 1 == s.accounts.len();
            let same = w.is_some_and(|w| if cut { a.address == w.address && a.account.balance == w.account.balance && a.account.nonce == w.account.nonce && a.account.code == w.account.code && a.account.storage.iter().flatten().all(|(k, x)| w.account.storage.as_ref().is_some_and(|s| s.get(k) == Some(x))) } else { a == w });
            check!(same, "changed", "{what}: path {p} gives account {i} differently from what was written");
        }
    }
}
fn poke(data: &[u8]) {
    let d = disk();
    d.poke(FILE, |f| *f = data.to_vec());
}
/// Records as another writer could lay them out, correct or not.
fn rebuild(kind: u64, seed: u64, h: &[ExecHeader], accts: &[ExecStateAccount]) {
    let mut h = h.to_vec();
    let mut r = Rng::new(seed);
    let enc = |h: &ExecHeader| {
        let mut b = vec![];
        alloy_rlp::Encodable::encode(h, &mut b);
        b
    };
    let mut meta = ExecStateMeta { state_root: h[0].state_root, block_number: h[0].number, block_hash: h[0].hash_slow(), header_count: h.len() as u32 };
    let mut recs = vec![];
    let mut stats = ExecStateStats::default();
    for a in accts {
        stats.account_count += 1;
        stats.bytecodes += a.account.code.as_ref().is_some_and(|c| !c.is_empty()) as u64;
        recs.push(Mirror::Account(MirrorAccount { address: a.address, nonce: a.account.nonce.unwrap(), balance: B256::from(a.account.balance.to_be_bytes::<32>()), code: a.account.code.clone() }));
        if let Some(s) = &a.account.storage {
            stats.storage_slots += s.len() as u64;
            let v: Slots = s.iter().map(|(k, v)| (*k, *v)).collect();
            for c in v.chunks(STORAGE_CHUNK_SLOTS) {
                recs.push(Mirror::Storage(c.to_vec()));
            }
        }
    }
    // must verify refuse it?
    let mut bad = true;
    let mut end = true;
    let first = Mirror::Header(enc(&h[0]));
    match kind {
        0 => {
            bad = false;
        }
        1 => {
            if r.chance(1, 2) {
                stats.account_count += 1
            } else {
                stats.account_count = stats.account_count.wrapping_sub(1)
            }
        }
        2 => end = false,
        3 => {
            // storage that belongs to no account
            recs.insert(0, Mirror::Storage(vec![(b256(&mut r), b256(&mut r))]));
        }
        4 => match r.below(4) {
            0 => meta.state_root = b256(&mut r),
            1 => meta.block_hash = b256(&mut r),
            2 => meta.block_number = if meta.block_number == 0 { 1 } else { meta.block_number - 1 },
            _ => meta.header_count += 1,
        },
        5 if r.chance(1, 3) && h.len() < 256 => {
            // fewer headers than the look-back needs
            h[0].number = h.len() as u64 + 1 + r.below(3) * 1000;
            meta.block_number = h[0].number;
            meta.block_hash = h[0].hash_slow();
        }
        5 => meta.header_count = *r.pick(&[0, u32::MAX, 4097, 1 << 30]),
        6 => {
            let at = r.below(recs.len() as u64 + 1) as usize;
            recs.insert(at, if r.chance(1, 2) { first } else { Mirror::Meta(meta.clone()) });
        }
        7 => {
            let i = r.below(recs.len() as u64 + 1) as usize;
            if i == 0 || recs.is_empty() {
                bad = false;
            } else {
                recs.truncate(recs.len() - i);
                let left = recs.iter().filter(|x| matches!(x, Mirror::Account(_))).count() as u64;
                bad = left != stats.account_count;
            }
        }
        _ => {
            let ok = !recs.is_empty();
            recs.insert(ok as usize, Mirror::Storage(vec![(B256::ZERO, B256::ZERO); STORAGE_CHUNK_SLOTS + 1]));
        }
    }
    if kind == 5 || (kind == 4 && meta.header_count as usize > h.len()) {
        bad = true;
    }
    let hs: Vec<Mirror> = h.iter().map(|h| Mirror::Header(enc(h))).collect();
    let all = std::iter::once(Mirror::Meta(meta.clone())).chain(hs).chain(recs).chain(end.then_some(Mirror::End(stats)));
    let mut p: Pack<Mirror> = Pack::open("/sim/a/made/state_data", 0, false, PackCompression::ZStd, EXEC_STATE_PACK_VERSION).expect("make");
    for x in all {
        p.append(&x).expect("make");
    }
    p.commit().expect("make");
    drop(p);
    let v = ExecStatePackReader::verify("/sim/a/made");
    simrt::note(|| format!("rebuilt kind {kind}: {v:?}"));
    if bad {
        check!(v.is_err(), "malformed-accepted", "verify accepts a malformed snapshot (kind {kind}): {v:?}");
    } else {
        check!(kind != 0 || v.is_ok(), "wellformed-refused", "verify refuses a snapshot laid out as documented: {v:?}");
    }
    for path in 0..3 {
        let s = stream(path, "/sim/a/made");
        if v.is_ok() {
            check!(s.err.is_none(), "verified-unreadable", "verify accepts the rebuilt snapshot (kind {kind}) but path {path} fails: {:?}", s.err);
            check!(v.as_ref().unwrap().account_count == s.accounts.len() as u64, "report", "verify counts {:?}, path {path} reads {}", v, s.accounts.len());
        }
        if kind == 2 || kind == 8 || kind == 5 || kind == 6 {
            check!(s.err.is_some(), "malformed-accepted", "path {path} reads a malformed snapshot (kind {kind}) to a clean end");
        }
    }
    simrt::probe(["made_wellformed", "made_count", "made_no_footer", "made_orphan_storage", "made_meta", "made_header_count", "made_misplaced", "made_truncated", "made_oversize"][kind as usize % 9]);
}
fn run(sc: &Scenario) {
    disk().mkvol("a");
    process("dirs", FOREVER, || {
        for d in [DIR, "/sim/a/made", "/sim/a/other"] {
            std::fs::create_dir_all(d).expect("dir");
        }
    });
    disk().sync_all("a");
    for f in &sc.faults {
        arm("a", f, &[]);
    }
    let m = Shared::new(M::default());
    let (s2, m2) = (sc.clone(), m.clone());
    process("writer", FOREVER, move || write(&s2, &m2));
    disarm();
    let mut r = Rng::new(simrt::mix(sc.seed, "power"));
    if sc.p("power") >= 0 {
        disk().power_loss("a", sc.p("power") as u64, &mut r);
    }
    let h = headers(sc.seed, sc.p("block") as u64, sc.p("headers") as u64);
    let (begun, called, finished) = m.with(|m| (m.begun.clone(), m.finish_called, m.finished));
    if !sc.ops.iter().any(|o| o.k == "acct") || finished {
        simrt::probe("finished");
    }
    {
        let (h, begun) = (h.clone(), begun.clone());
        process("reader", FOREVER, move || judge(&h, &begun, called, finished, "after the writer"));
    }
    state(hash_str(&format!("{:?}", (begun.len(), called, finished))));
    let good = disk().peek(FILE).unwrap_or_default();
    for o in &sc.ops {
        let (h, begun, good, o) = (h.clone(), begun.clone(), good.clone(), o.clone());
        match o.k.as_str() {
            "flip" | "cut" | "zero" if !good.is_empty() => {
                process("damage", FOREVER, move || {
                    let mut d = good.clone();
                    let at = (o.u(0) % d.len() as u64) as usize;
                    match o.k.as_str() {
                        "flip" => d[at] ^= 1 << o.u(1),
                        "cut" => d.truncate(at),
                        _ => {
                            let e = (at + o.u(1) as usize).min(d.len());
                            d[at..e].fill(0);
                        }
                    }
                    let same = d == good;
                    poke(&d);
                    judge(&h, &begun, called, finished && same, &format!("after {} at {at} of {}", o.k, good.len()));
                    poke(&good);
                });
            }
            "rebuild" => {
                process("made", FOREVER, move || {
                    let _ = std::fs::remove_file("/sim/a/made/state_data");
                    let n = begun.len().min(8);
                    rebuild(o.u(0), o.u(1), &h, &begun[..n])
                });
            }
            "readerr" if finished => {
                let f = Op::new("io", &[[2, 2, 3, 7][o.u(1) as usize], o.arg(0), if o.u(1) == 1 { 2 } else { 0 }, 3, 1, 0]);
                arm("a", &f, &[]);
                process("readerr", FOREVER, move || judge(&h, &begun, true, false, FLAKY));
                disarm();
            }
            _ => {}
        }
    }
}
