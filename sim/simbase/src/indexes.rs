//! P08: the digest index and the position index of the archive.
use crate::base::*;
use simcore::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use tn_storage::archive::digest_index::index::HdxIndex;
use tn_storage::archive::error::fetch::FetchError;
use tn_storage::archive::fxhasher::FxHasher;
use tn_storage::archive::index::Index;
use tn_storage::archive::pack::{DataHeader, Pack, PackCompression};
use tn_storage::archive::position_index::index::{PositionIndex, PosIndexValue};
use tn_types::B256;

pub const CHECK: Check = Check {
    id: "P08",
    rule: "an evaluation is one seeded history of saves, lookups, syncs, reopenings, cuts, I/O faults, process kills and power losses against one digest index or one position index; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage archive::digest_index (index, bucket_iter, odx_header, bloom), position_index, data_file, fxhasher, crc"],
    stub: &["disk: simulated file system below the libc calls"],
    assumptions: &["fsync makes the file's contents durable unless it fails, after which unsynced pages may be gone", "a process kill loses nothing already handed to the kernel", "an index is not crash-atomic within a sync: what its owner does about that is another property"],
    gen,
    run,
    runs: (30_000, 400_000),
    wall: (25, 600),
    stuck_is_violation: true,
    max_steps: 60_000_000,
};
fn gen(seed: u64, i: u64) -> Scenario {
    let mut sc = Scenario::new("P08", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    let kind = if i % 3 == 0 { 1 } else { 0 };
    sc.set("kind", kind); // 0 digest index, 1 position index
    sc.set("fx", r.below(2) as i64);
    if kind == 0 && r.chance(1, 8) {
        sc.set("prefill", *r.pick(&[15_960i64, 15_995, 16_370]));
    }
    sc.set("buckets", 1 + r.below(4) as i64);
    sc.set("width", r.below(3) as i64);
    let n = 4 + r.below(36);
    for _ in 0..n {
        let o = match r.below(16) {
            // count, key selector (below the keys in use: overwrite), seed
            0..=5 => Op::new("save", &[1 + if r.chance(1, 4) { r.below(if kind == 1 { 900 } else { 70 }) } else { r.below(6) } as i64, r.below(4) as i64, r.below(1 << 30) as i64]),
            6..=8 => Op::new("load", &[1 + r.below(20) as i64, r.below(1 << 30) as i64]),
            9 => Op::new("absent", &[r.below(1 << 30) as i64]),
            10 => Op::new("sync", &[]),
            11 => Op::new("reopen", &[r.below(2) as i64]),
            12 => Op::new("all", &[]),
            13 => Op::new("len", &[r.below(1 << 40) as i64]),
            14 if kind == 1 => Op::new("cut", &[r.below(1 << 30) as i64]),
            14 => Op::new("ro", &[]),
            _ => Op::new("crash", &[if r.chance(1, 3) { -1 } else { r.below(5) as i64 }]),
        };
        sc.ops.push(o);
    }
    for _ in 0..r.below(4) {
        let f = match r.below(5) {
            0 => gen_soft(&mut r, 30, 3),
            1 => gen_crash(&mut r, 30, 3),
            2 => {
                let mut f = gen_err(&mut r, 10, 3);
                f.a[0] = 2;
                f
            }
            _ => gen_err(&mut r, 20, 3),
        };
        sc.faults.push(f);
    }
    sc
}
const PATHS: &[&str] = &["index.hdx", "index.odx", "index_pos.pdx"];

/// A stable hasher whose bucket a key can choose: the key's last eight bytes.
#[derive(Default)]
pub struct Tail(u64);
impl Hasher for Tail {
    fn write(&mut self, b: &[u8]) {
        // A slice's hash begins with its length: let only the key itself decide.
        if b.len() >= 32 {
            self.0 = u64::from_le_bytes(b[b.len() - 8..].try_into().unwrap());
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i.wrapping_mul(0x9e37_79b9_7f4a_7c15)
    }
    fn write_usize(&mut self, _: usize) {}
    fn finish(&self) -> u64 {
        self.0
    }
}
/// Key number `n` of the run: its hash falls into one of a few buckets, so they overflow and split.
fn key(fx: bool, buckets: u64, n: u64) -> B256 {
    let targets = [488u64, 1000, 7, 489, 1001];
    let mut r = Rng::new(n.wrapping_mul(0x1234_5677) ^ 99);
    let t = targets[(n % buckets.clamp(1, 5)) as usize];
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    if !fx {
        let low = u64::from_le_bytes(b[24..].try_into().unwrap());
        let w = (low & !2047) | t | if low & 1024 != 0 && t < 1000 { 1024 } else { 0 };
        b[24..].copy_from_slice(&w.to_le_bytes());
        return B256::from(b);
    }
    let h = BuildHasherDefault::<FxHasher>::default();
    loop {
        if h.hash_one(&b[..]) % 1024 == t {
            return B256::from(b);
        }
        b[..8].copy_from_slice(&r.next().to_le_bytes());
    }
}
fn filler(n: u64) -> B256 {
    let mut r = Rng::new(n ^ 0xf111_0000_0000);
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    b[0] = 0xf1;
    B256::from(b)
}
/// What a key may map to.
#[derive(Clone, Debug, Default)]
struct K {
    may: Vec<Option<u64>>,
    hist: Vec<u64>,
}
#[derive(Default)]
struct M {
    keys: BTreeMap<u64, K>,
    durable: Option<BTreeMap<u64, K>>,
    filled: u64,
    len: u64,
    /// position index
    vals: Vec<u64>,
    durable_len: usize,
    /// a failed save: one more value may be there
    extra: Option<u64>,
    /// something reached, or may have reached, the file since the last complete sync
    writing: bool,
    lost_dirty: bool,
    data_len: Option<u64>,
    op: usize,
    pos: u64,
}
/// Whether a fault hit the handle in use (it counts from when it was opened).
fn read_faulted() -> bool {
    fired("r*n") > BASE_R.load(Relaxed)
}
fn any_faulted() -> bool {
    fired("") > BASE.load(Relaxed)
}
fn base() {
    BASE_R.store(fired("r*n"), Relaxed);
    BASE.store(fired(""), Relaxed);
}
static BASE: AtomicU64 = AtomicU64::new(0);
static BASE_R: AtomicU64 = AtomicU64::new(0);
const DIR: &str = "/sim/a/hash";
type FxB = BuildHasherDefault<FxHasher>;
type TailB = BuildHasherDefault<Tail>;

fn check_load<S: BuildHasher + Default>(ix: &mut HdxIndex<32, S>, k: u64, d: B256, m: &Shared<M>) {
    let got = ix.load(d);
    let want = m.with(|m| m.keys.get(&k).cloned());
    match (got, want) {
        (Ok(p), Some(w)) => {
            if !w.may.contains(&Some(p)) {
                let class = if w.hist.contains(&p) { "stale" } else { "wrong" };
                violate(class, format!("key {k} maps to {p}, allowed are {:?}", w.may));
            }
            check!(true, "ok", "");
        }
        (Ok(p), None) => violate("phantom", format!("key {k} was never saved and maps to {p}")),
        (Err(FetchError::NotFound), Some(w)) => check!(w.may.contains(&None), "lost", "key {k} is not found; it was saved as {:?} (read faults: {})", w.may, read_faulted()),
        (Err(FetchError::NotFound), None) => {}
        (Err(e), w) => {
            let torn = m.with(|m| m.lost_dirty);
            check!(read_faulted() || torn, "unreadable", "key {k} ({:?}) cannot be read without a read fault: {e}", w.map(|w| w.may));
        }
    }
}
fn hdx_body<S: BuildHasher + Default>(sc: &Scenario, m: &Shared<M>, h: &DataHeader) {
    let (fx, nb) = (sc.p("fx") == 1, sc.p("buckets") as u64);
    base();
    let mut ix = match HdxIndex::<32, S>::open_hdx_file(DIR, h, S::default(), false) {
        Ok(i) => i,
        Err(e) => {
            check!(any_faulted(), "unopenable", "opening fails without a fault: {e}");
            return;
        }
    };
    if let Some(l) = m.with(|m| m.data_len) {
        check!(ix.data_file_length() == l, "data-length", "data_file_length is {}, {l} was synced", ix.data_file_length());
    }
    // whether all calls on this handle went well
    loop {
        let i = m.with(|m| m.op);
        let Some(o) = sc.ops.get(i) else { break };
        m.with(|m| m.op += 1);
        simrt::note(|| format!("op {} {:?}", o.k, o.a));
        match o.k.as_str() {
            "save" => {
                let mut r = Rng::new(o.u(2));
                for _ in 0..o.u(0) {
                    let known = m.with(|m| m.keys.len() as u64);
                    let k = if o.u(1) == 0 && known > 0 { r.below(known) } else { known };
                    let p = m.with(|m| {
                        m.pos += 1 + r.below(1000);
                        m.pos
                    });
                    let d = key(fx, nb, k);
                    m.with(|m| {
                        let e = m.keys.entry(k).or_insert_with(|| K { may: vec![None], hist: vec![] });
                        e.hist.push(p);
                        // until the call returns, both
                        e.may.push(Some(p));
                    });
                    match ix.save(d, p) {
                        Ok(()) => m.with(|m| m.keys.get_mut(&k).unwrap().may = vec![Some(p)]),
                        Err(e) => {
                            simrt::note(|| format!("save of {k} failed: {e}"));
                            simrt::probe("save_failed");
                            check!(any_faulted() || m.with(|m| m.lost_dirty), "refused", "a save fails without a fault: {e}");
                        }
                    }
                    if r.chance(1, 6) {
                        check_load(&mut ix, k, d, m);
                    }
                }
            }
            "load" => {
                let mut r = Rng::new(o.u(1));
                for _ in 0..o.u(0) {
                    let n = m.with(|m| m.keys.len() as u64);
                    if n > 0 {
                        let k = r.below(n);
                        check_load(&mut ix, k, key(fx, nb, k), m);
                    }
                    let f = m.with(|m| m.filled);
                    if f > 0 {
                        let k = r.below(f);
                        match ix.load(filler(k)) {
                            Ok(p) => check!(p == k + 28, "wrong", "filler {k} maps to {p}"),
                            Err(FetchError::NotFound) => violate("lost", format!("filler {k} is not found")),
                            Err(e) => check!(read_faulted() || m.with(|m| m.lost_dirty), "unreadable", "filler {k}: {e}"),
                        }
                    }
                }
            }
            "absent" => {
                let k = 1_000_000 + o.u(0);
                check_load(&mut ix, k, key(fx, nb, k), m);
            }
            "len" => {
                ix.set_data_file_length(o.u(0));
                check!(ix.data_file_length() == o.u(0), "data-length", "data_file_length not what was set");
                m.with(|m| m.data_len = None);
            }
            "all" => {
                for k in m.with(|m| m.keys.keys().copied().collect::<Vec<_>>()) {
                    check_load(&mut ix, k, key(fx, nb, k), m);
                }
            }
            "sync" => {
                sync_hdx(&mut ix, m);
            }
            "ro" => {
                if sync_hdx(&mut ix, m) {
                    match HdxIndex::<32, S>::open_hdx_file(DIR, h, S::default(), true) {
                        Ok(mut ro) => {
                            for k in m.with(|m| m.keys.keys().copied().collect::<Vec<_>>()) {
                                check_load(&mut ro, k, key(fx, nb, k), m);
                            }
                            check!(ro.save(key(fx, nb, 0), 1).is_err(), "read-only", "a read only index accepts a save");
                        }
                        Err(e) => check!(any_faulted(), "unopenable", "a synced index cannot be opened for reading: {e}"),
                    }
                }
            }
            "reopen" => {
                if o.u(0) == 0 {
                    sync_hdx(&mut ix, m);
                } else if !any_faulted() {
                    // closing writes everything out
                    m.with(|m| m.writing = true);
                    drop(ix);
                    m.with(|m| {
                        if !any_faulted() {
                            m.durable = Some(m.keys.clone());
                            m.writing = false;
                        }
                    });
                    return;
                }
                m.with(|m| m.writing = true);
                return;
            }
            "crash" => crash(o.arg(0)),
            _ => {}
        }
    }
    m.with(|m| m.writing = true);
}
fn crash(mode: i64) {
    let g = simrt::my_group();
    simrt::sim().groups[g as usize].crashed_at = format!("power{mode}");
    simrt::kill_group(g);
}
fn sync_hdx<S: BuildHasher + Default>(ix: &mut HdxIndex<32, S>, m: &Shared<M>) -> bool {
    m.with(|m| m.writing = true);
    let l = ix.data_file_length();
    match ix.sync() {
        Ok(()) => {
            m.with(|m| {
                m.durable = Some(m.keys.clone());
                m.writing = false;
                m.data_len = Some(l);
            });
            true
        }
        Err(e) => {
            simrt::note(|| format!("sync failed: {e}"));
            simrt::probe("sync_failed");
            check!(any_faulted(), "refused", "a sync fails without a fault: {e}");
            m.with(|m| m.data_len = None);
            false
        }
    }
}
fn prefill<S: BuildHasher + Default>(n: u64, h: &DataHeader) {
    let mut ix = HdxIndex::<32, S>::open_hdx_file(DIR, h, S::default(), false).unwrap();
    simrt::critical(|| {
        for k in 0..n {
            ix.save(filler(k), k + 28).unwrap();
        }
    });
    ix.sync().unwrap();
}
// ------------------------------------------------------------------ position index
#[derive(Clone, Debug, PartialEq)]
struct Wide(u64);
impl PosIndexValue for Wide {
    fn encode(&self, b: &mut [u8]) {
        for (i, c) in b.chunks_mut(8).enumerate() {
            c.copy_from_slice(&self.0.wrapping_mul(i as u64 + 1).to_le_bytes());
        }
    }
    fn decode(b: &[u8]) -> Result<Self, FetchError> {
        let w = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        if (1..3).any(|i| w(i) != w(0).wrapping_mul(i as u64 + 1)) {
            return Ok(Wide(u64::MAX));
        }
        Ok(Wide(w(0)))
    }
    fn buffer_len() -> usize {
        24
    }
}
trait Val: PosIndexValue + PartialEq + std::fmt::Debug {
    fn mk(v: u64) -> Self;
}
impl Val for u64 {
    fn mk(v: u64) -> Self {
        v
    }
}
impl Val for (u64, u64) {
    fn mk(v: u64) -> Self {
        (v, !v)
    }
}
impl Val for Wide {
    fn mk(v: u64) -> Self {
        Wide(v)
    }
}
fn chk<T: Val>(got: Result<T, FetchError>, k: usize, m: &Shared<M>) {
    let want = m.with(|m| m.vals.get(k).copied().or(m.extra.filter(|_| k == m.vals.len())));
    match (got, want) {
        (Ok(v), Some(w)) => check!(v == T::mk(w), "wrong", "entry {k} is {v:?}, saved was {w}"),
        (Ok(v), None) => violate("phantom", format!("entry {k} was never saved and is {v:?}")),
        (Err(FetchError::NotFound), w) => check!(w.is_none() || k == m.with(|m| m.vals.len()), "lost", "entry {k} of {} is not found", m.with(|m| m.vals.len())),
        (Err(e), _) => check!(read_faulted(), "unreadable", "entry {k} cannot be read without a read fault: {e}"),
    }
}
fn pdx_len<T: Val>(ix: &PositionIndex<T>, m: &Shared<M>) {
    let (n, x) = m.with(|m| (m.vals.len(), m.extra.is_some()));
    check!(ix.len() == n || (x && ix.len() == n + 1), "length", "{} entries, {n} were saved (one uncertain: {x})", ix.len());
    check!(ix.is_empty() == (ix.len() == 0), "length", "is_empty disagrees with len");
}
fn pdx_body<T: Val>(sc: &Scenario, m: &Shared<M>, h: &DataHeader) {
    base();
    let mut ix = match PositionIndex::<T>::open_pdx_file(DIR, h, PATHS[2], false) {
        Ok(i) => i,
        Err(e) => {
            check!(any_faulted(), "unopenable", "opening fails without a fault: {e}");
            return;
        }
    };
    // what the crash left: judged by the caller's bounds, then the owner cuts back to what it knows is good
    let len = ix.len();
    let (dur, n, weak, x) = m.with(|m| (m.durable_len, m.vals.len(), m.lost_dirty, m.extra.is_some()));
    check!(len >= dur && len <= n + x as usize, "lost", "{len} entries after reopening; {dur} were synced, {n} saved");
    m.with(|m| {
        if let (true, Some(x)) = (len > m.vals.len(), m.extra) {
            m.vals.push(x);
        }
        m.extra = None;
        m.vals.truncate(len);
    });
    if weak {
        for k in 0..dur {
            let v = ix.load(k as u64);
            chk(v, k, m);
        }
        let r = if dur == 0 { ix.truncate_all() } else { ix.truncate_to_index(dur as u64 - 1) };
        if r.is_err() || ix.sync().is_err() {
            return;
        }
        m.with(|m| {
            m.vals.truncate(dur);
            m.lost_dirty = false
        });
    }
    pdx_len(&ix, m);
    loop {
        let i = m.with(|m| m.op);
        let Some(o) = sc.ops.get(i) else { break };
        m.with(|m| m.op += 1);
        simrt::note(|| format!("op {} {:?}", o.k, o.a));
        match o.k.as_str() {
            "save" => {
                let mut r = Rng::new(o.u(2));
                for _ in 0..o.u(0) {
                    let at = ix.len();
                    pdx_len(&ix, m);
                    m.with(|m| {
                        if let Some(x) = m.extra.take().filter(|_| at > m.vals.len()) {
                            m.vals.push(x);
                        }
                    });
                    if r.chance(1, 20) {
                        let off = at as u64 + 1 + r.below(3);
                        check!(ix.save(off, T::mk(1)).is_err(), "gap", "entry {off} accepted, the next is {at}");
                        if at > 0 {
                            check!(ix.save(at as u64 - 1, T::mk(1)).is_err(), "gap", "entry {} accepted again, the next is {at}", at - 1);
                        }
                    }
                    let v = r.next() >> 1;
                    m.with(|m| m.extra = Some(v));
                    match ix.save(at as u64, T::mk(v)) {
                        Ok(()) => m.with(|m| {
                            m.vals.push(v);
                            m.extra = None
                        }),
                        Err(e) => {
                            simrt::note(|| format!("save failed: {e}"));
                            simrt::probe("save_failed");
                            check!(any_faulted(), "refused", "a save fails without a fault: {e}");
                        }
                    }
                }
            }
            "load" | "absent" => {
                let mut r = Rng::new(o.u(1) ^ o.u(0));
                for _ in 0..o.u(0).min(20) {
                    let k = r.below(m.with(|m| m.vals.len() as u64) + 3);
                    let v = ix.load(k);
                    chk(v, k as usize, m);
                }
            }
            "all" | "len" | "ro" => {
                let want = o.u(0) as usize % 40 + if o.k == "all" { 1 << 20 } else { 0 };
                let n = ix.len();
                pdx_len(&ix, m);
                let fwd: Result<Vec<_>, _> = ix.iter(want).map(|i| i.collect());
                match fwd {
                    Ok(v) => {
                        check!(v.len() == want.min(n), "iter", "iter({want}) of {n} gave {}", v.len());
                        for (k, x) in v.into_iter().enumerate() {
                            chk(x, k, m);
                        }
                    }
                    Err(e) => check!(read_faulted(), "unreadable", "iter fails without a read fault: {e}"),
                }
                match ix.rev_iter(want) {
                    Ok(it) => {
                        let v: Vec<_> = it.collect();
                        check!(v.len() == want.min(n), "iter", "rev_iter({want}) of {n} gave {}", v.len());
                        for (k, x) in v.into_iter().enumerate() {
                            chk(x, n - 1 - k, m);
                        }
                    }
                    Err(e) => check!(read_faulted(), "unreadable", "rev_iter fails without a read fault: {e}"),
                }
            }
            "sync" => {
                sync_pdx(&mut ix, m);
            }
            "cut" => {
                let n = m.with(|m| m.vals.len());
                let k = (o.u(0) % (n as u64 + 4)) as usize;
                let x = m.with(|m| m.extra.is_some());
                if x {
                    return;
                }
                // none (0), or up to and with entry k-1; beyond the end nothing happens
                let keep = if k > n { n } else { k };
                m.with(|m| m.durable_len = m.durable_len.min(keep));
                let r = if k == 0 { ix.truncate_all() } else { ix.truncate_to_index(k as u64 - 1) };
                if r.is_err() {
                    check!(any_faulted(), "refused", "a cut fails without a fault");
                    return;
                }
                check!(ix.len() == keep, "length", "{} entries after cutting {n} to {keep}", ix.len());
                // a cut is durable with the next sync
                if ix.sync().is_err() {
                    return;
                }
                m.with(|m| {
                    m.vals.truncate(keep);
                    m.durable_len = keep
                });
            }
            "reopen" => {
                if o.u(0) == 0 {
                    sync_pdx(&mut ix, m);
                }
                return;
            }
            "crash" => crash(o.arg(0)),
            _ => {}
        }
    }
}
fn sync_pdx<T: Val>(ix: &mut PositionIndex<T>, m: &Shared<M>) {
    let n = ix.len();
    match ix.sync() {
        Ok(()) => m.with(|m| {
            if let Some(x) = m.extra.take().filter(|_| n > m.vals.len()) {
                m.vals.push(x);
            }
            m.durable_len = m.vals.len()
        }),
        Err(e) => {
            simrt::note(|| format!("sync failed: {e}"));
            check!(any_faulted(), "refused", "a sync fails without a fault: {e}");
        }
    }
}
// ------------------------------------------------------------------ the run
fn header() -> Pack<u64> {
    Pack::<u64>::open("/sim/b/data", 3, false, PackCompression::None, 2).unwrap()
}
fn one(sc: &Scenario, m: &Shared<M>) {
    let p = header();
    let h = p.header();
    match (sc.p("kind"), sc.p("fx"), sc.p("width")) {
        (0, 1, _) => hdx_body::<FxB>(sc, m, h),
        (0, _, _) => hdx_body::<TailB>(sc, m, h),
        (_, _, 0) => pdx_body::<u64>(sc, m, h),
        (_, _, 1) => pdx_body::<(u64, u64)>(sc, m, h),
        _ => pdx_body::<Wide>(sc, m, h),
    }
}
fn create(sc: &Scenario) {
    let p = header();
    let h = p.header();
    let n = sc.p("prefill") as u64;
    match (sc.p("kind"), sc.p("fx"), sc.p("width")) {
        (0, 1, _) => prefill::<FxB>(n, h),
        (0, _, _) => prefill::<TailB>(n, h),
        (_, _, 0) => drop(PositionIndex::<u64>::open_pdx_file(DIR, h, PATHS[2], false).unwrap()),
        (_, _, 1) => drop(PositionIndex::<(u64, u64)>::open_pdx_file(DIR, h, PATHS[2], false).unwrap()),
        _ => drop(PositionIndex::<Wide>::open_pdx_file(DIR, h, PATHS[2], false).unwrap()),
    }
}
fn run(sc: &Scenario) {
    disk().mkvol("a");
    disk().mkvol("b");
    let mut r = Rng::new(simrt::mix(sc.seed, "power"));
    let m = Shared::new(M::default());
    let s2 = sc.clone();
    process("create", FOREVER, move || create(&s2));
    disk().sync_all("a");
    m.with(|m| {
        m.filled = sc.p("prefill") as u64;
        m.durable = Some(BTreeMap::new());
        m.pos = 100_000;
    });
    for f in &sc.faults {
        arm("a", f, PATHS);
    }
    let kind = sc.p("kind");
    let mut rounds = 0;
    let mut broken = false;
    while m.with(|m| m.op) < sc.ops.len() && rounds < 60 && !broken {
        rounds += 1;
        let (s2, m2) = (sc.clone(), m.clone());
        let g = simrt::spawn_group("node", move || one(&s2, &m2));
        let done = simrt::wait_group(g, FOREVER);
        if let Some(p) = simrt::sim().groups[g as usize].panics.first().cloned() {
            violate("panic", p);
        }
        let at = simrt::sim().groups[g as usize].crashed_at.clone();
        simrt::kill_group(g);
        let mut lost = false;
        if !done {
            let mode = at.strip_prefix("power").and_then(|x| x.parse::<i64>().ok()).unwrap_or(if r.chance(1, 2) { r.below(5) as i64 } else { -1 });
            if mode >= 0 {
                disk().power_loss("a", mode as u64, &mut r);
                lost = true;
            }
            simrt::probe("crashed");
        }
        if !lost {
            disk().sync_all("a");
        }
        if kind == 1 {
            m.with(|m| m.lost_dirty |= lost);
        } else {
            m.with(|m| {
                if done && !m.writing {
                    return; // closed after everything was written
                }
                if !m.writing {
                    // everything since the last sync was in memory only
                    m.keys = m.durable.clone().unwrap_or_default();
                    return;
                }
                // Killed while it wrote: what was synced may be damaged. That is for the owner to repair; here
                // only no wrong answers.
                broken = true;
            });
            if broken {
                simrt::probe("killed_in_sync");
                let damaged = !done || any_faulted();
                disarm();
                final_look(sc, &m, damaged);
            }
        }
        state(hash_str(&format!("{:?}", m.with(|m| (m.keys.len(), m.vals.len(), m.durable_len, m.op, broken)))));
        if rounds > 40 {
            disarm();
        }
    }
    if !broken {
        disarm();
        let (mut s2, m2) = (sc.clone(), m.clone());
        s2.ops = vec![Op::new("all", &[]), Op::new("save", &[3, 1, 5]), Op::new("sync", &[]), Op::new("all", &[]), Op::new("load", &[20, 1])];
        m.with(|m| m.op = 0);
        process("final", FOREVER, move || one(&s2, &m2));
    }
}
/// After a kill inside a sync (or a close whose writes failed): answers may be missing, not wrong.
fn final_look(sc: &Scenario, m: &Shared<M>, damaged: bool) {
    let (s2, m2) = (sc.clone(), m.clone());
    process("look", FOREVER, move || {
        let p = header();
        let f = |g: &mut dyn FnMut(B256) -> Result<u64, FetchError>| {
            let (fx, nb) = (s2.p("fx") == 1, s2.p("buckets") as u64);
            for (k, e) in m2.with(|m| m.keys.clone()) {
                match g(key(fx, nb, k)) {
                    Ok(p) => check!(e.hist.contains(&p), "wrong", "key {k} maps to {p}, never saved for it: {:?}", e.hist),
                    Err(FetchError::NotFound) => check!(damaged || e.may.contains(&None), "lost", "key {k} is lost by a clean close"),
                    Err(e) => check!(damaged, "unreadable", "key {k} cannot be read after a clean close: {e}"),
                }
            }
            check!(g(key(fx, nb, 5_000_000)).is_err(), "phantom", "a key never saved is found");
        };
        if s2.p("fx") == 1 {
            if let Ok(mut ix) = HdxIndex::<32, FxB>::open_hdx_file(DIR, p.header(), FxB::default(), false) {
                f(&mut |d| ix.load(d));
                std::mem::forget(ix);
            }
        } else if let Ok(mut ix) = HdxIndex::<32, TailB>::open_hdx_file(DIR, p.header(), TailB::default(), false) {
            f(&mut |d| ix.load(d));
            std::mem::forget(ix);
        }
    });
}
