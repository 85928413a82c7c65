//! P10 the transactional key value store, P11 the layered and composite databases over it.
use crate::base::*;
use simcore::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tn_storage::composite_db::CompositeDatabase;
use tn_storage::ReDB;
use tn_types::{Database, DbTx, DbTxMut, Table, TableHint};

macro_rules! tab {
    ($n:ident, $k:ty, $v:ty, $h:ident) => {
        #[derive(Debug)]
        pub struct $n;
        impl Table for $n {
            type Key = $k;
            type Value = $v;
            const NAME: &'static str = stringify!($n);
            const HINT: TableHint = TableHint::$h;
        }
    };
}
tab!(Ea, u64, Vec<u8>, Epoch);
tab!(Eb, (u32, u16), u64, Epoch);
tab!(Ka, u64, Vec<u8>, Kad);
tab!(Ca, u64, Vec<u8>, Cache);
type State = BTreeMap<(u8, u64), u64>;
/// Values: the seed, then bytes that follow from it.
fn val(v: u64) -> Vec<u8> {
    let mut b = v.to_le_bytes().to_vec();
    let n = if v % 37 == 0 { 5000 } else { (v % 60) as usize };
    b.extend(body(v, n));
    b
}
fn unval(b: &[u8]) -> u64 {
    let v = b.get(..8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).unwrap_or(u64::MAX);
    if b == &val(v)[..] {
        v
    } else {
        u64::MAX
    }
}
fn k2(k: u64) -> (u32, u16) {
    ((k >> 2) as u32, (k & 3) as u16 * 300)
}
fn unk2(k: (u32, u16)) -> u64 {
    ((k.0 as u64) << 2) | (k.1 as u64 / 300)
}
/// A table behind numbers.
trait Tab: Table {
    const I: u8;
    fn k(k: u64) -> Self::Key;
    fn uk(k: &Self::Key) -> u64;
    fn v(v: u64) -> Self::Value;
    fn uv(v: &Self::Value) -> u64;
}
macro_rules! bytes_tab {
    ($t:ident, $i:expr) => {
        impl Tab for $t {
            const I: u8 = $i;
            fn k(k: u64) -> u64 {
                k
            }
            fn uk(k: &u64) -> u64 {
                *k
            }
            fn v(v: u64) -> Vec<u8> {
                val(v)
            }
            fn uv(v: &Vec<u8>) -> u64 {
                unval(v)
            }
        }
    };
}
bytes_tab!(Ea, 0);
bytes_tab!(Ka, 2);
bytes_tab!(Ca, 3);
impl Tab for Eb {
    const I: u8 = 1;
    fn k(k: u64) -> (u32, u16) {
        k2(k)
    }
    fn uk(k: &(u32, u16)) -> u64 {
        unk2(*k)
    }
    fn v(v: u64) -> u64 {
        v
    }
    fn uv(v: &u64) -> u64 {
        *v
    }
}
macro_rules! by {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            0 => {
                type $T = Ea;
                $e
            }
            1 => {
                type $T = Eb;
                $e
            }
            2 => {
                type $T = Ka;
                $e
            }
            _ => {
                type $T = Ca;
                $e
            }
        }
    };
}
fn hurt() -> bool {
    use simrt::fs::Kind::*;
    disk().faults.iter().any(|f| matches!(f.kind, Eio | Enospc) && f.hit > f.nth)
}
fn sub(s: &State, t: u8) -> Vec<(u64, u64)> {
    s.range((t, 0)..=(t, u64::MAX)).map(|(k, v)| (k.1, *v)).collect()
}
fn dump<T: Tab, D: Database>(db: &D, s: &mut State) {
    for (k, v) in db.iter::<T>() {
        s.insert((T::I, T::uk(&k)), T::uv(&v));
    }
}
/// One read, as numbers: what was asked and what came back.
#[derive(Clone, Debug)]
enum Seen {
    Get(u8, u64, Option<u64>),
    Has(u8, u64, bool),
    Empty(u8, bool),
    All(u8, Vec<(u64, u64)>),
    From(u8, u64, Vec<(u64, u64)>),
    Rev(u8, Vec<(u64, u64)>),
    Prior(u8, u64, Option<(u64, u64)>),
    Last(u8, Option<(u64, u64)>),
}
impl Seen {
    fn holds(&self, s: &State) -> bool {
        match self {
            Seen::Get(t, k, v) => s.get(&(*t, *k)).copied() == *v,
            Seen::Has(t, k, b) => s.contains_key(&(*t, *k)) == *b,
            Seen::Empty(t, b) => sub(s, *t).is_empty() == *b,
            Seen::All(t, l) => sub(s, *t) == *l,
            Seen::From(t, k, l) => sub(s, *t).into_iter().filter(|x| x.0 >= *k).collect::<Vec<_>>() == *l,
            Seen::Rev(t, l) => sub(s, *t).into_iter().rev().collect::<Vec<_>>() == *l,
            Seen::Prior(t, k, r) => sub(s, *t).into_iter().filter(|x| x.0 < *k).next_back() == *r,
            Seen::Last(t, r) => sub(s, *t).last().copied() == *r,
        }
    }
}
fn look<D: Database>(db: &D, kind: u64, t: u8, k: u64) -> Result<Seen, String> {
    let e = |e: eyre::Report| e.to_string();
    by!(t, T => Ok(match kind % 8 {
        0 => Seen::Get(t, k, db.get::<T>(&T::k(k)).map_err(e)?.map(|v| T::uv(&v))),
        1 => Seen::Has(t, k, db.contains_key::<T>(&T::k(k)).map_err(e)?),
        2 => Seen::Empty(t, db.is_empty::<T>()),
        3 => Seen::All(t, db.iter::<T>().map(|(k, v)| (T::uk(&k), T::uv(&v))).collect()),
        4 => Seen::From(t, k, db.skip_to::<T>(&T::k(k)).map_err(e)?.map(|(k, v)| (T::uk(&k), T::uv(&v))).collect()),
        5 => Seen::Rev(t, db.reverse_iter::<T>().map(|(k, v)| (T::uk(&k), T::uv(&v))).collect()),
        6 => Seen::Prior(t, k, db.record_prior_to::<T>(&T::k(k)).map(|(k, v)| (T::uk(&k), T::uv(&v)))),
        _ => Seen::Last(t, db.last_record::<T>().map(|(k, v)| (T::uk(&k), T::uv(&v)))),
    }))
}

// ---------------------------------------------------------------- P10
pub const REDB: Check = Check {
    id: "P10",
    rule: "an evaluation is one seeded history of concurrent transactions, reads, compactions, I/O faults, process kills and power losses against one ReDB; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage redb (database, wraps)", "tn-types codec", "redb 3.1", "parking_lot, std threads"],
    stub: &["disk: simulated file system below the libc calls", "kernel: threads, futexes, clock"],
    assumptions: &["fsync makes the file's contents durable unless it fails, after which unsynced pages may be gone", "a process kill loses nothing already handed to the kernel", "the database file was created before faults start", "a power loss does not reorder changes of the file's length with the writes around them (redb 3.1.1 refuses such a file)", "after a failed fsync the machine restarts with the process (redb 3.1.1 trusts cached pages that a failed fsync dropped)"],
    gen: gen_redb,
    run: run_redb,
    runs: (20_000, 400_000),
    wall: (25, 600),
    stuck_is_violation: true,
    max_steps: 40_000_000,
};
fn gen_redb(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P10", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    let th = 1 + r.below(3);
    sc.set("threads", th as i64);
    let incs = 1 + r.below(3);
    let keys = *r.pick(&[4u64, 12, 60]);
    for i in 0..incs {
        for _ in 0..3 + r.below(14) {
            let t = r.below(th) as i64;
            let o = match r.below(12) {
                // thread, changes, seed, how it ends (0 dropped), keys, reads of own writes
                0..=4 => {
                    let most = if r.chance(1, 8) { 60 } else { 6 };
                    Op::new("txn", &[t, 1 + r.below(most) as i64, r.below(1 << 30) as i64, r.below(5) as i64, keys as i64, r.below(2) as i64])
                }
                5 | 6 => Op::new("snap", &[t, 1 + r.below(5) as i64, r.below(1 << 30) as i64, keys as i64, r.below(3) as i64]),
                7 | 8 => Op::new("bare", &[t, r.below(12) as i64, r.below(1 << 30) as i64, keys as i64]),
                9 => Op::new("compact", &[t]),
                _ => Op::new("look", &[t, r.below(8) as i64, r.below(1 << 30) as i64, keys as i64]),
            };
            sc.ops.push(o);
        }
        if i + 1 < incs || r.chance(1, 2) {
            // how: 0 the process ends by itself, else it is killed after so long; power loss mode or -1
            sc.ops.push(Op::new("end", &[if r.chance(1, 3) { 0 } else { 1000 + r.below(3_000_000) as i64 }, if r.chance(1, 4) { -1 } else { r.below(5) as i64 }]));
        }
    }
    for j in 0..r.below(3) {
        let mut f = match r.below(6) {
            0 => gen_soft(&mut r, 60, 0),
            1..=3 => gen_crash(&mut r, 40, 0),
            _ => gen_err(&mut r, 40, 0),
        };
        f.a.resize(6, 0);
        f.a.push((j % incs) as i64);
        sc.faults.push(f);
    }
    sc
}
#[derive(Default)]
struct H10 {
    vers: Vec<State>,
    committed: usize,
    /// a commit that has begun and not been seen to end
    pending: Option<usize>,
    /// commits that failed: what they wrote may or may not be there
    maybe: Vec<usize>,
}
impl H10 {
    /// The state a transaction that now holds the write lock started from.
    fn base(&mut self) -> usize {
        if let Some(p) = self.pending {
            if !hurt() {
                self.committed = self.committed.max(p);
            }
            p
        } else {
            self.committed
        }
    }
    fn cands(&self, lo: usize) -> Vec<usize> {
        (lo..self.vers.len()).collect()
    }
}
fn apply_change<D: DbTxMut>(tx: &mut D, s: &mut State, r: &mut Rng, keys: u64) -> Result<(), String> {
    let t = r.below(4) as u8;
    let k = r.below(keys);
    let e = |e: eyre::Report| e.to_string();
    by!(t, T => match r.below(14) {
        0 => {
            tx.clear_table::<T>().map_err(e)?;
            s.retain(|q, _| q.0 != t);
        }
        1..=3 => {
            tx.remove::<T>(&T::k(k)).map_err(e)?;
            s.remove(&(t, k));
        }
        _ => {
            let v = r.below(1 << 40);
            tx.insert::<T>(&T::k(k), &T::v(v)).map_err(e)?;
            s.insert((t, k), v);
        }
    });
    Ok(())
}
fn allowed(e: &str, what: &str) {
    check!(hurt(), "error-without-fault", "{what} failed though no disk fault took effect: {e}");
}
fn redb_op(db: &ReDB, o: &Op, h: &Shared<H10>, wl: &Mutex<()>) {
    let mut r = Rng::new(o.u(2) ^ 0xabc);
    match o.k.as_str() {
        "txn" => {
            let _l = wl.lock().unwrap();
            let mut tx = match db.write_txn() {
                Ok(tx) => tx,
                Err(e) => return allowed(&e.to_string(), "write_txn"),
            };
            let bad = hurt();
            let base = h.with(|h| h.base());
            let mut s = h.with(|h| h.vers[base].clone());
            for _ in 0..o.u(1) {
                if let Err(e) = apply_change(&mut tx, &mut s, &mut r, o.u(4).max(1)) {
                    return allowed(&e, "a change in a transaction");
                }
                if o.u(5) == 1 {
                    let (t, k) = (r.below(4) as u8, r.below(o.u(4).max(1)));
                    match by!(t, T => tx.get::<T>(&T::k(k)).map(|v| v.map(|v| T::uv(&v)))) {
                        Ok(v) => check!(bad || hurt() || s.get(&(t, k)).copied() == v, "txn-read", "table {t} key {k} inside the write transaction is {v:?}, not {:?}", s.get(&(t, k))),
                        Err(e) => allowed(&e.to_string(), "a read in a transaction"),
                    }
                }
            }
            if o.u(3) == 0 {
                simrt::probe("txn_dropped");
                drop(tx);
                return;
            }
            let n = h.with(|h| {
                h.vers.push(s);
                h.pending = Some(h.vers.len() - 1);
                h.vers.len() - 1
            });
            commit_done(h, n, tx.commit().map_err(|e| e.to_string()));
        }
        "bare" => {
            let _l = wl.lock().unwrap();
            let n = h.with(|h| {
                let b = h.base();
                let mut s = h.vers[b].clone();
                let (t, k) = (r.below(4) as u8, r.below(o.u(3).max(1)));
                match o.u(1) {
                    0 => s.retain(|q, _| q.0 != t),
                    1..=3 => {
                        s.remove(&(t, k));
                    }
                    _ => {
                        s.insert((t, k), o.u(2));
                    }
                }
                h.vers.push(s);
                h.pending = Some(h.vers.len() - 1);
                h.vers.len() - 1
            });
            let mut r = Rng::new(o.u(2) ^ 0xabc);
            let (t, k) = (r.below(4) as u8, r.below(o.u(3).max(1)));
            let res = by!(t, T => match o.u(1) {
                0 => db.clear_table::<T>(),
                1..=3 => db.remove::<T>(&T::k(k)),
                _ => db.insert::<T>(&T::k(k), &T::v(o.u(2))),
            });
            commit_done(h, n, res.map_err(|e| e.to_string()));
        }
        "snap" => {
            let lo = h.with(|h| h.committed);
            let tx = match db.read_txn() {
                Ok(t) => t,
                Err(e) => return allowed(&e.to_string(), "read_txn"),
            };
            let mut c = h.with(|h| h.cands(lo));
            let mut seen = vec![];
            for _ in 0..o.u(1) {
                let (t, k) = (r.below(4) as u8, r.below(o.u(3).max(1)));
                if o.u(4) == 1 {
                    std::thread::sleep(Duration::from_micros(r.below(400)));
                }
                match by!(t, T => tx.get::<T>(&T::k(k)).map(|v| v.map(|v| T::uv(&v)))) {
                    Ok(v) => {
                        seen.push(Seen::Get(t, k, v));
                        c.retain(|i| h.with(|h| seen.last().unwrap().holds(&h.vers[*i])));
                        check!(!c.is_empty(), "torn-snapshot", "what one read transaction saw matches no single committed state: {seen:?}");
                    }
                    Err(e) => allowed(&e.to_string(), "a read"),
                }
            }
        }
        "look" => {
            let lo = h.with(|h| h.committed);
            let (t, k) = (r.below(4) as u8, r.below(o.u(3).max(1) + 2));
            let seen = if o.u(1) == 0 && r.chance(1, 2) {
                // several keys of one snapshot
                let ks: Vec<u64> = (0..5).map(|_| r.below(o.u(3).max(1))).collect();
                let got = by!(t, T => { let kk: Vec<_> = ks.iter().map(|k| T::k(*k)).collect(); db.multi_get::<T>(kk.iter()).map(|v| v.into_iter().map(|v| v.map(|v| T::uv(&v))).collect::<Vec<_>>()) });
                match got {
                    Ok(g) => {
                        check!(g.len() == ks.len(), "multi-get", "{} answers for {} keys", g.len(), ks.len());
                        ks.iter().zip(g).map(|(k, v)| Seen::Get(t, *k, v)).collect()
                    }
                    Err(e) => return allowed(&e.to_string(), "multi_get"),
                }
            } else {
                match look(db, o.u(1), t, k) {
                    Ok(s) => vec![s],
                    Err(e) => return allowed(&e, "a read"),
                }
            };
            if hurt() {
                return;
            }
            let c = h.with(|h| h.cands(lo));
            check!(c.iter().any(|i| h.with(|h| seen.iter().all(|s| s.holds(&h.vers[*i])))), "wrong-read", "{seen:?} matches no state committed between the call and its answer; last acknowledged {:?}", h.with(|h| h.vers[lo].clone()));
        }
        "compact" => {
            if db.compact().is_err() {
                simrt::probe("compaction_refused");
            }
        }
        _ => {}
    }
}
fn commit_done(h: &Shared<H10>, n: usize, res: Result<(), String>) {
    match res {
        Ok(()) => h.with(|h| {
            h.committed = h.committed.max(n);
            if h.pending == Some(n) {
                h.pending = None;
            }
        }),
        Err(e) => {
            allowed(&e, "a commit");
            h.with(|h| h.maybe.push(n));
        }
    }
}
fn open_tables<D: Database>(db: &D) -> eyre::Result<()> {
    db.open_table::<Ea>()?;
    db.open_table::<Eb>()?;
    db.open_table::<Ka>()?;
    db.open_table::<Ca>()
}
fn run_redb(sc: &Scenario) {
    let mut r = Rng::new(simrt::mix(sc.seed, "run"));
    disk().mkvol("a");
    disk().ordered_len = true;
    process("create", FOREVER, || open_tables(&ReDB::open("/sim/a/db").unwrap()).unwrap());
    disk().sync_all("a");
    let h = Shared::new(H10::default());
    h.with(|h| h.vers.push(State::new()));
    let mut ops: Vec<Vec<Op>> = vec![vec![]];
    let mut ends = vec![];
    for o in &sc.ops {
        if o.k == "end" {
            ends.push(o.clone());
            ops.push(vec![]);
        } else {
            ops.last_mut().unwrap().push(o.clone());
        }
    }
    ends.push(Op::new("end", &[0, 0]));
    for (i, ops) in ops.into_iter().enumerate() {
        let end = &ends[i];
        for f in sc.faults.iter().filter(|f| f.u(6) as usize == i) {
            arm("a", f, &[""]);
        }
        let (h2, th) = (h.clone(), sc.p("threads").max(1) as u64);
        let limit = if end.u(0) == 0 { FOREVER } else { end.u(0) };
        let (done, panics) = process_may_panic("store", limit, move || {
            let db = match ReDB::open("/sim/a/db").and_then(|d| open_tables(&d).map(|_| d)) {
                Ok(d) => d,
                Err(e) => return allowed(&e.to_string(), "opening the database"),
            };
            let wl = Arc::new(Mutex::new(()));
            let mut hs = vec![];
            for t in 0..th {
                let (db, h, wl) = (db.clone(), h2.clone(), wl.clone());
                let mine: Vec<Op> = ops.iter().filter(|o| o.u(0) % th == t).cloned().collect();
                hs.push(std::thread::spawn(move || {
                    for o in &mine {
                        redb_op(&db, o, &h, &wl);
                    }
                }));
            }
            for j in hs {
                let _ = j.join();
            }
        });
        if !panics.is_empty() {
            check!(hurt(), "panic", "{}", panics.join(" | "));
        }
        if end.u(0) == 0 && !done && disk().faults.iter().all(|f| f.hit <= f.nth) {
            violate("stuck", "the threads did not finish");
        }
        let was_hurt = hurt();
        let broken = fired("s") > 0;
        disarm();
        if end.arg(1) >= 0 || broken {
            disk().power_loss("a", end.u(1), &mut r);
        }
        let h2 = h.clone();
        process("reopen", FOREVER, move || {
            let db = match ReDB::open("/sim/a/db") {
                Ok(d) => d,
                Err(e) => violate("unopenable", format!("after a crash the database cannot be opened: {e}")),
            };
            open_tables(&db).unwrap();
            let mut s = State::new();
            dump::<Ea, _>(&db, &mut s);
            dump::<Eb, _>(&db, &mut s);
            dump::<Ka, _>(&db, &mut s);
            dump::<Ca, _>(&db, &mut s);
            let m = h2.with(|h| (h.committed..h.vers.len()).filter(|i| *i == h.committed || h.pending == Some(*i) || h.maybe.contains(i)).any(|i| h.vers[i] == s));
            check!(m, "not-durable", "after a restart the contents are neither the last acknowledged transaction's nor an unacknowledged one's (error faults: {was_hurt}): {} rows, acknowledged {} rows", s.len(), h2.with(|h| h.vers[h.committed].len()));
            state(hash_str(&format!("{s:?}")));
            h2.with(|h| *h = H10 { vers: vec![s], ..Default::default() });
        });
    }
}

// ---------------------------------------------------------------- P11
pub const LAYERED: Check = Check {
    id: "P11",
    rule: "an evaluation is one seeded history of reads, writes, transactions, durability barriers, long idle times, I/O faults, process kills and power losses from several threads against one composite database; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage composite_db, layered_db, mem_db, redb", "tn-types codec", "redb 3.1", "parking_lot, dashmap, std threads and channels"],
    stub: &["disk: simulated file system below the libc calls", "kernel: threads, futexes, clock"],
    assumptions: &["writes to one key are issued one after another", "fsync makes the file's contents durable unless it fails, after which unsynced pages may be gone", "the database files were created before faults start", "a power loss does not reorder changes of a file's length with the writes around them (redb 3.1.1 refuses such a file)", "after a failed fsync the machine restarts with the process (redb 3.1.1 trusts cached pages that a failed fsync dropped)"],
    gen: gen_layered,
    run: run_layered,
    runs: (20_000, 400_000),
    wall: (30, 600),
    stuck_is_violation: true,
    max_steps: 40_000_000,
};
fn gen_layered(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P11", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    if r.chance(1, 4) {
        // one writer asks for durability again and again while the disk fails
        let tab = r.below(4) as i64;
        sc.set("threads", 1);
        sc.set("keys", 2);
        // or fails to read what an earlier process left
        let cold = r.chance(1, 3);
        if cold {
            for _ in 0..1 + r.below(3) {
                sc.ops.push(Op::new("put", &[0, tab, r.below(2) as i64, r.below(1 << 30) as i64]));
            }
            sc.ops.push(Op::new("end", &[0, if r.chance(1, 2) { -1 } else { r.below(5) as i64 }]));
        }
        for _ in 0..4 + r.below(14) {
            sc.ops.push(match r.below(8) {
                0..=2 => Op::new("put", &[0, tab, r.below(2) as i64, r.below(1 << 30) as i64]),
                3 | 4 => Op::new("del", &[0, tab, r.below(2) as i64]),
                5 => Op::new("clear", &[0, tab]),
                _ => Op::new("txn", &[0, 1 + r.below(3) as i64, r.below(1 << 30) as i64, r.below(6) as i64, r.below(3) as i64, tab]),
            });
            if r.chance(2, 3) {
                sc.ops.push(Op::new("persist", &[0, tab]));
            }
            if r.chance(1, 2) {
                if r.chance(1, 2) {
                    sc.ops.push(Op::new("catchup", &[0]));
                }
                sc.ops.push(Op::new("look", &[0, tab, 0, r.below(2) as i64]));
            }
        }
        if r.chance(1, 2) {
            sc.ops.push(Op::new("end", &[0, r.below(5) as i64]));
        }
        if cold {
            let f = [2, r.below(24) as i64, 0, 0, 1 + r.below(3) as i64, layer(tab as u8) as i64, 1];
            sc.faults.push(Op::new("io", &f));
            return sc;
        }
        let f = [*r.pick(&[0i64, 0, 1]), r.below(60) as i64, *r.pick(&[0i64, 0, 1]), 0, 1 + r.below(3) as i64, layer(tab as u8) as i64, 0];
        sc.faults.push(Op::new("io", &f));
        return sc;
    }
    let th = 1 + r.below(3);
    sc.set("threads", th as i64);
    let incs = 1 + r.below(2);
    let keys = *r.pick(&[2i64, 6, 12]);
    sc.set("keys", keys);
    let focus = r.below(6);
    let long = r.chance(1, 8);
    for i in 0..incs {
        for _ in 0..4 + r.below(24) {
            let t = r.below(th) as i64;
            let tab = if focus < 4 { focus as i64 } else { r.below(4) as i64 };
            let o = match r.below(20) {
                0..=4 => Op::new("put", &[t, tab, r.below(keys as u64) as i64, r.below(1 << 30) as i64]),
                5 | 6 => Op::new("del", &[t, tab, r.below(keys as u64) as i64]),
                // thread, changes, seed, end: 0 dropped, 1 a clone is dropped first, 2 both commit, else commit; pause
                7..=9 => Op::new("txn", &[t, 1 + r.below(5) as i64, r.below(1 << 30) as i64, r.below(6) as i64, r.below(3) as i64, if focus < 4 { tab } else { -1 }]),
                10..=12 => Op::new("persist", &[t, tab]),
                13 => Op::new("catchup", &[t]),
                14 => Op::new("nap", &[t, if long { (20 + r.below(30) as i64) * 3_600_000_000_000 } else { r.below(3_000_000) as i64 }]),
                15 if th == 1 => Op::new("clear", &[t, tab]),
                _ => Op::new("look", &[t, tab, if r.chance(1, 3) { 0 } else { r.below(8) as i64 }, r.below(keys as u64) as i64]),
            };
            sc.ops.push(o);
        }
        if i + 1 < incs || r.chance(1, 2) {
            sc.ops.push(Op::new("end", &[if r.chance(1, 3) { 0 } else { 1000 + r.below(4_000_000) as i64 }, if r.chance(1, 4) { -1 } else { r.below(5) as i64 }]));
        }
    }
    for j in 0..r.below(3) {
        let mut f = match r.below(6) {
            0 => gen_soft(&mut r, 60, 3),
            1..=3 => gen_crash(&mut r, 40, 3),
            _ => {
                let mut f = gen_err(&mut r, 40, 3);
                f.a[0] = *r.pick(&[0i64, 0, 1]);
                f
            }
        };
        f.a.resize(6, 0);
        f.a.push((j % incs) as i64);
        sc.faults.push(f);
    }
    sc
}
const FILES: &[&str] = &["/epoch", "/kad", "/cache"];
fn layer(t: u8) -> usize {
    [0, 0, 1, 2][t as usize & 3]
}
#[derive(Clone, Debug)]
enum En {
    Put(u8, u64, u64),
    Del(u8, u64),
    Clear(u8),
    Begin,
    End,
}
#[derive(Default, Clone)]
struct L {
    /// by layer
    log: [Vec<En>; 3],
    durable: [usize; 3],
    base: State,
    /// every value a key had, and what it has now
    now: State,
    hist: BTreeMap<(u8, u64), Vec<u64>>,
    /// keys removed since the last barrier of their table's layer: the old value may still show
    gone: std::collections::BTreeSet<(u8, u64)>,
    open: bool,
}
impl L {
    fn rec(&mut self, e: En) {
        match &e {
            En::Put(t, k, v) => {
                self.now.insert((*t, *k), *v);
                self.hist.entry((*t, *k)).or_default().push(*v);
                self.gone.remove(&(*t, *k));
            }
            En::Del(t, k) => {
                self.now.remove(&(*t, *k));
                self.gone.insert((*t, *k));
            }
            En::Clear(t) => {
                let ks: Vec<_> = self.hist.keys().chain(self.base.keys()).filter(|k| k.0 == *t).copied().collect();
                self.gone.extend(ks);
                self.now.retain(|k, _| k.0 != *t);
            }
            _ => {}
        }
        match &e {
            En::Put(t, ..) | En::Del(t, _) | En::Clear(t) => self.log[layer(*t)].push(e),
            _ => (),
        }
    }
    fn mark(&mut self, l: usize, e: En) {
        self.log[l].push(e);
    }
    /// The states this thread's keys of one layer may have on disk.
    fn prefixes(&self, l: usize) -> Vec<State> {
        let mut s: State = self.base.iter().filter(|(k, _)| layer(k.0) == l).map(|(k, v)| (*k, *v)).collect();
        let mut out = vec![];
        let mut depth = 0;
        if self.durable[l] == 0 {
            out.push(s.clone());
        }
        for (i, e) in self.log[l].iter().enumerate() {
            match e {
                En::Put(t, k, v) => {
                    s.insert((*t, *k), *v);
                }
                En::Del(t, k) => {
                    s.remove(&(*t, *k));
                }
                En::Clear(t) => s.retain(|k, _| k.0 != *t),
                En::Begin => depth += 1,
                En::End => depth -= 1,
            }
            if depth == 0 && i + 1 >= self.durable[l] {
                out.push(s.clone());
            }
        }
        out
    }
}
type Db = CompositeDatabase<ReDB>;
fn own(t: u64) -> std::ops::Range<u64> {
    t * 1000..(t + 1) * 1000
}
fn layered_op(db: &Db, o: &Op, me: u64, single: bool, h: &Shared<Vec<L>>, keys: u64) {
    let i = me as usize;
    let k0 = me * 1000;
    let mut r = Rng::new(o.u(2) ^ 0x77);
    let send = |e: eyre::Result<()>, what: &str| {
        if let Err(e) = e {
            allowed(&e.to_string(), what);
        }
    };
    match o.k.as_str() {
        "put" => {
            let (t, k, v) = (o.u(1) as u8 & 3, k0 + o.u(2) % keys, o.u(3));
            h.with(|h| h[i].rec(En::Put(t, k, v)));
            send(by!(t, T => db.insert::<T>(&T::k(k), &T::v(v))), "insert");
        }
        "del" => {
            let (t, k) = (o.u(1) as u8 & 3, k0 + o.u(2) % keys);
            h.with(|h| h[i].rec(En::Del(t, k)));
            send(by!(t, T => db.remove::<T>(&T::k(k))), "remove");
        }
        "clear" if single => {
            let t = o.u(1) as u8 & 3;
            h.with(|h| h[i].rec(En::Clear(t)));
            send(by!(t, T => db.clear_table::<T>()), "clear_table");
        }
        "txn" => {
            let mut tx = match db.write_txn() {
                Ok(t) => t,
                Err(e) => return allowed(&e.to_string(), "write_txn"),
            };
            let mut begun = [false; 3];
            let mut clone = None;
            for _ in 0..o.u(1) {
                let t = if o.arg(5) >= 0 { o.u(5) as u8 & 3 } else { r.below(4) as u8 };
                let k = k0 + r.below(keys);
                let l = layer(t);
                if !begun[l] && clone.is_none() {
                    begun[l] = true;
                    h.with(|h| h[i].mark(l, En::Begin));
                }
                if !begun[l] {
                    continue;
                }
                if r.chance(1, 4) {
                    h.with(|h| h[i].rec(En::Del(t, k)));
                    send(by!(t, T => tx.remove::<T>(&T::k(k))), "remove in a transaction");
                } else {
                    let v = r.below(1 << 30);
                    h.with(|h| h[i].rec(En::Put(t, k, v)));
                    send(by!(t, T => tx.insert::<T>(&T::k(k), &T::v(v))), "insert in a transaction");
                    let got = by!(t, T => tx.get::<T>(&T::k(k)).map(|v| v.map(|v| T::uv(&v))));
                    match got {
                        Ok(g) => check!(g == Some(v) || hurt(), "own-write-in-txn", "table {t} key {k} is {g:?} right after the transaction wrote {v}"),
                        Err(e) => allowed(&e.to_string(), "a read in a transaction"),
                    }
                }
                if clone.is_none() && (o.u(3) == 1 || o.u(3) == 2) {
                    clone = Some(tx.clone());
                }
                if o.u(4) == 1 {
                    std::thread::sleep(Duration::from_micros(r.below(500)));
                }
                if o.u(4) == 2 {
                    // a plain write from the same thread joins the open transaction
                    let (k, v) = (k0 + r.below(keys), r.below(1 << 30));
                    h.with(|h| h[i].rec(En::Put(t, k, v)));
                    send(by!(t, T => db.insert::<T>(&T::k(k), &T::v(v))), "insert");
                }
            }
            for l in 0..3 {
                if begun[l] {
                    h.with(|h| h[i].mark(l, En::End));
                }
            }
            match o.u(3) {
                0 => drop(tx),
                1 => {
                    drop(clone);
                    send(tx.commit(), "commit");
                }
                2 => {
                    if let Some(c) = clone {
                        send(c.commit(), "commit of a clone");
                    }
                    send(tx.commit(), "commit");
                }
                _ => send(tx.commit(), "commit"),
            }
        }
        "persist" => {
            let t = o.u(1) as u8 & 3;
            let l = layer(t);
            let n = h.with(|h| h[i].log[l].len());
            let res = by!(t, T => crate::conc::block_on(db.persist::<T>()));
            match res {
                Ok(()) => {
                    simrt::probe("persisted");
                    h.with(|h| {
                        h[i].durable[l] = h[i].durable[l].max(n);
                        h[i].gone.retain(|k| layer(k.0) != l);
                    });
                    if single {
                        match db.stats() {
                            Ok(s) => {
                                let s = [s.epoch, s.kad, s.cache][l];
                                check!(s.open_txn_count == 0, "txn-leak", "{} transactions count as open on layer {l} though none is", s.open_txn_count);
                                check!(s.retained_inserts == 0 || hurt(), "insert-leak", "{} inserts are retained on layer {l} after the barrier", s.retained_inserts);
                            }
                            Err(e) => allowed(&e.to_string(), "stats"),
                        }
                    }
                }
                Err(e) => allowed(&e.to_string(), "persist"),
            }
        }
        "catchup" => db.sync_persist(),
        "nap" => std::thread::sleep(Duration::from_nanos(o.u(1))),
        "look" => {
            let (t, k) = (o.u(1) as u8 & 3, k0 + o.u(3) % keys);
            let cache = layer(t) == 2;
            let l = h.with(|h| h[i].clone());
            let kind = o.u(2);
            let read = if kind == 0 && r.chance(1, 2) {
                by!(t, T => db.read_txn().and_then(|x| x.get::<T>(&T::k(k))).map(|v| Seen::Get(t, k, v.map(|v| T::uv(&v)))).map_err(|e| e.to_string()))
            } else {
                look(db, kind, t, k)
            };
            let seen = match read {
                Ok(s) => s,
                Err(e) => return allowed(&e, "a read"),
            };
            // what could not be written stays readable as it was written
            if hurt() && !matches!(seen, Seen::Get(..)) {
                return;
            }
            let mine = |v: &[(u64, u64)]| v.iter().filter(|x| own(me).contains(&x.0)).copied().collect::<Vec<_>>();
            let s: State = l.now.iter().filter(|(q, _)| q.0 == t).map(|(k, v)| (*k, *v)).collect();
            match &seen {
                Seen::Get(_, _, got) => {
                    let exact = s.get(&(t, k)).copied();
                    let old = exact.is_none() && l.gone.contains(&(t, k)) && got.is_some_and(|g| l.hist.get(&(t, k)).is_some_and(|v| v.contains(&g)) || l.base.get(&(t, k)) == Some(&g));
                    check!(*got == exact || old, "stale-read", "table {t} key {k} reads {got:?}; the last write to it left {exact:?}");
                }
                Seen::Has(_, _, got) => {
                    let exact = s.contains_key(&(t, k));
                    check!(*got == exact || (cache && *got && l.gone.contains(&(t, k))), "stale-read", "table {t} key {k} present {got}; the last write to it left {exact}");
                }
                Seen::Empty(_, got) => {
                    check!(!(*got && !s.is_empty()), "empty", "table {t} counts as empty with {} rows", s.len());
                    if single && !cache {
                        check!(*got == s.is_empty(), "empty", "table {t} empty {got}, with {} rows", s.len());
                    }
                }
                Seen::All(_, v) if cache => {
                    for ((_, k), x) in &s {
                        check!(v.iter().any(|y| y == &(*k, *x)), "iter-misses", "iterating table {t} misses key {k} with its value {x}; all {:?}", mine(v));
                    }
                }
                Seen::All(_, v) => check!(mine(v) == sub(&s, t), "iter", "iterating table {t} gives {:?} for this thread's keys, not {:?}", mine(v), sub(&s, t)),
                Seen::From(..) | Seen::Rev(..) | Seen::Prior(..) | Seen::Last(..) if cache => {}
                Seen::From(_, _, v) => check!(mine(v) == sub(&s, t).into_iter().filter(|x| x.0 >= k).collect::<Vec<_>>(), "iter", "from key {k} on table {t} gives {:?}", mine(v)),
                Seen::Rev(_, v) => {
                    let mut m = mine(v);
                    m.reverse();
                    check!(m == sub(&s, t) && v.windows(2).all(|w| w[0].0 > w[1].0), "iter", "backwards on table {t}: {v:?}");
                }
                Seen::Prior(_, _, got) => {
                    if let Some(want) = sub(&s, t).into_iter().filter(|x| x.0 < k).next_back() {
                        check!(*got == Some(want), "iter", "before key {k} of table {t} comes {got:?}, not {want:?}");
                    } else {
                        check!(got.is_none_or(|g| g.0 < k0), "iter", "before key {k} of table {t} comes {got:?}");
                    }
                }
                Seen::Last(_, got) => {
                    if single {
                        check!(*got == sub(&s, t).last().copied(), "iter", "last of table {t} is {got:?}");
                    }
                }
            }
        }
        _ => {}
    }
}
fn open_composite() -> eyre::Result<Db> {
    let db = CompositeDatabase::open(ReDB::open("/sim/a/epoch")?, ReDB::open("/sim/a/kad")?, ReDB::open("/sim/a/cache")?);
    open_tables(&db)?;
    Ok(db)
}
fn run_layered(sc: &Scenario) {
    let mut r = Rng::new(simrt::mix(sc.seed, "run"));
    let th = sc.p("threads").max(1) as u64;
    let keys = sc.p("keys").max(1) as u64;
    disk().mkvol("a");
    disk().ordered_len = true;
    process("create", FOREVER, || drop(open_composite().unwrap()));
    disk().sync_all("a");
    let h = Shared::new(vec![L::default(); th as usize]);
    let mut ops: Vec<Vec<Op>> = vec![vec![]];
    let mut ends = vec![];
    for o in &sc.ops {
        if o.k == "end" {
            ends.push(o.clone());
            ops.push(vec![]);
        } else {
            ops.last_mut().unwrap().push(o.clone());
        }
    }
    ends.push(Op::new("end", &[0, 0]));
    for (i, ops) in ops.into_iter().enumerate() {
        let end = &ends[i];
        for f in sc.faults.iter().filter(|f| f.u(6) as usize == i) {
            arm("a", f, FILES);
        }
        let h2 = h.clone();
        let limit = if end.u(0) == 0 { FOREVER * 100_000 } else { end.u(0) };
        let (done, panics) = process_may_panic("store", limit, move || {
            let db = match open_composite() {
                Ok(d) => d,
                Err(e) => return allowed(&e.to_string(), "opening the database"),
            };
            let mut hs = vec![];
            for t in 0..th {
                let (db, h) = (db.clone(), h2.clone());
                let mine: Vec<Op> = ops.iter().filter(|o| o.u(0) % th == t).cloned().collect();
                hs.push(std::thread::spawn(move || {
                    for o in &mine {
                        layered_op(&db, o, t, th == 1, &h, keys);
                    }
                }));
            }
            for j in hs {
                let _ = j.join();
            }
        });
        if !panics.is_empty() {
            check!(hurt(), "panic", "{}", panics.join(" | "));
        }
        let faulted = disk().faults.iter().any(|f| f.hit > f.nth);
        if end.u(0) == 0 && !done && !faulted {
            violate("stuck", "the threads did not finish");
        }
        let clean = done && !hurt() && panics.is_empty();
        let broken = fired("s") > 0;
        disarm();
        if end.arg(1) >= 0 || broken {
            disk().power_loss("a", end.u(1), &mut r);
        }
        let h2 = h.clone();
        process("reopen", FOREVER, move || {
            let db = match open_composite() {
                Ok(d) => d,
                Err(e) => violate("unopenable", format!("after a crash the database cannot be opened: {e}")),
            };
            let mut s = State::new();
            dump::<Ea, _>(&db, &mut s);
            dump::<Eb, _>(&db, &mut s);
            dump::<Ka, _>(&db, &mut s);
            db.sync_persist();
            dump::<Ca, _>(&db, &mut s);
            for t in 0..th {
                let l = h2.with(|h| h[t as usize].clone());
                for y in 0..3 {
                    let got: State = s.iter().filter(|(k, _)| layer(k.0) == y && own(t).contains(&k.1)).map(|(k, v)| (*k, *v)).collect();
                    let mut may = l.prefixes(y);
                    if clean {
                        may = may.split_off(may.len().saturating_sub(1));
                    }
                    check!(may.contains(&got), if clean { "lost-at-shutdown" } else { "not-durable" }, "after a restart thread {t}'s rows on layer {y} are {got:?}: not the outcome of a prefix of its {} writes that covers the {} a barrier acknowledged; history {:?}", l.log[y].len(), l.durable[y], l.log[y]);
                }
                let mine: State = s.iter().filter(|(k, _)| own(t).contains(&k.1)).map(|(k, v)| (*k, *v)).collect();
                h2.with(|h| h[t as usize] = L { base: mine.clone(), now: mine, ..Default::default() });
            }
            check!(s.keys().all(|k| k.1 < th * 1000), "invented", "rows nobody wrote: {s:?}");
            state(hash_str(&format!("{s:?}")));
        });
    }
}
