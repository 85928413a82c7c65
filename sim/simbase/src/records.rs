//! P26: the store of epoch records and their certificates.
use crate::base::*;
use simcore::*;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;
use tn_storage::epoch_records::{CertifiedRecordError, EpochDbError, EpochRecordDb, EpochRecordValidation};
use tn_types::*;

pub const CHECK: Check = Check {
    id: "P26",
    rule: "an evaluation is one seeded history of record and certificate saves, reads, bundles and restarts of one epoch record store under I/O faults, kills and power loss; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage epoch_records, archive::*", "tn-types epoch record, certificate, codec", "tokio, std threads"],
    stub: &["disk: simulated file system below the libc calls", "kernel: threads, futexes, clock", "blst: a stand-in without pairing arithmetic"],
    assumptions: &["fsync makes a file's contents durable unless it fails", "a process kill loses nothing already handed to the kernel", "the store's directory exists before faults start", "after a failed save or persist the node stops, as its callers do"],
    gen,
    run,
    runs: (20_000, 300_000),
    wall: (30, 500),
    stuck_is_violation: true,
    max_steps: 100_000_000,
};
const A: &str = "/sim/a/epochs";

fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P26", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    let incs = 1 + r.below(4);
    let many = if r.chance(1, 8) { 120 } else { 10 };
    sc.set("epochs", 3 + r.below(many) as i64);
    sc.set("torn", r.chance(1, 8) as i64);
    for i in 0..incs {
        for _ in 0..2 + r.below(12) {
            let x = r.below(1 << 40) as i64;
            let o = match r.below(22) {
                // how many records, 1 in so many with its certificate (0 none), persisted
                0..=5 => Op::new("save", &[1 + { let m = if r.chance(1, 6) { 40 } else { 3 }; r.below(m) as i64 }, r.below(4) as i64, r.below(3) as i64]),
                6..=8 => Op::new("cert", &[x]),
                9 | 10 => Op::new("persist", &[]),
                11 => Op::new("again", &[x]),
                12 => Op::new("conflict", &[x]),
                13 => Op::new("gap", &[1 + r.below(3) as i64]),
                14 | 15 => Op::new("look", &[1 + r.below(8) as i64, x]),
                16 => Op::new("reader", &[1 + r.below(20) as i64, x]),
                17 => Op::new("bundle", &[x, r.below(2) as i64]),
                18 => Op::new("dummy", &[]),
                19 => Op::new("wait", &[x, r.below(900_000_000) as i64]),
                _ => Op::new("judge", &[x]),
            };
            sc.ops.push(o);
        }
        if i + 1 < incs || r.chance(1, 2) {
            let t = if r.chance(1, 3) { 0 } else { { let m = if r.chance(1, 2) { 3_000_000 } else { 60_000_000 }; 1000 + r.below(m) as i64 } };
            sc.ops.push(Op::new("end", &[t, if r.chance(1, 3) { -1 } else { r.below(5) as i64 }]));
        }
    }
    for j in 0..r.below(4) {
        let mut f = match r.below(7) {
            0 => gen_soft(&mut r, 60, 0),
            1..=4 => gen_crash(&mut r, 70, 0),
            _ => gen_err(&mut r, 60, 0),
        };
        f.a.resize(6, 0);
        f.a.push((j % incs) as i64);
        sc.faults.push(f);
    }
    sc
}

#[derive(Clone)]
struct K(Arc<BlsKeypair>);
impl BlsSigner for K {
    fn request_signature_direct(&self, msg: &[u8]) -> BlsSignature {
        self.0.sign(msg)
    }
    fn public_key(&self) -> BlsPublicKey {
        *self.0.public()
    }
}

struct World {
    keys: Vec<K>,
    records: Vec<EpochRecord>,
    /// two valid certificates of each record
    certs: Vec<[EpochCertificate; 2]>,
}
impl World {
    fn sign(keys: &[K], rec: &EpochRecord, who: &[usize]) -> EpochCertificate {
        let mut who = who.to_vec();
        who.sort();
        let mut sigs = vec![];
        let mut map = roaring::RoaringBitmap::new();
        for i in who {
            let k = keys.iter().find(|k| k.public_key() == rec.committee[i]).unwrap();
            sigs.push(rec.sign_vote(k).signature);
            map.push(i as u32);
        }
        EpochCertificate { epoch_hash: rec.digest(), signature: BlsAggregateSignature::aggregate(&sigs, true).unwrap().to_signature(), signed_authorities: map }
    }
    fn build(sc: &Scenario) -> Self {
        let mut r = Rng::new(simrt::mix(sc.seed, "world"));
        use rand::SeedableRng;
        let mut kr = rand::rngs::StdRng::seed_from_u64(sc.seed);
        let keys: Vec<_> = (0..7).map(|_| K(Arc::new(BlsKeypair::generate(&mut kr)))).collect();
        let committee = |e: usize, n: usize| -> Vec<BlsPublicKey> {
            let s: BTreeSet<_> = (0..n).map(|i| keys[(i + e / 3) % 7].public_key()).collect();
            s.into_iter().collect()
        };
        let n = sc.p("epochs").max(1) as usize;
        let size: Vec<usize> = (0..=n).map(|_| 4 + r.below(3) as usize).collect();
        let (mut records, mut certs): (Vec<EpochRecord>, Vec<_>) = (vec![], vec![]);
        let mut last = 0;
        for e in 0..n {
            last += 1 + r.below(20);
            let mut c = committee(e, size[e]);
            // one was thrown out during the epoch
            if c.len() > 4 && c.len() * 3 - 3 >= c.len() * 2 && r.chance(1, 5) {
                c.remove(r.below(c.len() as u64) as usize);
            }
            let rec = EpochRecord {
                epoch: e as u32,
                committee: c.clone(),
                next_committee: committee(e + 1, size[e + 1]),
                parent_hash: records.last().map(|p: &EpochRecord| p.digest()).unwrap_or_default(),
                final_state: BlockNumHash::new(last * 3, B256::repeat_byte(e as u8)),
                final_consensus: ConsensusNumHash::new(last, ConsensusHeaderDigest::from(B256::repeat_byte(e as u8 + 1))),
            };
            let q = rec.super_quorum();
            let all: Vec<usize> = (0..c.len()).collect();
            let skip = r.below(c.len() as u64) as usize;
            let most: Vec<usize> = all.iter().copied().map(|i| (i + skip) % c.len()).take(q).collect();
            certs.push([Self::sign(&keys, &rec, &all), Self::sign(&keys, &rec, &most)]);
            records.push(rec);
        }
        World { keys, records, certs }
    }
    /// An epoch's record as another might claim it.
    fn other(&self, e: usize, x: u64) -> EpochRecord {
        let mut o = self.records[e].clone();
        o.final_state = BlockNumHash::new(x, B256::repeat_byte(0xEE));
        o.final_consensus.number = if x % 2 == 0 { o.final_consensus.number.saturating_sub(1 + x % 9) } else { o.final_consensus.number + 1 + x % 50 };
        o
    }
}

#[derive(Default)]
struct Hist {
    /// so many records are durable, saved, begun
    durable: usize,
    saved: usize,
    begun: usize,
    /// per epoch: the certificates (bits) whose save began, and whether one is surely saved, durable
    tried: Vec<u8>,
    csaved: Vec<bool>,
    cdurable: Vec<bool>,
    dummy: bool,
}
#[derive(Clone)]
struct Node {
    w: Arc<World>,
    h: Shared<Hist>,
    torn: Shared<bool>,
    torn_judged: bool,
}
const TORN: &str = "torn-digest-index";
const TORN_HOW: &str = "after a power loss or a kill in the middle of the writes to a digest index";
fn hurt() -> bool {
    use simrt::fs::Kind::*;
    disk().faults.iter().any(|f| matches!(f.kind, Eio | Enospc) && f.hit > f.nth)
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}

impl Node {
    fn torn(&self) -> bool {
        self.torn.with(|t| *t)
    }
    /// The call may fail only because of a disk fault (or of a torn digest index, P09's known finding).
    fn fine(&self, what: &str, e: impl std::fmt::Display) {
        if self.torn() {
            simrt::probe("refused_by_torn_index");
            if self.torn_judged && !hurt() {
                violate(TORN, format!("{TORN_HOW}: {what} failed: {e}"));
            }
            return;
        }
        check!(hurt(), "refused", "{what} failed though no disk fault took effect: {e}");
    }
    fn after_life(&self) {
        let d = disk();
        if d.cut_short.iter().any(|f| f.ends_with(".hdx") || f.ends_with(".odx")) {
            simrt::probe("digest_index_write_cut_short");
            self.torn.with(|t| *t = true);
        }
        d.cut_short.clear();
    }
    fn power_loss(&self, mode: u64, r: &mut Rng) {
        let d = disk();
        let files: Vec<_> = d.files("/sim/a").into_iter().filter(|f| f.ends_with(".hdx") || f.ends_with(".odx")).map(|f| (d.peek(&f), f)).collect();
        d.power_loss("a", mode, r);
        if files.iter().any(|(was, f)| d.peek(f).is_some_and(|x| Some(x) != *was)) {
            simrt::probe("power_loss_with_unsynced_digest_index");
            self.torn.with(|t| *t = true);
        }
    }
    fn open(&self) -> Option<EpochRecordDb> {
        match EpochRecordDb::open(PathBuf::from(A)) {
            Ok(d) => Some(d),
            Err(e) => {
                self.fine("opening the store", format!("{e:?}"));
                None
            }
        }
    }
    async fn save(&self, d: &EpochRecordDb, e: usize, cert: bool, v: usize) -> bool {
        self.h.with(|h| {
            h.begun = h.begun.max(e + 1);
            if cert {
                h.tried[e] |= 1 << v;
            }
        });
        let rec = self.w.records[e].clone();
        let x = if cert { d.save(rec, self.w.certs[e][v].clone()).await } else { d.save_record(rec).await };
        match x {
            Ok(()) => {
                self.h.with(|h| {
                    h.saved = h.saved.max(e + 1);
                    h.csaved[e] |= cert;
                });
                true
            }
            Err(x) => {
                self.fine(&format!("saving the record of epoch {e}"), x);
                false
            }
        }
    }
    async fn cert(&self, d: &EpochRecordDb, e: usize, v: usize) -> bool {
        self.h.with(|h| h.tried[e] |= 1 << v);
        match d.save_certificate(self.w.records[e].digest(), self.w.certs[e][v].clone()).await {
            Ok(()) => {
                self.h.with(|h| h.csaved[e] = true);
                true
            }
            Err(x) => {
                self.fine(&format!("saving the certificate of epoch {e}"), x);
                false
            }
        }
    }
    async fn persist(&self, d: &EpochRecordDb) -> bool {
        let (saved, cs) = self.h.with(|h| (h.saved, h.csaved.clone()));
        match d.persist().await {
            Ok(()) => {
                self.h.with(|h| {
                    h.durable = h.durable.max(saved);
                    for (a, b) in h.cdurable.iter_mut().zip(cs) {
                        *a |= b;
                    }
                });
                true
            }
            Err(x) => {
                self.fine("persisting", x);
                false
            }
        }
    }
    /// What must be there, what may: of record e and its certificate. In a life whatever was saved is read back.
    fn must(&self, e: usize) -> (bool, bool) {
        self.h.with(|h| (e < h.saved, h.csaved.get(e) == Some(&true)))
    }
    fn lost(&self, by_digest: bool, what: String) {
        if hurt() {
            return;
        }
        if by_digest && self.torn() {
            simrt::probe("lookup_lost_by_torn_index");
            if self.torn_judged {
                violate(TORN, format!("{TORN_HOW}: {what}"));
            }
            return;
        }
        violate("lost", what);
    }
    fn judge_rec(&self, e: usize, got: Option<&EpochRecord>, by_digest: bool, must: bool, what: &str) {
        match got {
            Some(x) => {
                if e == 0 && (!must || hurt()) && self.h.with(|h| h.dummy) && x.digest() == self.dummy().digest() {
                    return;
                }
                check!(e < self.h.with(|h| h.begun), "invented", "{what}: epoch {e} has a record though none was ever saved");
                check!(x.digest() == self.w.records[e].digest(), "changed", "{what}: the record of epoch {e} is not the one saved");
            }
            None if must => self.lost(by_digest, format!("{what}: the saved record of epoch {e} is not there")),
            None => {}
        }
    }
    fn judge_cert(&self, e: usize, got: Option<&EpochCertificate>, must: bool, what: &str) {
        match got {
            Some(x) => {
                let t = self.h.with(|h| h.tried.get(e).copied().unwrap_or(0));
                check!(t != 0, "invented", "{what}: epoch {e} has a certificate though none was ever saved");
                let v = (0..2).find(|v| encode(x) == encode(&self.w.certs[e][*v]));
                check!(v.is_some_and(|v| t & 1 << v != 0), "changed", "{what}: the certificate of epoch {e} is not one that was saved for it");
            }
            None if must => self.lost(true, format!("{what}: the saved certificate of epoch {e} is not there")),
            None => {}
        }
    }
    fn dummy(&self) -> EpochRecord {
        let k = self.w.records[0].committee.clone();
        EpochRecord { epoch: 0, committee: k.clone(), next_committee: k, ..Default::default() }
    }
    async fn look(&self, d: &EpochRecordDb, e: usize, kind: u64) {
        let w = &self.w;
        let (rm, cm) = self.must(e);
        let (lo, scs) = self.h.with(|h| (h.saved, h.csaved.clone()));
        let Some(rec) = w.records.get(e) else {
            check!(d.record_by_epoch(e as u32).await.is_none() && !d.contains_epoch(e as u32).await, "invented", "a record of epoch {e}");
            return;
        };
        match kind {
            0 => {
                let x = d.record_by_epoch(e as u32).await;
                self.judge_rec(e, x.as_ref(), false, rm, "by epoch");
            }
            1 => {
                let x = d.record_by_digest(rec.digest()).await;
                self.judge_rec(e, x.as_ref(), true, rm, "by digest");
            }
            2 => {
                let x = d.cert_by_digest(rec.digest()).await;
                self.judge_cert(e, x.as_ref(), cm, "by digest");
            }
            3 => match d.get_epoch_by_number(e as u32).await {
                Some((r, c)) => {
                    self.judge_rec(e, Some(&r), false, rm, "pair by number");
                    if r.digest() == rec.digest() {
                        self.judge_cert(e, c.as_ref(), cm, "pair by number");
                    }
                }
                None => self.judge_rec(e, None, false, rm, "pair by number"),
            },
            4 => match d.get_epoch_by_hash(rec.digest()).await {
                Some((r, c)) => {
                    self.judge_rec(e, Some(&r), true, rm, "pair by digest");
                    self.judge_cert(e, c.as_ref(), cm, "pair by digest");
                }
                None => self.judge_rec(e, None, true, rm, "pair by digest"),
            },
            5 => {
                let (a, b) = (d.contains_epoch(e as u32).await, d.contains_record_digest(rec.digest()).await);
                let dummy = self.h.with(|h| e == 0 && h.dummy);
                check!(!a || dummy || e < self.h.with(|h| h.begun), "invented", "epoch {e} is said to be there");
                check!(!b || e < self.h.with(|h| h.begun), "invented", "the record of epoch {e} is said to be there");
                if rm && !a {
                    self.lost(false, format!("the saved record of epoch {e} is said to be missing"));
                }
                if rm && !b {
                    self.lost(true, format!("the saved record of epoch {e} is said to be missing by digest"));
                }
            }
            6 => match d.certified_record_by_epoch(e as u32).await {
                Ok(r) => {
                    self.judge_rec(e, Some(&r), false, rm, "certified");
                    check!(self.h.with(|h| h.tried[e] != 0), "invented", "epoch {e} is said to be certified though no certificate was ever saved");
                }
                Err(x) => {
                    if rm && cm {
                        self.lost(true, format!("the certified record of epoch {e} is refused: {x}"));
                    }
                    check!(self.torn() || hurt() || matches!(x, CertifiedRecordError::MissingRecord(_) | CertifiedRecordError::MissingCertificate(..)), "refused", "the record of epoch {e} is said to be damaged: {x}");
                }
            },
            7 => {
                // numbers to epochs
                let (n, l) = (rec.final_consensus.number, if e == 0 { 0 } else { w.records[e - 1].final_consensus.number });
                for n in [l + 1, n] {
                    let x = d.number_to_epoch(n) as usize;
                    let hi = self.h.with(|h| h.begun);
                    check!(hurt() || (x >= e.min(lo) && x <= e.min(hi)), "renumbered", "output {n} is said to be of epoch {x}: it is of epoch {e}, {lo} records were saved");
                }
            }
            8 => {
                let l = d.latest_record().await;
                let (hi, dm) = self.h.with(|h| (h.begun, h.dummy));
                match l {
                    Some(l) if dm && (lo == 0 || hurt()) && l.digest() == self.dummy().digest() => {}
                    Some(l) => {
                        let e = l.epoch as usize;
                        check!(e < hi && l.digest() == w.records[e].digest(), "invented", "the latest record, of epoch {e}, was never saved");
                        check!(hurt() || e + 1 >= lo, "lost", "the latest record is of epoch {e}, {lo} were saved");
                    }
                    None if lo > 0 => self.lost(false, format!("no record is there, {lo} were saved")),
                    None => {}
                }
            }
            9 => {
                let k = d.get_committee_keys(e as u32).await;
                let want: BTreeSet<_> = rec.committee.iter().copied().collect();
                let prev: Option<BTreeSet<_>> = e.checked_sub(1).map(|p| w.records[p].next_committee.iter().copied().collect());
                match k {
                    Some(k) if k == want || Some(&k) == prev.as_ref() => {}
                    Some(k) if e <= 1 && self.h.with(|h| h.dummy) && k == w.records[0].committee.iter().copied().collect() => {}
                    Some(_) => violate("changed", format!("the committee of epoch {e} is neither its own nor the one its parent names")),
                    None if rm => self.lost(false, format!("the committee of epoch {e} is not there")),
                    None => {}
                }
            }
            _ => {
                // up to which epoch are all certified
                let x = d.first_missing_historical_cert(e as u32).await.map_or(e, |x| x as usize);
                check!(x <= e, "invented", "asked up to epoch {e} for a missing certificate: {x}");
                let tried = self.h.with(|h| h.tried.clone());
                let lo = (0..e).find(|k| !(*k < lo && scs[*k])).unwrap_or(e);
                let hi = (0..e).find(|k| !(*k < self.h.with(|h| h.begun) && tried[*k] != 0)).unwrap_or(e);
                if x < lo {
                    self.lost(true, format!("the certificate of epoch {x} is said to be missing, it was saved"));
                }
                check!(x <= hi, "invented", "epoch {x} is the first without a certificate, yet none was ever saved for {hi}");
            }
        }
    }
    async fn looks(&self, d: &EpochRecordDb, seed: u64, k: u64) {
        let mut r = Rng::new(seed);
        for _ in 0..k {
            let hi = self.h.with(|h| h.begun) as u64;
            let e = r.below(hi + 2) as usize;
            self.look(d, e, r.below(11)).await;
        }
    }
    /// A bundle of epochs 0..=e is exactly these records and certificates.
    async fn bundle(&self, d: &EpochRecordDb, e: usize, inc: bool, k: usize) {
        let p = |s: &str, k: usize| PathBuf::from(format!("/sim/a/{s}-{k}"));
        let whole = self.h.with(|h| e < h.saved && h.csaved[..=e].iter().all(|x| *x));
        let prev = (k > 0 && inc).then(|| (p("rec", k - 1), p("cert", k - 1)));
        let x = if inc { d.export_incremental_bundle(e as u32, prev, &p("rec", k), &p("cert", k)).await } else { d.export_bounded_bundle(e as u32, &p("rec", k), &p("cert", k)).await };
        match x {
            Ok(()) => {
                let (r, c) = (EpochRecordDb::read_records_from_pack(p("rec", k)), EpochRecordDb::read_certs_from_pack(p("cert", k)));
                let (r, c) = match (r, c) {
                    (Ok(r), Ok(c)) => (r, c),
                    (r, c) => {
                        self.fine("reading a bundle", format!("{:?} {:?}", r.err(), c.err()));
                        return;
                    }
                };
                let rs: Vec<_> = self.w.records[..=e].iter().map(|r| r.digest()).collect();
                let rg: Vec<_> = r.iter().map(|r| r.digest()).collect();
                check!(rg == rs, "bundle", "a bundle up to epoch {e} holds {} records: {:?}", r.len(), r.iter().map(|r| r.epoch).collect::<Vec<_>>());
                let cg: Vec<_> = c.iter().map(|c| c.epoch_hash).collect();
                check!(cg == rs, "bundle", "the certificates of a bundle up to epoch {e} are {} others", c.len());
                check!(c.iter().zip(&self.w.records).all(|(c, r)| r.verify_with_cert(c)), "bundle", "a certificate of a bundle up to epoch {e} does not verify");
                simrt::probe("bundle_written");
            }
            Err(EpochDbError::MissingRecord(_) | EpochDbError::MissingCertificate(_)) if !whole => {}
            Err(x) => self.fine(&format!("exporting epochs up to {e}"), x),
        }
    }
    /// What a peer may offer for epoch e.
    async fn verdicts(&self, d: &EpochRecordDb, x: u64) {
        let w = &self.w;
        let n = self.h.with(|h| h.saved);
        if n == 0 {
            return;
        }
        let mut r = Rng::new(x);
        let e = 1 + r.below(n as u64) as usize;
        let Some(rec) = w.records.get(e) else { return };
        let good = d.validate_downloaded_record(e as u32, rec, &w.certs[e][r.below(2) as usize]).await;
        if !hurt() {
            check!(good.is_valid(), "refused", "the true record of epoch {e} is refused: {good:?}");
        }
        let (mut bad, mut at) = (rec.clone(), e);
        let all: Vec<usize> = (0..rec.committee.len()).collect();
        let mut cert = None;
        let what = match r.below(8) {
            0 => {
                at = if r.chance(1, 2) { e + 1 } else { e - 1 };
                "for another epoch"
            }
            1 => {
                bad.parent_hash = EpochDigest::from(B256::repeat_byte(9));
                "with another parent"
            }
            2 => {
                bad.epoch += 1;
                "naming another epoch"
            }
            3 => {
                let k = w.keys.iter().map(|k| k.public_key()).find(|k| !w.records[e - 1].next_committee.contains(k));
                let Some(k) = k else { return };
                bad.committee[0] = k;
                "with a member the parent does not name"
            }
            4 => {
                bad.committee.truncate(3);
                "with too small a committee"
            }
            5 => {
                cert = Some(World::sign(&w.keys, rec, &all[..rec.super_quorum() - 1]));
                "with too few signatures"
            }
            6 => {
                let o = w.other(e, x);
                let mut c = World::sign(&w.keys, &o, &all);
                c.epoch_hash = rec.digest();
                cert = Some(c);
                "with signatures of another record"
            }
            _ => {
                let mut c = World::sign(&w.keys, rec, &all[..rec.super_quorum() - 1]);
                c.signed_authorities = (0..rec.committee.len() as u32).collect();
                cert = Some(c);
                "with signatures claimed that are not there"
            }
        };
        let cert = cert.unwrap_or_else(|| World::sign(&w.keys, &bad, &(0..bad.committee.len()).collect::<Vec<_>>()));
        let v = d.validate_downloaded_record(at as u32, &bad, &cert).await;
        check!(!matches!(v, EpochRecordValidation::Valid), "accepted", "a record {what} (epoch {e}) was accepted");
    }
    async fn sweep(&self, d: &EpochRecordDb) {
        let n = self.h.with(|h| h.begun);
        for e in 0..(n + 2).min(self.w.records.len() + 1) {
            for k in 0..11 {
                self.look(d, e, k).await;
            }
        }
    }
}

fn life(n: &Node, ops: &[Op], bundles: usize) {
    let rt = rt();
    let Some(d) = n.open() else { return };
    let mut readers = vec![];
    let mut k = bundles;
    let ok = rt.block_on(async {
        let all = n.w.records.len();
        for o in ops {
            let saved = n.h.with(|h| h.saved);
            let mut r = Rng::new(o.u(0) + 1);
            let some = |r: &mut Rng| r.below(saved.max(1) as u64) as usize;
            match o.k.as_str() {
                "save" => {
                    for i in 0..o.u(0) {
                        let e = n.h.with(|h| h.saved);
                        if e >= all {
                            break;
                        }
                        if !n.save(&d, e, o.u(1) != 0 && i % o.u(1) == 0, (i % 2) as usize).await {
                            return false;
                        }
                    }
                    if o.u(2) == 0 && !n.persist(&d).await {
                        return false;
                    }
                }
                "cert" => {
                    // one that is missing, perhaps of a record still to come
                    let e = n.h.with(|h| (0..(saved + 1).min(all)).filter(|e| !h.csaved[*e]).nth(r.below(3) as usize)).unwrap_or_else(|| some(&mut r));
                    if !n.cert(&d, e, r.below(2) as usize).await {
                        return false;
                    }
                }
                "persist" => {
                    if !n.persist(&d).await {
                        return false;
                    }
                }
                "again" if saved > 0 => {
                    let e = some(&mut r);
                    if !n.save(&d, e, r.chance(1, 2), r.below(2) as usize).await {
                        return false;
                    }
                }
                "conflict" if saved > 0 && !hurt() => {
                    let e = some(&mut r);
                    simrt::probe("conflicting_record");
                    if let Err(x) = d.save_record(n.w.other(e, r.next())).await {
                        n.fine("saving a record for an epoch that has one", x);
                        return false;
                    }
                    n.look(&d, e, 7).await;
                    n.look(&d, e, 0).await;
                }
                "gap" => {
                    let e = saved + o.u(0).max(1) as usize;
                    if e < all {
                        check!(d.save_record(n.w.records[e].clone()).await.is_err(), "gap", "the record of epoch {e} was taken, only {saved} are there");
                    }
                }
                "look" => n.looks(&d, o.u(1), o.u(0)).await,
                "reader" => {
                    let (n, d, o) = (n.clone(), d.clone(), o.clone());
                    readers.push(std::thread::spawn(move || {
                        self::rt().block_on(n.looks(&d, o.u(1), o.u(0)));
                        drop(d);
                    }));
                }
                "bundle" if saved > 0 => {
                    let e = if r.chance(1, 3) { some(&mut r) } else { n.h.with(|h| (0..saved).find(|e| !h.csaved[*e]).unwrap_or(saved)).saturating_sub(r.below(2) as usize) };
                    n.bundle(&d, e, o.u(1) == 1, k).await;
                    k += 1;
                }
                "dummy" if saved == 0 => {
                    n.h.with(|h| h.dummy = true);
                    if let Err(x) = d.save_dummy_epoch0(n.dummy()).await {
                        n.fine("saving the stand-in for the first record", x);
                        return false;
                    }
                    let x = d.record_by_epoch(0).await;
                    check!(hurt() || x.map(|x| x.digest()) == Some(n.dummy().digest()), "lost", "the stand-in for the first record is not there");
                }
                "wait" if saved > 0 => {
                    // someone waits for a certificate that comes later, or not
                    let e = some(&mut r);
                    let had = n.h.with(|h| h.csaved[e]);
                    let t0 = tokio::time::Instant::now();
                    let (n2, d2) = (n.clone(), d.clone());
                    let after = Duration::from_nanos(o.u(1));
                    let wait = Duration::from_millis(700);
                    let late = async move {
                        tokio::time::sleep(after).await;
                        n2.cert(&d2, e, 0).await
                    };
                    let got = r.chance(1, 2);
                    let waiter = async {
                        if got {
                            d.cert_by_digest_with_timeout(n.w.records[e].digest(), wait).await.map(|c| n.judge_cert(e, Some(&c), false, "waited for")).is_some()
                        } else {
                            d.certified_record_by_epoch_with_timeout(e as u32, wait).await.map(|r| n.judge_rec(e, Some(&r), false, false, "waited for")).is_ok()
                        }
                    };
                    let (found, went) = tokio::join!(async { (waiter.await, t0.elapsed()) }, late);
                    if !went {
                        return false;
                    }
                    if !hurt() && !n.torn() {
                        check!(found.0 || !(had || after + Duration::from_millis(50) < wait), "lost", "waited 700 ms for the certificate of epoch {e}, which came after {after:?}");
                        check!(found.1 < wait + Duration::from_millis(400), "late", "a wait of 700 ms took {:?}", found.1);
                    }
                }
                "judge" => n.verdicts(&d, o.u(0)).await,
                _ => {}
            }
        }
        true
    });
    for j in readers {
        let _ = j.join();
    }
    let failed = d.peek_error().is_err();
    drop(d);
    if ok && !hurt() && !n.torn() {
        check!(!failed, "refused", "a save failed though no disk fault took effect");
        // closed in order: everything is durable
        n.h.with(|h| {
            h.durable = h.saved;
            h.cdurable = h.csaved.clone();
        });
    }
}

fn run(sc: &Scenario) {
    let mut r = Rng::new(simrt::mix(sc.seed, "run"));
    disk().mkvol("a");
    let w = Arc::new(World::build(sc));
    let n = w.records.len();
    let h = Hist { tried: vec![0; n], csaved: vec![false; n], cdurable: vec![false; n], ..Default::default() };
    let node = Node { w: w.clone(), h: Shared::new(h), torn: Shared::new(false), torn_judged: sc.p("torn") != 0 };
    process("create", FOREVER, || std::fs::create_dir_all(A).unwrap());
    disk().sync_all("a");
    let mut ops: Vec<Vec<Op>> = vec![vec![]];
    let mut ends = vec![];
    for o in &sc.ops {
        if o.k == "end" {
            ends.push(o.clone());
            ops.push(vec![]);
        } else {
            ops.last_mut().unwrap().push(o.clone());
        }
    }
    ends.push(Op::new("end", &[0, -1]));
    for (i, ops) in ops.into_iter().enumerate() {
        let end = &ends[i];
        for f in sc.faults.iter().filter(|f| f.u(6) as usize == i) {
            arm("a", f, &[""]);
        }
        let n2 = node.clone();
        let limit = if end.u(0) == 0 { FOREVER } else { end.u(0) };
        node.h.with(|h| h.dummy = false);
        let (done, panics) = process_may_panic("store", limit, move || life(&n2, &ops, i * 1000));
        if !panics.is_empty() {
            check!(hurt(), "panic", "{}", panics.join(" | "));
        }
        if end.u(0) == 0 && !done && disk().faults.iter().all(|f| f.hit <= f.nth) {
            violate("stuck", "the store's threads did not finish");
        }
        let broken = fired("s") > 0;
        disarm();
        node.after_life();
        if end.arg(1) >= 0 || broken {
            node.power_loss(end.u(1), &mut r);
        }
        let (n2, w) = (node.clone(), w.clone());
        let seed = r.next();
        process("reopen", FOREVER, move || {
            n2.h.with(|h| {
                h.dummy = false;
                h.saved = h.durable;
                h.csaved = h.cdurable.clone();
            });
            let Some(d) = n2.open() else { return };
            rt().block_on(async {
                // the records are a prefix
                let hi = n2.h.with(|h| h.begun);
                let mut have = 0;
                for e in 0..hi {
                    let x = d.record_by_epoch(e as u32).await;
                    n2.judge_rec(e, x.as_ref(), false, n2.must(e).0, "after a restart");
                    check!(x.is_none() || have == e, "hole", "after a restart the record of epoch {e} is there, that of {have} is not");
                    have += x.is_some() as usize;
                }
                n2.h.with(|h| {
                    h.saved = have;
                    h.begun = have;
                });
                n2.sweep(&d).await;
                for e in 0..w.records.len() {
                    let x = d.cert_by_digest(w.records[e].digest()).await;
                    n2.h.with(|h| {
                        h.csaved[e] = x.is_some();
                        h.tried[e] = x.map_or(0, |x| if encode(&x) == encode(&w.certs[e][0]) { 1 } else { 2 });
                    });
                }
                let mut r = Rng::new(seed);
                let ok = if r.chance(1, 2) {
                    // what is missing can be had again
                    let mut ok = true;
                    for e in 0..have.min(w.records.len()) {
                        if ok && !n2.h.with(|h| h.csaved[e]) && r.chance(2, 3) {
                            ok = n2.cert(&d, e, r.below(2) as usize).await;
                        }
                    }
                    if ok && have < w.records.len() {
                        ok = n2.save(&d, have, r.chance(1, 2), 0).await;
                    }
                    ok
                } else {
                    true
                };
                if !ok || !n2.persist(&d).await {
                    return;
                }
                n2.sweep(&d).await;
            });
            state(n2.h.with(|h| hash_str(&format!("{} {:?}", h.saved, h.csaved))));
            drop(d);
        });
    }
}
