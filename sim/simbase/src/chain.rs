//! P09: the store of consensus outputs.
use crate::base::*;
use crate::streams::Pipe;
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;
use tn_storage::consensus::ConsensusChain;
use tn_types::gas_accumulator::RewardsCounter;
use tn_types::*;
use tokio::io::{AsyncReadExt, AsyncSeekExt};

pub const CHECK: Check = Check {
    id: "P09",
    rule: "an evaluation is one seeded history of saves, epoch changes, reads, restarts and imports over two consensus stores under I/O faults, kills and power loss; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-storage consensus (chain, slots, import), consensus_pack, epoch_records, archive::*", "tn-types consensus output, header, committee, codec", "tokio, std threads"],
    stub: &["disk: simulated file system below the libc calls", "kernel: threads, futexes, clock", "network: a byte pipe with delays, fragments, cuts and changed bytes", "blst: a stand-in without pairing arithmetic"],
    assumptions: &["fsync makes a file's contents durable unless it fails", "a process kill loses nothing already handed to the kernel", "the store's directory exists before faults start", "after a failed save or persist the node stops, as its callers do", "what is saved for a number is always the same output (P01)"],
    gen,
    run,
    runs: (20_000, 300_000),
    wall: (40, 700),
    stuck_is_violation: true,
    max_steps: 100_000_000,
};
const A: &str = "/sim/a/chain";
const B: &str = "/sim/b/chain";

fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P09", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    let epochs = 1 + r.below(3);
    for _ in 0..epochs {
        // outputs, seed, how large the batches get
        let big = if r.chance(1, 6) { 9_000 } else { 300 };
        sc.ops.push(Op::new("epoch", &[1 + { let m = if r.chance(1, 10) { 60 } else { 9 }; r.below(m) as i64 }, r.below(1 << 40) as i64, big]));
    }
    let incs = 1 + r.below(4);
    for i in 0..incs {
        for _ in 0..2 + r.below(9) {
            let o = match r.below(10) {
                // how many outputs; 1 in so many is not persisted (0 none)
                0..=5 => Op::new("save", &[1 + r.below(5) as i64, if r.chance(1, 5) { 1 + r.below(3) as i64 } else { 0 }]),
                6 => Op::new("reader", &[1 + r.below(30) as i64, r.below(1 << 40) as i64]),
                7 => Op::new("persist", &[]),
                _ => Op::new("look", &[1 + r.below(12) as i64, r.below(1 << 40) as i64]),
            };
            sc.ops.push(o);
        }
        if i + 1 < incs || r.chance(1, 2) {
            let t = if r.chance(1, 3) { 0 } else { { let m = if r.chance(1, 2) { 3_000_000 } else { 60_000_000 }; 1000 + r.below(m) as i64 } };
            sc.ops.push(Op::new("end", &[t, if r.chance(1, 3) { -1 } else { r.below(5) as i64 }]));
        }
    }
    for j in 0..r.below(4) {
        let mut f = match r.below(7) {
            0 => gen_soft(&mut r, 80, 0),
            1..=4 => gen_crash(&mut r, 90, 0),
            _ => gen_err(&mut r, 80, 0),
        };
        f.a.resize(6, 0);
        f.a.push((j % incs) as i64);
        sc.faults.push(f);
    }
    sc.set("torn", r.chance(1, 6) as i64);
    sc.set("imports", r.chance(1, 2) as i64);
    // how many of the epoch's outputs the importer holds already
    sc.set("own", r.below(6) as i64);
    // 0 as sent, 1 cut short, 2 a byte changed, 3 another epoch's, 4 with the wrong previous record, 5 reset, 6 too long
    sc.set("bend", if r.chance(1, 2) { 0 } else { 1 + r.below(6) as i64 });
    sc.set("where", r.below(1 << 30) as i64);
    sc.set("bepoch", r.below(3) as i64);
    sc.set("bend_ns", if r.chance(1, 3) { 1000 + r.below(40_000_000) as i64 } else { 0 });
    sc.set("bpower", r.below(6) as i64 - 1);
    sc.set("partial", r.chance(1, 3) as i64);
    if r.chance(1, 2) {
        let mut f = if r.chance(3, 4) { gen_crash(&mut r, 150, 0) } else { gen_err(&mut r, 100, 0) };
        f.a.resize(6, 0);
        f.a.push(100);
        sc.faults.push(f);
    }
    sc
}

struct World {
    outs: Vec<ConsensusOutput>,
    /// the last number of each epoch
    last: Vec<u64>,
    records: Vec<EpochRecord>,
    committees: Vec<Committee>,
}
impl World {
    fn epoch_of(&self, n: u64) -> usize {
        self.last.iter().position(|l| n <= *l).unwrap()
    }
    fn first(&self, e: usize) -> u64 {
        if e == 0 {
            1
        } else {
            self.last[e - 1] + 1
        }
    }
    fn out(&self, n: u64) -> Option<&ConsensusOutput> {
        self.outs.get((n as usize).wrapping_sub(1))
    }
    /// The epoch a node works in that has executed `n` outputs.
    fn working(&self, n: u64) -> usize {
        if n == 0 {
            0
        } else {
            let e = self.epoch_of(n);
            e + (n == self.last[e]) as usize
        }
    }
    fn prev(&self, e: usize) -> EpochRecord {
        if e == 0 {
            let k: Vec<_> = self.committees[0].bls_keys().into_iter().collect();
            EpochRecord { epoch: 0, committee: k.clone(), next_committee: k, ..Default::default() }
        } else {
            self.records[e - 1].clone()
        }
    }
    fn build(sc: &Scenario) -> Self {
        let mut r = Rng::new(simrt::mix(sc.seed, "world"));
        use rand::SeedableRng;
        let mut kr = rand::rngs::StdRng::seed_from_u64(sc.seed);
        let keys: Vec<_> = (0..5).map(|_| BlsKeypair::generate(&mut kr)).collect();
        let committee = |e: usize| {
            let a: BTreeMap<_, _> = (0..4)
                .map(|i| *keys[(i + e) % 5].public())
                .map(|k| (k, Authority::new_for_test(k, Address::repeat_byte(k.to_bytes()[3]))))
                .collect();
            Committee::new_for_test(a, e as u32, BTreeMap::new())
        };
        let mut w = World { outs: vec![], last: vec![], records: vec![], committees: vec![committee(0)] };
        let mut parent = ConsensusHeaderDigest::default();
        let mut old: Vec<Batch> = vec![];
        for o in sc.ops.iter().filter(|o| o.k == "epoch") {
            let e = w.last.len();
            let c = w.committees[e].clone();
            let auths = c.authorities();
            let sig = keys[e % 5].sign(&[e as u8]);
            let mut rounds = [0u32; 4];
            let mut prev_dag: Option<CommittedSubDag> = None;
            for i in 0..o.u(0).max(1) {
                let round = 2 * (i as u32 + 1);
                let mut certs = vec![];
                let mut list: Vec<CertifiedBatch> = vec![];
                let mut digests = VecDeque::new();
                let n = 1 + r.below(4);
                let mut seen: BTreeSet<BlockHash> = Default::default();
                for k in 0..n {
                    let a = r.below(4) as usize;
                    let leader = k + 1 == n;
                    let rd = if leader { round } else { (rounds[a] + 1 + r.below(2) as u32).min(round) };
                    rounds[a] = rounds[a].max(rd);
                    let mut b = HeaderBuilder::default().author(auths[a].id()).epoch(e as u32).round(rd).created_at(1000 + 100 * w.outs.len() as u64 + rd as u64 + k).seed_signature(sig);
                    let mut mine = vec![];
                    for _ in 0..r.below(4) {
                        let x = if !old.is_empty() && r.chance(1, 8) {
                            simrt::probe("batch_seen_before");
                            r.pick(&old).clone()
                        } else {
                            let txs = (0..r.below(4)).map(|_| { let l = r.below(o.u(2).max(2)) as usize; body(r.next(), l) }).collect();
                            Batch { transactions: txs, epoch: e as u32, beneficiary: Address::repeat_byte(r.below(200) as u8), base_fee_per_gas: 7 + r.below(3), worker_id: 0, received_at: None }
                        };
                        // one header's payload is a map: a batch appears once in it
                        if mine.iter().any(|y: &Batch| y.digest() == x.digest()) {
                            continue;
                        }
                        if !seen.insert(x.digest()) {
                            simrt::probe("batch_twice_in_one_output");
                        }
                        old.push(x.clone());
                        b = b.with_payload_batch(&x, 0);
                        digests.push_back(x.digest());
                        mine.push(x);
                    }
                    let mut cert = Certificate::default();
                    cert.update_header_for_test(b.build());
                    certs.push(cert);
                    list.push(CertifiedBatch { address: auths[a].execution_address(), batches: mine });
                }
                let mut rep = ReputationScores::new(&c);
                rep.add_score(&auths[r.below(4) as usize].id(), r.below(9));
                rep.final_of_schedule = r.chance(1, 6);
                let leader = certs.last().unwrap().clone();
                let dag = CommittedSubDag::new(certs, leader, i, rep, prev_dag.clone(), EpochSeedChainValue::genesis_placeholder());
                prev_dag = Some(dag.clone());
                let number = w.outs.len() as u64 + 1;
                // an output without any batch carries no list of them
                let out = if digests.is_empty() { ConsensusOutput::new_with_subdag(dag, parent, number) } else { ConsensusOutput::new(dag, parent, number, false, digests, list) };
                parent = out.consensus_header_hash();
                w.outs.push(out);
            }
            let last = w.outs.len() as u64;
            w.last.push(last);
            w.committees.push(committee(e + 1));
            w.records.push(EpochRecord {
                epoch: e as u32,
                committee: c.bls_keys().into_iter().collect(),
                next_committee: w.committees[e + 1].bls_keys().into_iter().collect(),
                parent_hash: w.records.last().map(|p| p.digest()).unwrap_or_default(),
                final_state: BlockNumHash::new(last * 3, B256::repeat_byte(e as u8 + 1)),
                final_consensus: ConsensusNumHash::new(last, parent),
            });
        }
        w
    }
}
fn same(a: &ConsensusOutput, b: &ConsensusOutput) -> bool {
    a.consensus_header_hash() == b.consensus_header_hash() && encode(a) == encode(b)
}

/// What one store was told and what it answered.
#[derive(Default)]
struct Hist {
    /// saved and made durable, by a call that reported success
    acked: u64,
    /// a save of it was begun
    begun: u64,
    /// saved by this store and made durable, not recovered or imported
    slot: u64,
    /// the epoch it works in, once it got there
    entered: usize,
}
#[derive(Clone)]
struct Node {
    w: Arc<World>,
    h: Shared<Hist>,
    /// no further than this number
    most: u64,
    /// a power loss hit while a digest index had writes that were not synced (a known finding)
    torn: Shared<bool>,
    /// report what that does, or leave it out
    torn_judged: bool,
}
fn hurt() -> bool {
    use simrt::fs::Kind::*;
    disk().faults.iter().any(|f| matches!(f.kind, Eio | Enospc) && f.hit > f.nth)
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}
const TORN: &str = "torn-digest-index";

impl Node {
    fn fine(&self, what: &str, e: impl std::fmt::Display) {
        if self.torn.with(|t| *t) && !hurt() {
            simrt::probe("refused_by_torn_index");
            if self.torn_judged {
                violate(TORN, format!("after a power loss or a kill in the middle of the writes to a digest index, {what} failed: {e}"));
            }
            return;
        }
        check!(hurt(), "refused", "{what} failed though no disk fault took effect: {e}");
    }
    /// A write to a digest index was cut short: in half of a bucket.
    fn after_life(&self) {
        let d = disk();
        if d.cut_short.iter().any(|f| f.ends_with(".hdx") || f.ends_with(".odx")) {
            simrt::probe("digest_index_write_cut_short");
            self.torn.with(|t| *t = true);
        }
        d.cut_short.clear();
    }
    fn power_loss(&self, vol: &str, mode: u64, r: &mut Rng) {
        let d = disk();
        let files: Vec<_> = d.files(&format!("/sim/{vol}")).into_iter().filter(|f| f.ends_with(".hdx") || f.ends_with(".odx")).map(|f| (d.peek(&f), f)).collect();
        d.power_loss(vol, mode, r);
        // a file that is gone as a whole is made anew
        let torn = files.iter().any(|(was, f)| d.peek(f).is_some_and(|x| Some(x) != *was));
        if torn {
            simrt::probe("power_loss_with_unsynced_digest_index");
            self.torn.with(|t| *t = true);
        }
    }

    fn open(&self, dir: &str) -> Option<ConsensusChain> {
        match ConsensusChain::new(PathBuf::from(dir), self.w.committees[0].clone()) {
            Ok(c) => Some(c),
            Err(e) => {
                self.fine("opening the store", e);
                None
            }
        }
    }
    /// What a node does when it starts: learn where it is, enter that epoch, find the next number.
    async fn start(&self, c: &ConsensusChain) -> Option<u64> {
        let acked = self.h.with(|h| h.acked);
        let e = self.w.working(acked);
        for k in 0..e {
            if let Err(x) = c.epochs().save_record(self.w.records[k].clone()).await {
                self.fine("saving an epoch record", x);
                return None;
            }
        }
        if e < self.w.last.len() || e > 0 {
            if let Err(x) = c.new_epoch(self.w.prev(e), self.w.committees[e].clone()).await {
                self.fine("entering the epoch", x);
                return None;
            }
        }
        self.h.with(|h| h.entered = e);
        match c.consensus_header_latest().await {
            Ok(l) => {
                let n = l.as_ref().map(|l| l.number).unwrap_or(0);
                if !hurt() {
                    // what was imported counts as latest only once it has been replayed
                    let (lo, hi) = self.h.with(|h| (if self.most == u64::MAX { h.slot } else { h.acked }, h.begun));
                    check!(n >= lo, "lost", "after a restart the latest output is {n}, though {lo} was acknowledged as durable");
                    check!(n <= hi, "invented", "after a restart the latest output is {n}, only {hi} were ever saved");
                    if let Some(l) = l {
                        check!(l.digest() == self.w.out(n).unwrap().consensus_header_hash(), "changed", "the latest output {n} is not the one saved");
                    }
                }
                Some(n + 1)
            }
            Err(x) => {
                self.fine("reading the latest output", x);
                None
            }
        }
    }
    /// Save one output as the subscriber does. False: the node stops.
    async fn save(&self, c: &ConsensusChain, n: u64, persist: bool) -> bool {
        let o = self.w.out(n).unwrap().clone();
        self.h.with(|h| h.begun = h.begun.max(n));
        if let Err(x) = c.save_consensus_output(o).await {
            self.fine(&format!("saving output {n}"), x);
            return false;
        }
        if persist && !self.persist(c, n, n).await {
            return false;
        }
        let e = self.w.epoch_of(n);
        if n == self.w.last[e] {
            // the epoch closes
            if !persist && !self.persist(c, n, n).await {
                return false;
            }
            if let Err(x) = c.epochs().save_record(self.w.records[e].clone()).await {
                self.fine("saving an epoch record", x);
                return false;
            }
            if let Err(x) = c.epochs().persist().await {
                self.fine("persisting the epoch records", x);
                return false;
            }
            if let Err(x) = c.new_epoch(self.w.prev(e + 1), self.w.committees[e + 1].clone()).await {
                self.fine("entering the next epoch", x);
                return false;
            }
            self.h.with(|h| h.entered = e + 1);
        }
        true
    }
    async fn persist(&self, c: &ConsensusChain, n: u64, saved: u64) -> bool {
        match c.persist_current().await {
            Ok(()) => {
                self.h.with(|h| {
                    h.acked = h.acked.max(n);
                    if !hurt() {
                        h.slot = h.slot.max(saved);
                    }
                });
                true
            }
            Err(x) => {
                self.fine("persisting", x);
                false
            }
        }
    }
    /// One read, judged.
    async fn look(&self, c: &ConsensusChain, n: u64, kind: u64, r: &mut Rng) {
        let w = &self.w;
        let lo = self.h.with(|h| h.acked);
        let e = w.out(n).map(|_| w.epoch_of(n)).unwrap_or(0);
        let must = n <= lo;
        let gone = |what: &str, err: Option<String>| {
            if !hurt() && must {
                if what.starts_with("by digest") || what.starts_with("a batch") {
                    if self.torn.with(|t| *t) {
                        simrt::probe("lookup_lost_by_torn_index");
                        if self.torn_judged {
                            violate(TORN, format!("after a power loss or a kill in the middle of the writes to a digest index, {what} {n} is not found"));
                        }
                        return;
                    }
                }
                violate("lost", format!("{what} {n} (epoch {e}), acknowledged as durable, is not there: {}", err.unwrap_or_default()));
            }
        };
        let real = |what: &str| {
            let hi = self.h.with(|h| h.begun);
            check!(n <= hi && w.out(n).is_some(), "invented", "{what} {n} was found, but only {hi} were ever saved");
        };
        match kind {
            0 => match c.consensus_header_by_number(n).await {
                Ok(Some(h)) => {
                    real("header");
                    check!(h.digest() == w.out(n).unwrap().consensus_header_hash(), "changed", "the header of {n} is not the one saved");
                }
                Ok(None) => gone("the header of", None),
                Err(x) => gone("the header of", Some(x.to_string())),
            },
            1 => {
                let Some(o) = w.out(n) else { return };
                match c.consensus_header_by_digest(e as u32, o.consensus_header_hash()).await {
                    Ok(Some(h)) => {
                        real("header by digest");
                        check!(h.number == n && h.digest() == o.consensus_header_hash(), "changed", "the header found by digest for {n} is another");
                    }
                    Ok(None) => gone("by digest, the header of", None),
                    Err(x) => gone("by digest, the header of", Some(x.to_string())),
                }
                // a digest nobody saved
                let d = ConsensusHeaderDigest::from(B256::from(U256::from(r.next())));
                if let Ok(Some(h)) = c.consensus_header_by_digest(e as u32, d).await {
                    violate("invented", format!("a digest that was never saved gives header {}", h.number));
                }
            }
            2 => match c.consensus_output_by_number(n).await {
                Ok(Some(o)) => {
                    real("output");
                    check!(same(&o, w.out(n).unwrap()), "changed", "output {n} is not the one saved");
                }
                Ok(None) => gone("output", None),
                Err(x) => gone("output", Some(x.to_string())),
            },
            3 => match c.consensus_output_bytes_by_number(n).await {
                Ok(Some(b)) => {
                    real("the bytes of output");
                    let o = w.out(n).unwrap();
                    match c.decode_consensus_output(e as u32, b.clone()).await {
                        Ok(d) => check!(same(&d, o), "changed", "the bytes of output {n} decode to another output"),
                        Err(x) => {
                            if !hurt() {
                                violate("changed", format!("the bytes of output {n} do not decode: {x}"));
                            }
                        }
                    }
                    match c.stream_decode_consensus_output(e as u32, &b[..], o.consensus_header_hash()).await {
                        Ok(d) => check!(same(&d, o), "changed", "the stream of output {n} decodes to another output"),
                        Err(x) => {
                            if !hurt() {
                                violate("changed", format!("the stream of output {n} does not decode: {x}"));
                            }
                        }
                    }
                    let d = ConsensusHeaderDigest::from(B256::from(U256::from(r.next())));
                    check!(c.stream_decode_consensus_output(e as u32, &b[..], d).await.is_err(), "unverified", "a stream of output {n} was accepted for another digest");
                }
                Ok(None) => gone("the bytes of output", None),
                Err(x) => gone("the bytes of output", Some(x.to_string())),
            },
            4 => {
                let Some(o) = w.out(n) else { return };
                let all: Vec<Batch> = o.batches().iter().flat_map(|b| b.batches.clone()).collect();
                if all.is_empty() {
                    return;
                }
                let x = r.pick(&all).clone();
                let got = c.get_batches(e as u32, [x.digest()].iter()).await;
                check!(got.len() < 2 && got.iter().all(|g| *g == x), "changed", "a batch of output {n} is not the one saved");
                if got.is_empty() {
                    gone("a batch of output", None);
                }
                let cur = w.working(self.h.with(|h| h.acked));
                if cur == e && must && !hurt() && !self.torn.with(|t| *t) {
                    check!(c.contains_current_batch(x.digest()).await || w.working(self.h.with(|h| h.acked)) != e, "lost", "a batch of output {n} of the current epoch is reported absent");
                }
                let d = B256::from(U256::from(r.next()));
                check!(c.get_batches(e as u32, [d].iter()).await.is_empty(), "invented", "a batch nobody saved was found");
            }
            5 => {
                // what consensus recovery reads
                let Some(_) = w.out(n) else { return };
                let got = c.read_last_committed(e as u32).await;
                let hi = self.h.with(|h| h.begun);
                let (a, b) = (lo.clamp(w.first(e) - 1, w.last[e]), hi.clamp(w.first(e) - 1, w.last[e]));
                match got {
                    Ok(m) => {
                        let ok = (a..=b).any(|t| self.committed(e, t) == m);
                        check!(ok || hurt(), "recovery", "the last committed rounds of epoch {e} are {:?}, not those of any of outputs {a}..={b}: {:?}", m.values(), self.committed(e, a).values());
                    }
                    Err(x) => {
                        if !hurt() && lo >= w.first(e) {
                            violate("lost", format!("the last committed rounds of epoch {e} cannot be read: {x}"));
                        }
                    }
                }
                match c.read_latest_commit_with_final_reputation_scores(e as u32).await {
                    Ok(d) => {
                        let hi = self.h.with(|h| h.begun);
                        let b = hi.clamp(w.first(e) - 1, w.last[e]);
                        let d = d.map(|d| encode(&d));
                        let ok = (a..=b).any(|t| (w.first(e)..=t).rev().map(|k| w.out(k).unwrap().sub_dag()).find(|s| s.reputation_scores().final_of_schedule).map(encode) == d);
                        check!(ok || hurt(), "recovery", "the last final reputation scores of epoch {e} are not those of any of outputs {a}..={b}");
                    }
                    Err(x) => {
                        if !hurt() && lo >= w.first(e) {
                            violate("lost", format!("the reputation scores of epoch {e} cannot be read: {x}"));
                        }
                    }
                }
            }
            6 => {
                let cur = w.working(lo);
                if cur >= w.last.len() || self.h.with(|h| h.entered) != cur {
                    return;
                }
                let rc = RewardsCounter::new_for_p09(&w.committees[cur]);
                let upto = 2 * r.below(14) as u32;
                let got = c.count_leaders(upto, rc.clone()).await;
                let (lo2, hi) = self.h.with(|h| (h.acked, h.begun));
                if got.is_ok() && w.working(lo2) == cur {
                    let m = rc.get_address_counts();
                    let want = |t: u64| {
                        let mut m: BTreeMap<Address, u32> = BTreeMap::new();
                        for k in w.first(cur)..=t {
                            let s = w.out(k).unwrap().sub_dag();
                            if s.leader_round() <= upto {
                                *m.entry(w.committees[cur].authority(s.leader().author()).unwrap().execution_address()).or_default() += 1;
                            }
                        }
                        m
                    };
                    let (a, b) = (lo.clamp(w.first(cur) - 1, w.last[cur]), hi.clamp(w.first(cur) - 1, w.last[cur]));
                    check!((a..=b).any(|t| want(t) == m) || hurt(), "recovery", "the leaders of epoch {cur} up to round {upto} are counted as {m:?}, not {:?}", want(a));
                } else if let Err(x) = got {
                    self.fine("counting leaders", x);
                }
            }
            _ => {
                let a = self.h.with(|h| h.slot);
                let l = c.latest_consensus_number();
                let b = self.h.with(|h| h.begun);
                check!((a..=b).contains(&l), "latest", "the latest number is {l}; {a} is acknowledged and {b} begun");
            }
        }
    }
    fn committed(&self, e: usize, t: u64) -> HashMap<AuthorityIdentifier, Round> {
        let mut m = HashMap::new();
        let from = self.w.first(e).max((t + 1).saturating_sub(50));
        for k in from..=t {
            for h in self.w.out(k).unwrap().sub_dag().headers() {
                let x = m.entry(h.author().clone()).or_insert(0);
                *x = (*x).max(h.round());
            }
        }
        m
    }
    async fn looks(&self, c: &ConsensusChain, seed: u64, k: u64) {
        let mut r = Rng::new(seed);
        for _ in 0..k {
            let hi = self.h.with(|h| h.begun);
            let n = if r.chance(1, 3) { hi + 3 - r.below(5).min(hi + 2) } else { 1 + r.below(hi + 1) };
            let kind = r.below(8);
            self.look(c, n, kind, &mut r).await;
        }
    }
    /// Everything, from the first number to beyond the last.
    async fn sweep(&self, c: &ConsensusChain, r: &mut Rng) {
        let hi = self.h.with(|h| h.begun);
        let mut had = true;
        for n in 1..=hi + 2 {
            for k in 0..5 {
                self.look(c, n, k, r).await;
            }
            let got = matches!(c.consensus_output_by_number(n).await, Ok(Some(_)));
            check!(had || !got || hurt(), "hole", "output {n} is there but the one before it is not");
            had = got;
        }
        for k in 5..8 {
            for e in 0..self.w.last.len() {
                if self.w.working(self.h.with(|h| h.acked)) >= e {
                    self.look(c, self.w.first(e), k, r).await;
                }
            }
        }
        let acked = self.h.with(|h| h.acked);
        for e in 0..self.w.working(acked) {
            let x = c.epochs().record_by_epoch(e as u32).await;
            if x.is_none() && self.torn.with(|t| *t) {
                // the records have a digest index of their own, and are derived anew when missing
                simrt::probe("record_lost_by_torn_index");
                continue;
            }
            check!(hurt() || x.as_ref().map(|x| x.digest()) == Some(self.w.records[e].digest()), "lost", "the record of epoch {e} is {x:?}");
        }
        state(hash_str(&format!("{acked} {hi}")));
    }
}
trait New {
    fn new_for_p09(c: &Committee) -> Self;
}
impl New for RewardsCounter {
    fn new_for_p09(c: &Committee) -> Self {
        let r = RewardsCounter::default();
        r.set_committee(c.clone());
        r
    }
}

fn life(n: &Node, dir: &str, ops: &[Op]) {
    let rt = rt();
    let Some(c) = n.open(dir) else { return };
    let mut readers = vec![];
    let ok = rt.block_on(async {
        let Some(mut next) = n.start(&c).await else { return false };
        let mut saved = 0;
        for o in ops {
            match o.k.as_str() {
                "save" => {
                    for k in 0..o.u(0) {
                        if next > n.most {
                            break;
                        }
                        if !n.save(&c, next, o.u(1) == 0 || k % (o.u(1) + 1) != 0).await {
                            return false;
                        }
                        saved = next;
                        next += 1;
                    }
                }
                "persist" => {
                    if !n.persist(&c, next - 1, saved).await {
                        return false;
                    }
                }
                "look" => n.looks(&c, o.u(1), o.u(0)).await,
                "reader" => {
                    let (n, c, o) = (n.clone(), c.clone(), o.clone());
                    readers.push(std::thread::spawn(move || {
                        self::rt().block_on(n.looks(&c, o.u(1), o.u(0)));
                        drop(c);
                    }));
                }
                _ => {}
            }
        }
        true
    });
    for j in readers {
        let _ = j.join();
    }
    let last = n.h.with(|h| h.begun);
    drop(c);
    if ok && !hurt() {
        // the store was closed in order: everything is durable
        n.h.with(|h| h.acked = h.acked.max(last));
    }
}

fn run(sc: &Scenario) {
    let mut r = Rng::new(simrt::mix(sc.seed, "run"));
    disk().mkvol("a");
    disk().mkvol("b");
    let w = Arc::new(World::build(sc));
    let node = Node { h: Shared::new(Hist::default()), most: w.outs.len() as u64, w: w.clone(), torn: Shared::new(false), torn_judged: sc.p("torn") != 0 };
    process("create", FOREVER, || {
        std::fs::create_dir_all(A).unwrap();
        std::fs::create_dir_all(B).unwrap();
    });
    disk().sync_all("a");
    disk().sync_all("b");
    let mut ops: Vec<Vec<Op>> = vec![vec![]];
    let mut ends = vec![];
    for o in &sc.ops {
        match o.k.as_str() {
            "epoch" => {}
            "end" => {
                ends.push(o.clone());
                ops.push(vec![]);
            }
            _ => ops.last_mut().unwrap().push(o.clone()),
        }
    }
    ends.push(Op::new("end", &[0, -1]));
    for (i, ops) in ops.into_iter().enumerate() {
        let end = &ends[i];
        for f in sc.faults.iter().filter(|f| f.u(6) as usize == i) {
            arm("a", f, &[""]);
        }
        let n2 = node.clone();
        let limit = if end.u(0) == 0 { FOREVER } else { end.u(0) };
        let (done, panics) = process_may_panic("store", limit, move || life(&n2, A, &ops));
        if !panics.is_empty() {
            check!(hurt(), "panic", "{}", panics.join(" | "));
        }
        if end.u(0) == 0 && !done && disk().faults.iter().all(|f| f.hit <= f.nth) {
            violate("stuck", "the store's threads did not finish");
        }
        let broken = fired("s") > 0;
        if hurt() {
            // the file with the latest number may have been unreadable: it started over
            node.h.with(|h| h.slot = 0);
        }
        disarm();
        node.after_life();
        if end.arg(1) >= 0 || broken {
            node.power_loss("a", end.u(1), &mut r);
        }
        let n2 = node.clone();
        let seed = r.next();
        process("reopen", FOREVER, move || {
            let Some(c) = n2.open(A) else { return };
            let rt = rt();
            rt.block_on(async {
                let Some(next) = n2.start(&c).await else { return };
                // the pack can hold more than the latest number says
                let held = match c.latest_consensus_header_from_pack(n2.h.with(|h| h.entered) as u32).await {
                    Ok(l) => l.map_or(0, |l| l.number),
                    Err(x) => {
                        n2.fine("reading the latest output of the pack", x);
                        return;
                    }
                };
                check!(hurt() || held <= n2.h.with(|h| h.begun), "invented", "the pack holds output {held}, which was never saved");
                n2.h.with(|h| h.begun = (next - 1).max(held));
                n2.sweep(&c, &mut Rng::new(seed)).await;
            });
            drop(c);
            n2.h.with(|h| h.acked = h.begun);
        });
    }
    if sc.p("imports") != 0 {
        import(sc, &node, &mut r);
    }
}

/// A second store takes what the first has.
fn import(sc: &Scenario, src: &Node, r: &mut Rng) {
    let w = src.w.clone();
    let acked = src.h.with(|h| h.acked);
    let full = w.working(acked).min(w.last.len());
    let streams: Shared<Vec<Vec<u8>>> = Shared::new(vec![]);
    let part: Shared<Option<(u64, Vec<u8>)>> = Shared::new(None);
    let (s2, n2, p2) = (streams.clone(), src.clone(), part.clone());
    let cut = r.next();
    process("source", FOREVER, move || {
        let Some(c) = n2.open(A) else { return };
        let rt = rt();
        rt.block_on(async {
            n2.start(&c).await;
            for e in 0..full {
                match c.get_epoch_stream(e as u32).await {
                    Ok(mut s) => {
                        let mut v = vec![];
                        s.read_to_end(&mut v).await.unwrap();
                        s2.with(|x| x.push(v));
                    }
                    Err(x) => {
                        n2.fine(&format!("streaming the complete epoch {e}"), x);
                        return;
                    }
                }
            }
            check!(c.get_epoch_stream(full as u32 + 7).await.is_err(), "invented", "a stream of an epoch nobody saved");
            if full < n2.w.last.len() {
                check!(c.get_epoch_stream(full as u32).await.is_err(), "unfinished", "epoch {full} is not complete, yet it is streamed as such");
                if acked >= n2.w.first(full) {
                    let k = n2.w.first(full) + cut % (acked + 1 - n2.w.first(full));
                    match c.get_partial_epoch_stream(full as u32, k).await {
                        Ok((mut s, len)) => {
                            s.seek(std::io::SeekFrom::Start(0)).await.unwrap();
                            let mut v = vec![0; len as usize];
                            s.read_exact(&mut v).await.unwrap();
                            p2.with(|p| *p = Some((k, v)));
                        }
                        Err(x) => violate("refused", format!("the stream of outputs up to {k} of epoch {full} is refused: {x}")),
                    }
                }
            }
        });
        drop(c);
    });
    let full = full.min(streams.with(|s| s.len()));
    let bend = sc.p("bend");
    let at = (sc.p("bepoch") as usize).min(full.saturating_sub(1));
    let dst = Node { h: Shared::new(Hist::default()), most: u64::MAX, w: w.clone(), torn: Shared::new(false), torn_judged: sc.p("torn") != 0 };
    for e in 0..full {
        let bytes = streams.with(|s| s[e].clone());
        // the store's own part of it
        let own = if e == at { sc.p("own") as u64 % (w.last[e] - w.first(e) + 1) } else { 0 };
        let bad = e == at && bend != 0;
        let seed = r.next();
        let tries = if e == at { 3 } else { 1 };
        for t in 0..tries {
            let faulty = e == at && t < 2;
            let d = dst.clone();
            let (mut bytes, streams) = (bytes.clone(), streams.clone());
            let mut rr = Rng::new(seed + t);
            let mut reset = None;
            let mut prev = w.prev(e);
            let mut rec = w.records[e].clone();
            if faulty && bad && t == 0 {
                let p = sc.p("where") as usize;
                match bend {
                    1 => bytes.truncate(p % bytes.len()),
                    2 => {
                        let k = p % bytes.len();
                        bytes[k] ^= 1 << (p % 8);
                    }
                    3 => bytes = streams.with(|s| s[(e + 1) % s.len()].clone()),
                    4 => prev.final_consensus.hash = ConsensusHeaderDigest::from(B256::repeat_byte(9)),
                    5 => reset = Some(p % bytes.len()),
                    _ => {
                        // the record ends the epoch earlier than the stream does
                        if w.last[e] > w.first(e) {
                            let k = w.last[e] - 1;
                            rec.final_consensus = ConsensusNumHash::new(k, w.out(k).unwrap().consensus_header_hash());
                        }
                    }
                }
            }
            let changed = faulty && t == 0 && (bytes != streams.with(|s| s[e].clone()) || prev != w.prev(e) || reset.is_some() || rec != w.records[e]);
            if faulty && t == 1 {
                for f in sc.faults.iter().filter(|f| f.u(6) == 100) {
                    arm("b", f, &[""]);
                }
            }
            let limit = if faulty && t == 1 && sc.p("bend_ns") > 0 { sc.p("bend_ns") as u64 } else { FOREVER };
            let (done, panics) = process_may_panic("importer", limit, move || {
                let Some(c) = d.open(B) else { return };
                let rt = rt();
                rt.block_on(async {
                    let Some(mut next) = d.start(&c).await else { return };
                    while t == 0 && next < d.w.first(e) + own {
                        if !d.save(&c, next, true).await {
                            return;
                        }
                        next += 1;
                    }
                    let have = d.h.with(|h| h.acked);
                    if !changed {
                        d.h.with(|h| h.begun = h.begun.max(d.w.last[e]));
                    }
                    let pipe = Pipe { data: bytes, at: 0, frag: 1 + rr.below(5000), stall: rr.below(30), rng: Rng::new(rr.next()), reset, sleep: None, asked: 0 };
                    let res = c.stream_import(pipe, &rec, &prev, Duration::from_secs(900)).await;
                    match res {
                        Ok(()) => {
                            simrt::probe("imported");
                            check!(!changed || hurt() || bend == 2 || bend == 6 || rec.final_consensus.number <= have, "unverified", "an import of epoch {e} with a bent stream (kind {bend}) succeeded");
                            // what it holds now is exactly the epoch
                            for n in d.w.first(e)..=rec.final_consensus.number {
                                match c.consensus_output_by_number(n).await {
                                    Ok(Some(o)) => check!(same(&o, d.w.out(n).unwrap()), "unverified", "imported output {n} differs from the source's"),
                                    x => check!(hurt(), "lost", "output {n} of the imported epoch {e} is not there: {:?}", x.map(|_| ())),
                                }
                            }
                            if rec == d.w.records[e] {
                                d.h.with(|h| {
                                    h.acked = h.acked.max(d.w.last[e]);
                                    h.begun = h.begun.max(d.w.last[e]);
                                });
                                // the outputs are then replayed in order
                                if let Err(x) = c.epochs().save_record(d.w.records[e].clone()).await {
                                    d.fine("saving an epoch record", x);
                                    return;
                                }
                                for n in next..=d.w.last[e] {
                                    if let Err(x) = c.save_consensus_output(d.w.out(n).unwrap().clone()).await {
                                        d.fine(&format!("replaying output {n} over the import"), x);
                                        return;
                                    }
                                }
                                match c.persist_current().await {
                                    Ok(()) if !hurt() && next <= d.w.last[e] => d.h.with(|h| h.slot = h.slot.max(d.w.last[e])),
                                    Ok(()) => {}
                                    Err(x) => d.fine("persisting after an import", x),
                                }
                            }
                        }
                        Err(x) => {
                            simrt::probe("import_refused");
                            check!(changed || hurt(), "refused", "the import of epoch {e} from a complete store failed: {x}");
                            for n in 1..=have {
                                d.look(&c, n, 2, &mut rr).await;
                            }
                        }
                    }
                });
                drop(c);
            });
            if !panics.is_empty() {
                check!(hurt(), "panic", "{}", panics.join(" | "));
            }
            if limit == FOREVER && !done && disk().faults.iter().all(|f| f.hit <= f.nth) {
                violate("stuck", "the import did not finish");
            }
            let broken = fired("s") > 0;
            disarm();
            dst.after_life();
            if faulty && t == 1 && (sc.p("bpower") >= 0 || broken) {
                dst.power_loss("b", sc.p("bpower").max(0) as u64, r);
            }
            let (d, seed) = (dst.clone(), r.next());
            process("reopen", FOREVER, move || {
                let Some(c) = d.open(B) else { return };
                rt().block_on(async {
                    if d.start_import(&c).await {
                        d.sweep(&c, &mut Rng::new(seed)).await;
                    }
                });
                drop(c);
            });
        }
    }
    let Some((k, bytes)) = part.with(|p| p.take()) else { return };
    if sc.p("partial") == 0 {
        return;
    }
    let (d, seed) = (dst.clone(), r.next());
    process("staging", FOREVER, move || {
        let Some(c) = d.open(B) else { return };
        let mut rr = Rng::new(seed);
        rt().block_on(async {
            if !d.start_import(&c).await {
                return;
            }
            let mut rec = d.w.records[full].clone();
            rec.final_consensus = ConsensusNumHash::new(k, d.w.out(k).unwrap().consensus_header_hash());
            let wrong = rr.chance(1, 3);
            let mut bytes = bytes;
            if wrong {
                if rr.chance(1, 2) {
                    let l = rr.below(bytes.len() as u64) as usize;
                    bytes.truncate(l);
                } else {
                    rec.final_consensus.hash = ConsensusHeaderDigest::from(B256::repeat_byte(3));
                }
            }
            let pipe = Pipe { data: bytes, at: 0, frag: 1 + rr.below(5000), stall: rr.below(30), rng: Rng::new(rr.next()), reset: None, sleep: None, asked: 0 };
            match c.import_partial_to_staging(pipe, &rec, &d.w.prev(full), Duration::from_secs(900)).await {
                Ok(()) => {
                    check!(!wrong, "unverified", "a bent partial stream was staged");
                    check!(c.staging_final() == Some(k), "changed", "the staged prefix ends at {:?}, not {k}", c.staging_final());
                    for n in d.w.first(full)..=d.w.last[full] {
                        match c.consensus_output_by_number(n).await {
                            Ok(Some(o)) => check!(n <= k && same(&o, d.w.out(n).unwrap()), "changed", "staged output {n} is not the source's"),
                            _ => check!(n > k, "lost", "staged output {n} is not there"),
                        }
                    }
                    simrt::probe("staged");
                    c.clear_staging();
                    check!(c.staging_final().is_none(), "changed", "the staged prefix is still there after it was cleared");
                }
                Err(x) => check!(wrong, "refused", "the partial import failed: {x}"),
            }
        });
        drop(c);
    });
}
impl Node {
    async fn start_import(&self, c: &ConsensusChain) -> bool {
        let acked = self.h.with(|h| h.acked);
        let e = self.w.working(acked);
        for k in 0..e {
            if let Err(x) = c.epochs().save_record(self.w.records[k].clone()).await {
                self.fine("saving an epoch record", x);
                return false;
            }
        }
        if let Err(x) = c.new_epoch(self.w.prev(e), self.w.committees[e].clone()).await {
            self.fine("entering the epoch", x);
            return false;
        }
        if let Ok(Some(l)) = c.consensus_header_latest().await {
            self.h.with(|h| h.begun = h.begun.max(l.number));
        }
        true
    }
}
