//! One simulated run of a cluster: what is searched (the scenario's parameters and faults) and what is recorded.
use crate::base::*;
use crate::cluster::*;
use crate::fabric::{fab, MS, SEC};
use simcore::*;
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Cursor;
use std::sync::Arc;
use std::time::Duration;
use tn_reth::Stored;
use tn_storage::archive::pack_iter::PackIter;
use tn_storage::consensus_pack::PackRecord;
use tn_types::{Batch, ConsensusHeader, Epoch, Hash as _, B256};

/// One committed output as a node wrote it.
pub struct Seen {
    pub digest: B256,
    pub header: ConsensusHeader,
    pub at: u64,
    pub start: u64,
}
#[derive(Default)]
struct Cursor1 {
    len: usize,
    off: u64,
    head: Vec<u8>,
    tail: Vec<u8>,
}
/// What is known of one node from its disk.
#[derive(Default)]
pub struct NodeLog {
    files: BTreeMap<Epoch, Cursor1>,
    /// by consensus number; a later, different value for the same number is reported at once
    pub outputs: BTreeMap<u64, Seen>,
    /// how often each number was written
    pub writes: BTreeMap<u64, u64>,
    pub epochs: BTreeSet<Epoch>,
    pub blocks: Vec<Stored>,
    chain_len: usize,
}
#[derive(Default)]
pub struct History {
    pub nodes: Vec<NodeLog>,
    pub batches: HashMap<B256, Batch>,
    /// transactions handed to a node's pool: (node, time, bytes)
    pub txs: Vec<(usize, u64, Vec<u8>)>,
    /// (node, at, why) of stops the schedule did not ask for
    pub ends: usize,
    pub restarts: u64,
    /// problems the observer found while reading
    pub problems: Vec<(&'static str, usize, String)>,
    /// the time the faults stopped, and the heights then
    pub quiet_at: u64,
    pub quiet_tip: u64,
    pub quiet_block: u64,
    /// (node, whether one of its disk operations had been made to fail, message)
    pub panics: Vec<(usize, bool, String)>,
}
impl History {
    pub fn tip(&self, i: usize) -> u64 {
        self.nodes[i].outputs.last_key_value().map(|(k, _)| *k).unwrap_or(0)
    }
    pub fn max_tip(&self) -> u64 {
        (0..self.nodes.len()).map(|i| self.tip(i)).max().unwrap_or(0)
    }
    pub fn max_block(&self) -> u64 {
        self.nodes.iter().map(|n| n.blocks.len() as u64).max().unwrap_or(0)
    }
}
pub fn b256(d: impl AsRef<[u8]>) -> B256 {
    B256::from_slice(d.as_ref())
}

pub struct World {
    pub c: Cluster,
    pub h: History,
    pub n: usize,
    /// nodes whose key is also used by another
    pub byz: Vec<bool>,
    pub mallory: Option<(usize, u64)>,
    pub notes: Shared<crate::mallory::Notes>,
    down_until: Vec<Option<u64>>,
    /// nodes one of whose disk operations was made to fail
    failed: Vec<bool>,
    /// (time, action)
    todo: BTreeMap<(u64, u64), Act>,
    seq: u64,
    pub faulty: bool,
    spikes: u64,
    nonce: u64,
    rng: Rng,
}
enum Act {
    Op(Op),
    Start(usize),
    Heal(usize, usize),
    Unspike,
    Unskew(usize),
    Tx { node: usize, count: i64, size: i64 },
}

pub struct Flavor {
    pub id: &'static str,
    pub kills: bool,
    pub power: bool,
    pub net: bool,
    pub io: bool,
    pub clocks: bool,
    pub epochs: bool,
    pub observers: bool,
    pub txs: bool,
    pub late: bool,
    pub twin: bool,
    /// one validator in how many runs of 4 departs from the protocol
    pub mallory: u64,
}
pub const FULL: Flavor = Flavor {
    id: "",
    kills: true,
    power: true,
    net: true,
    io: true,
    clocks: true,
    epochs: true,
    observers: true,
    txs: true,
    late: true,
    twin: true,
    mallory: 1,
};

const IO_PATHS: [&str; 6] = ["", "consensus-db/epoch", "consensus-db/epochs/", "db/chain.log", "/data", "consensus_slot"];

pub fn gen(f: &Flavor, seed: u64, i: u64) -> Scenario {
    let s = simrt::mix(seed, &format!("{}{i}", f.id));
    let mut sc = Scenario::new(f.id, s);
    let mut r = Rng::new(s ^ 0x5EED);
    sc.sched.preempt = if r.chance(1, 3) { 20_000 + r.below(200_000) } else { 0 };
    let n = if r.chance(3, 4) { 4 } else { 5 + r.below(2) };
    let epochs = f.epochs && r.chance(2, 3);
    let rotate = epochs && r.chance(1, 3);
    let committee = if rotate { 4 } else { n };
    let n = if rotate { n.max(5) } else { n };
    let obs = if f.observers && r.chance(1, 3) { 1 } else { 0 };
    let dur = 6_000 + r.below(8_000);
    let min = 150 + r.below(350);
    let mallory = if r.chance(f.mallory, 4) { r.below(n as u64) + 1 } else { 0 };
    let twin = if f.twin && mallory == 0 && r.chance(1, 4) { r.below(n as u64) + 1 } else { 0 };
    let mask = match r.below(4) {
        0 => 1 << r.below(crate::mallory::KINDS as u64),
        1 => (1 << crate::mallory::KINDS) - 1,
        _ => r.below(1 << crate::mallory::KINDS),
    };
    sc.set("mallory", mallory as i64);
    sc.set("mask", if mallory > 0 { mask as i64 } else { 0 });
    let total = n + obs + usize::from(twin > 0) as u64;
    sc.set("twin", twin as i64);
    sc.set("validators", n as i64);
    sc.set("committee", committee as i64);
    sc.set("observers", obs as i64);
    sc.set("rotate", rotate as i64);
    sc.set("epoch_secs", if epochs { 4 + r.below(6) as i64 } else { 100_000 });
    sc.set("min_ms", min as i64);
    sc.set("max_ms", (min + 100 + r.below(700)) as i64);
    sc.set("lat_us", 500 + r.below(40_000) as i64);
    sc.set("jitter_us", r.below(30_000) as i64);
    sc.set("fragment", if r.chance(1, 3) { 2 + r.below(20) as i64 } else { 0 });
    sc.set("dur_ms", dur as i64);
    sc.set("quiet_s", 40);
    let at = |r: &mut Rng| 300 + r.below(dur - 300) as i64;
    let node = |r: &mut Rng| r.below(total as u64) as i64;
    if f.txs {
        for _ in 0..3 + r.below(12) {
            let o = Op::new("tx", &[r.below(dur) as i64, node(&mut r), 1 + r.below(8) as i64, 20 + r.below(400) as i64]);
            sc.ops.push(o);
        }
    }
    if f.late && r.chance(1, 4) {
        sc.ops.push(Op::new("late", &[node(&mut r), 1000 + r.below(dur) as i64]));
    }
    let nf = r.below(7);
    for _ in 0..nf {
        let t = at(&mut r);
        let mut k = vec![];
        if f.kills {
            k.extend(["kill", "kill", "kill"]);
        }
        if f.net {
            k.extend(["cut", "part", "spike", "stall"]);
        }
        if f.io {
            k.extend(["io", "io"]);
        }
        if f.clocks {
            k.push("skew");
        }
        if k.is_empty() {
            break;
        }
        let o = match *r.pick(&k) {
            "kill" => {
                let mode = if f.power && r.chance(1, 2) { r.below(5) as i64 } else { -1 };
                let down = if r.chance(1, 2) { 50 + r.below(800) } else { 500 + r.below(8_000) };
                // sometimes several at once
                let nodes = if r.chance(1, 5) { r.below((1 << total) - 1) as i64 + 1 } else { 1 << node(&mut r) };
                Op::new("kill", &[t, nodes, r.below(3_000) as i64, down as i64, mode])
            }
            "cut" => Op::new("cut", &[t, 200 + r.below(8_000) as i64, node(&mut r), node(&mut r), r.chance(1, 2) as i64]),
            "part" => Op::new("part", &[t, 500 + r.below(9_000) as i64, 1 + r.below((1 << total) - 2) as i64]),
            "spike" => Op::new("spike", &[t, 500 + r.below(5_000) as i64, 2 + r.below(30) as i64, 50 + r.below(3_000) as i64]),
            "stall" => Op::new("stall", &[t, 100 + r.below(6_000) as i64, node(&mut r)]),
            "skew" => Op::new("skew", &[t, 1_000 + r.below(8_000) as i64, node(&mut r), r.below(6_000) as i64 - 3_000]),
            _ => {
                let e = match r.below(3) {
                    0 => gen_crash(&mut r, 400, IO_PATHS.len() as u64),
                    1 => gen_soft(&mut r, 400, IO_PATHS.len() as u64),
                    _ => gen_err(&mut r, 400, IO_PATHS.len() as u64),
                };
                let mut a = vec![t, node(&mut r)];
                a.extend(e.a.iter());
                Op::new("io", &a)
            }
        };
        sc.ops.push(o);
    }
    sc
}

/// Some transaction; its sender is whoever the fixed signature recovers to.
pub fn tx(nonce: u64, size: usize) -> Vec<u8> {
    use alloy::consensus::{SignableTransaction as _, TxEip1559};
    use alloy::primitives::{Signature, TxKind, U256};
    use tn_types::{Address, Encodable2718 as _, TransactionSigned};
    let t = TxEip1559 {
        chain_id: 2017,
        nonce,
        gas_limit: 21_000,
        max_fee_per_gas: 1_000_000,
        max_priority_fee_per_gas: 0,
        to: TxKind::Call(Address::repeat_byte(7)),
        value: U256::from(1),
        input: body(nonce, size).into(),
        ..Default::default()
    };
    let s = t.into_signed(Signature::test_signature());
    TransactionSigned::from(s).encoded_2718()
}

impl World {
    pub fn new(sc: &Scenario) -> Self {
        let mut params = tn_config::Parameters::default();
        params.min_header_delay = Duration::from_millis(sc.p("min_ms") as u64);
        params.max_header_delay = Duration::from_millis(sc.p("max_ms") as u64);
        params.max_batch_delay = Duration::from_millis(100);
        let setup = Setup {
            seed: sc.seed,
            validators: sc.p("validators") as usize,
            committee: sc.p("committee") as usize,
            observers: sc.p("observers") as usize,
            epoch_secs: sc.p("epoch_secs") as u32,
            rotate: sc.p("rotate") != 0,
            params,
            twin: (sc.p("twin") > 0).then(|| sc.p("twin") as usize - 1),
        };
        let c = Cluster::new(setup);
        let n = c.nodes.len();
        let mut byz = vec![false; n];
        if let Some(t) = c.setup.twin {
            simrt::fault("twin_validator");
            byz[t] = true;
            byz[n - 1] = true;
        }
        let mallory = (sc.p("mallory") > 0).then(|| (sc.p("mallory") as usize - 1, sc.p("mask") as u64));
        if let Some((i, _)) = mallory {
            simrt::fault("byzantine_validator");
            byz[i] = true;
        }
        fab(|f| {
            f.link.base = sc.p("lat_us") as u64 * 1000;
            f.link.jitter = sc.p("jitter_us") as u64 * 1000;
            f.fragment = sc.p("fragment") as u64;
        });
        let mut w = Self {
            c,
            h: History { nodes: (0..n).map(|_| NodeLog::default()).collect(), ..Default::default() },
            n,
            byz,
            mallory,
            notes: Shared::new(Default::default()),
            down_until: vec![None; n],
            failed: vec![false; n],
            todo: BTreeMap::new(),
            seq: 0,
            faulty: true,
            spikes: 0,
            nonce: 0,
            rng: Rng::new(sc.seed ^ 0x3017),
        };
        let t0 = simrt::now_ns();
        let mut late = BTreeMap::new();
        for o in &sc.ops {
            match o.k.as_str() {
                "late" => {
                    late.insert(o.u(0) as usize % n, o.u(1) as u64 * MS);
                }
                "tx" => {
                    let a = Act::Tx { node: o.u(1) as usize % n, count: o.arg(2), size: o.arg(3) };
                    w.plan(t0 + o.u(0) as u64 * MS, a);
                }
                _ => w.plan(t0 + o.u(0) as u64 * MS, Act::Op(o.clone())),
            }
        }
        for i in 0..n {
            match late.get(&i) {
                Some(t) => {
                    simrt::fault("late_start");
                    w.plan(t0 + *t, Act::Start(i));
                    w.down_until[i] = Some(t0 + *t);
                }
                None => w.start(i),
            }
        }
        w
    }
    /// Whose key a node uses.
    pub fn role(&self, i: usize) -> usize {
        self.c.setup.twin.filter(|_| i + 1 == self.n).unwrap_or(i)
    }
    fn start(&mut self, i: usize) {
        match self.mallory {
            Some((m, mask)) if m == i => {
                let seed = self.rng.next();
                let n = &mut self.c.nodes[i];
                n.starts += 1;
                if n.starts == 1 {
                    n.first = simrt::now_ns();
                }
                simrt::note(|| format!("START mallory n{i}"));
                let g = crate::mallory::spawn(&self.c, i, mask, seed, self.notes.clone());
                self.c.nodes[i].group = Some(g);
            }
            _ => self.c.start(i),
        }
    }
    fn plan(&mut self, t: u64, a: Act) {
        self.seq += 1;
        self.todo.insert((t, self.seq), a);
    }
    pub fn tick_ns(&self) -> u64 {
        200 * MS
    }
    /// Let `ns` pass, doing what is planned.
    pub fn run(&mut self, ns: u64) {
        let end = simrt::now_ns() + ns;
        let mut next_obs = simrt::now_ns() + self.tick_ns();
        loop {
            let now = simrt::now_ns();
            while let Some((&k, _)) = self.todo.first_key_value() {
                if k.0 > now {
                    break;
                }
                let a = self.todo.remove(&k).unwrap();
                self.act(a);
            }
            if now >= next_obs {
                self.observe();
                self.supervise();
                next_obs = now + self.tick_ns();
            }
            if now >= end {
                return;
            }
            let mut to = end.min(next_obs);
            if let Some((k, _)) = self.todo.first_key_value() {
                to = to.min(k.0);
            }
            simrt::sleep_ns(to.saturating_sub(simrt::now_ns()).max(1));
        }
    }
    /// A node that stopped by itself, or died of an injected crash, is started again a little later.
    fn supervise(&mut self) {
        for i in 0..self.n {
            if let Some(g) = self.c.nodes[i].group {
                let p = std::mem::take(&mut simrt::sim().groups[g as usize].panics);
                self.failed[i] |= disk_failed(i);
                let io = self.failed[i];
                for m in p {
                    simrt::probe(if io { "panic_after_disk_error" } else { "panic" });
                    self.h.panics.push((i, io, m));
                    if io && self.c.running(i) {
                        // what cannot use its disk any more stops
                        simrt::note(|| format!("n{i} panicked after a disk error: stopped"));
                        self.down(i, 0, -1);
                        let t = simrt::now_ns() + 300 * MS;
                        self.down_until[i] = Some(t);
                        self.plan(t, Act::Start(i));
                    }
                }
            }
            if self.down_until[i].is_none() && !self.c.running(i) {
                let why = self.c.live.with(|l| l.ends.last().filter(|e| e.0 == i).map(|e| e.3.clone()));
                simrt::note(|| format!("n{i} is down: {why:?}"));
                simrt::probe("stopped_by_itself");
                self.h.ends += 1;
                self.down(i, 0, -1);
                let t = simrt::now_ns() + 300 * MS + self.rng.below(1500) * MS;
                self.down_until[i] = Some(t);
                self.plan(t, Act::Start(i));
            }
        }
    }
    fn down(&mut self, i: usize, abrupt: u64, power: i64) {
        self.observe_node(i);
        self.c.kill(i, abrupt);
        if power >= 0 {
            simrt::fault("power_loss");
            let mut r = Rng::new(self.rng.next());
            disk().power_loss(&vol(i), power as u64, &mut r);
            simrt::note(|| format!("power loss at n{i}, mode {power}"));
        }
        // what the surviving disk holds is looked at afresh
        self.h.nodes[i].files.clear();
        self.h.nodes[i].chain_len = 0;
        if power >= 0 {
            self.observe_node(i);
        }
    }
    fn act(&mut self, a: Act) {
        let now = simrt::now_ns();
        match a {
            Act::Start(i) => {
                if !self.c.running(i) {
                    self.down_until[i] = None;
                    self.h.restarts += 1;
                    self.start(i);
                }
            }
            Act::Heal(a, b) => fab(|f| f.heal(a, b)),
            Act::Unspike => {
                self.spikes -= 1;
                if self.spikes == 0 {
                    fab(|f| f.link.spike = 0);
                }
            }
            Act::Unskew(i) => self.skew(i, 0),
            Act::Tx { node, count, size } => self.submit(node, count as usize, size as usize),
            Act::Op(o) => {
                let n = self.n;
                match o.k.as_str() {
                    "kill" => {
                        for i in 0..n {
                            if o.u(1) >> i & 1 == 1 && self.c.running(i) {
                                simrt::fault("crash");
                                simrt::note(|| format!("KILL n{i}"));
                                self.down(i, o.u(2) as u64 * MS, o.arg(4));
                                let t = now + o.u(3) as u64 * MS;
                                self.down_until[i] = Some(t);
                                self.plan(t, Act::Start(i));
                            }
                        }
                    }
                    "cut" => {
                        let (a, b) = (o.u(2) as usize % n, o.u(3) as usize % n);
                        if a != b {
                            self.cut(a, b, now + o.u(1) as u64 * MS);
                            if o.arg(4) != 0 {
                                self.cut(b, a, now + o.u(1) as u64 * MS);
                            }
                        }
                    }
                    "part" => {
                        for a in 0..n {
                            for b in 0..n {
                                if (o.u(2) >> a & 1) != (o.u(2) >> b & 1) {
                                    self.cut(a, b, now + o.u(1) as u64 * MS);
                                }
                            }
                        }
                    }
                    "spike" => {
                        self.spikes += 1;
                        fab(|f| {
                            f.link.spike = o.u(2) as u64;
                            f.link.spike_ns = o.u(3) as u64 * MS;
                        });
                        self.plan(now + o.u(1) as u64 * MS, Act::Unspike);
                    }
                    "stall" => {
                        if let Some(g) = self.c.nodes[o.u(2) as usize % n].group {
                            simrt::fault("stall");
                            let to = now + o.u(1) as u64 * MS;
                            simrt::critical(|| simrt::sim().groups[g as usize].stalled_until = to);
                        }
                    }
                    "skew" => {
                        let i = o.u(2) as usize % n;
                        simrt::fault("clock_jump");
                        self.skew(i, o.arg(3) * 1_000_000);
                        self.plan(now + o.u(1) as u64 * MS, Act::Unskew(i));
                    }
                    "io" => {
                        let i = o.u(1) as usize % n;
                        // a database that is being created is not asked to survive (redb's business, not the node's)
                        let ready = self.c.nodes[i].first + 2 * SEC;
                        if self.c.nodes[i].starts == 0 || now < ready {
                            if self.c.nodes[i].starts > 0 {
                                self.plan(ready, Act::Op(o));
                            }
                            return;
                        }
                        let e = Op::new("io", &o.a[2..]);
                        arm(&vol(i), &e, &IO_PATHS);
                    }
                    _ => {}
                }
            }
        }
    }
    fn skew(&mut self, i: usize, by: i64) {
        self.c.nodes[i].skew = by;
        if let Some(g) = self.c.nodes[i].group {
            simrt::critical(|| simrt::sim().groups[g as usize].wall_skew = by);
        }
    }
    fn cut(&mut self, a: usize, b: usize, until: u64) {
        fab(|f| f.cut(a, b));
        self.plan(until, Act::Heal(a, b));
    }
    pub fn submit(&mut self, node: usize, count: usize, size: usize) {
        for _ in 0..count {
            self.nonce += 1;
            let bytes = tx(self.nonce, size);
            let live = self.c.live.clone();
            let b = bytes.clone();
            fab(|f| {
                f.call(node, 1, move || {
                    let pool = live.with(|l| l.pools[node].clone());
                    if let (Some(p), Ok(t)) = (pool, tn_reth::recover_raw_transaction(&b)) {
                        let _ = p.add(t);
                    }
                })
            });
            self.h.txs.push((node, simrt::now_ns(), bytes));
        }
    }
    /// End every fault: the network is whole, every node runs, clocks agree.
    pub fn calm(&mut self) {
        self.faulty = false;
        self.todo.retain(|_, a| matches!(a, Act::Start(_)));
        fab(|f| {
            f.heal_all();
            f.link.spike = 0;
        });
        self.spikes = 0;
        for i in 0..self.n {
            self.failed[i] |= disk_failed(i);
        }
        disarm();
        for i in 0..self.n {
            self.skew(i, 0);
            if let Some(g) = self.c.nodes[i].group {
                simrt::critical(|| simrt::sim().groups[g as usize].stalled_until = 0);
            }
            if !self.c.running(i) {
                self.down_until[i] = None;
                if self.c.nodes[i].group.is_some() {
                    self.down(i, 0, -1);
                }
                self.h.restarts += 1;
                self.start(i);
            }
        }
        self.todo.clear();
        self.observe();
        self.h.quiet_at = simrt::now_ns();
        self.h.quiet_tip = (0..self.n).filter(|i| !self.byz[*i]).map(|i| self.h.tip(i)).max().unwrap_or(0);
        self.h.quiet_block =
            (0..self.n).filter(|i| !self.byz[*i]).map(|i| self.h.nodes[i].blocks.len() as u64).max().unwrap_or(0);
        simrt::note(|| format!("QUIET tip {} block {}", self.h.quiet_tip, self.h.quiet_block));
    }
    pub fn observe(&mut self) {
        for i in 0..self.n {
            self.observe_node(i);
        }
    }
    pub fn observe_node(&mut self, i: usize) {
        let now = simrt::now_ns();
        let start = self.c.nodes[i].starts;
        let h = &mut self.h;
        // the execution chain
        let p = format!("/sim/{}/db/chain.log", vol(i));
        if let Some(b) = disk().peek(&p) {
            if b.len() != h.nodes[i].chain_len {
                h.nodes[i].chain_len = b.len();
                let blocks = Stored::read_all(&b).0;
                let old = &h.nodes[i].blocks;
                for (a, b) in old.iter().zip(&blocks) {
                    if a.header.hash() != b.header.hash() {
                        h.problems.push(("rewrite", i, format!("n{i} had block {} as {} and now has it as {}", a.header.number,
                            a.header.hash(), b.header.hash())));
                        break;
                    }
                }
                if blocks.len() >= old.len() {
                    h.nodes[i].blocks = blocks;
                }
            }
        }
        // the consensus packs
        let dir = format!("/sim/{}/consensus-db/epochs/", vol(i));
        for f in disk().files(&format!("/sim/{}", vol(i))) {
            let Some(e) = f.strip_prefix(&dir).and_then(|x| x.strip_prefix("epoch-")).and_then(|x| x.strip_suffix("/data")) else { continue };
            let Ok(e) = e.parse::<Epoch>() else { continue };
            h.nodes[i].epochs.insert(e);
            let Some(b) = disk().peek(&f) else { continue };
            let cur = h.nodes[i].files.entry(e).or_default();
            let same = b.len() >= cur.len && cur.head == b[..64.min(b.len())] && cur.tail == b[cur.len.saturating_sub(16)..cur.len];
            if cur.len == b.len() && same {
                continue;
            }
            if !same {
                *cur = Cursor1 { head: b[..64.min(b.len())].to_vec(), ..Default::default() };
            }
            cur.len = b.len();
            cur.tail = b[b.len().saturating_sub(16)..].to_vec();
            let from = cur.off;
            let len = b.len() as u64;
            let Ok(mut it) = PackIter::<PackRecord, _>::open(Cursor::new(b), e as u64) else { continue };
            if from > 0 {
                let _ = it.set_position(from);
            }
            let mut good = it.position().unwrap_or(0);
            let mut recs = vec![];
            while let Some(Ok(r)) = it.next() {
                good = it.position().unwrap_or(good).min(len);
                recs.push(r);
            }
            cur.off = good;
            for r in recs {
                match r {
                    PackRecord::Batch(b) => {
                        let d = b.digest();
                        h.batches.entry(d).or_insert(b);
                    }
                    PackRecord::Consensus(c) => {
                        let digest = b256(c.digest());
                        simrt::event(i as u64, c.number);
                        *h.nodes[i].writes.entry(c.number).or_default() += 1;
                        if let Some(old) = h.nodes[i].outputs.get(&c.number) {
                            if old.digest != digest {
                                h.problems.push(("order", i, format!(
                                    "n{i} committed two outputs with number {}: {} (start {}) and {digest} (start {start})",
                                    c.number, old.digest, old.start)));
                            }
                            continue;
                        }
                        h.nodes[i].outputs.insert(c.number, Seen { digest, header: *c, at: now, start });
                    }
                    PackRecord::EpochMeta(_) => {}
                }
            }
        }
    }
}

/// Whether a disk operation of this node was made to fail.
pub fn disk_failed(i: usize) -> bool {
    let v = vol(i);
    disk().faults.iter().any(|f| f.vol == v && f.hit > f.nth && !matches!(f.kind, simrt::fs::Kind::Delay | simrt::fs::Kind::Eintr))
}

pub type Judge = fn(&Scenario, &World);
/// The whole run; the oracles look at what happened at its end.
pub fn play(sc: &Scenario, liveness: bool, judge: &[Judge]) {
    crate::smoke::trace();
    let mut w = World::new(sc);
    w.run(sc.p("dur_ms") as u64 * MS);
    w.calm();
    let quiet = sc.p("quiet_s") as u64;
    let t0 = simrt::now_ns();
    let min = if liveness { 0 } else { 2 };
    let mut done = false;
    for s in 0..quiet {
        w.run(SEC);
        w.observe();
        if s + 1 >= min && w.settled() {
            done = true;
            break;
        }
        if !liveness && s >= 5 {
            break;
        }
    }
    w.supervise();
    simrt::note(|| format!("settled {done} after {} ms", (simrt::now_ns() - t0) / MS));
    if done {
        simrt::probe("settled");
    }
    for j in judge {
        j(sc, &w);
    }
    state(hash_str(&format!("{} {} {}", w.h.max_tip(), w.h.max_block(), w.h.restarts)));
}
impl World {
    /// Every node runs, has everything that was committed when the faults stopped, and the cluster moved on.
    pub fn settled(&self) -> bool {
        let want = self.h.quiet_tip + 2;
        (0..self.n).filter(|i| !self.byz[*i]).all(|i| self.c.running(i) && self.h.tip(i) >= want && self.h.nodes[i].blocks.len() as u64 >= self.h.quiet_block)
    }
}
