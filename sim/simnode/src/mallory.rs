//! A validator that departs from the protocol: real keys, real network stack, its own idea of what to send.
use crate::base::*;
use crate::cluster::*;
use crate::fabric::{self, fab, MS};
use crate::wire::Gossip;
use crate::world::b256;
use futures::AsyncWriteExt as _;
use simcore::*;
use simrt::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tn_config::{KeyConfig, LibP2pConfig, NetworkConfig};
use tn_network_libp2p::types::{NetworkEvent, NetworkHandle};
use tn_network_libp2p::{read_frame, write_frame, ConsensusNetwork, DenyReason, PrimarySyncRequest, Stream, SyncFrame, SyncFrameError, WorkerSyncRequest};
use tn_primary::network::{PrimaryRequest, PrimaryResponse};
use tn_reth::SimChain;
use tn_storage::mem_db::MemDatabase;
use tn_types::*;
use tn_worker::{WorkerRequest, WorkerResponse};
use tokio::sync::mpsc;

/// What no correct node may accept.
#[derive(Default)]
pub struct Notes {
    pub headers: HashMap<B256, &'static str>,
    /// headers that are in order should this one be certified after all
    pub rests: HashMap<B256, Header>,
    pub batches: HashMap<B256, &'static str>,
}
pub const EQUIVOCATE: u64 = 1;
pub const HEADERS: u64 = 2;
pub const CERTS: u64 = 4;
pub const PARENTS: u64 = 8;
pub const RESULTS: u64 = 16;
pub const EPOCHS: u64 = 32;
pub const BATCHES: u64 = 64;
pub const VOTES: u64 = 128;
pub const STREAMS: u64 = 256;
pub const WITHHOLD: u64 = 512;
pub const REPLAY: u64 = 1024;
pub const KINDS: u32 = 11;

type PNet = NetworkHandle<PrimaryRequest, PrimaryResponse>;
type WNet = NetworkHandle<WorkerRequest, WorkerResponse>;

struct M {
    me: usize,
    mask: u64,
    key: KeyConfig,
    id: AuthorityIdentifier,
    all: Vec<(BlsPublicKey, Address)>,
    chain: Arc<SimChain>,
    notes: Shared<Notes>,
    net: PNet,
    wnet: WNet,
    rng: Rng,
    certs: BTreeMap<(Epoch, Round), BTreeMap<AuthorityIdentifier, Certificate>>,
    /// own headers and others', by digest, with what certifies a parent
    seen: Vec<Header>,
    exec: BlockNumHash,
    prior: HashMap<Epoch, EpochDigest>,
    records: Vec<EpochRecord>,
    results: Vec<ConsensusResult>,
    proposed: BTreeSet<(Epoch, Round)>,
    batches: Vec<SealedBatch>,
    evil: Vec<SealedBatch>,
    /// real signatures, one or more short of a quorum
    thin: Vec<Certificate>,
    nonce: u64,
}
type Me = Rc<RefCell<M>>;

pub fn spawn(c: &Cluster, i: usize, mask: u64, seed: u64, notes: Shared<Notes>) -> u32 {
    let key = c.nodes[i].key.clone();
    let n = c.setup.validators;
    let all: Vec<_> = c.nodes[..n].iter().map(|x| (x.bls, x.address)).collect();
    let boot: BTreeMap<_, _> = (0..n)
        .map(|k| {
            let x = &c.nodes[k].key;
            let p = (fabric::addr(k, PRIMARY), x.primary_network_public_key());
            let w = (fabric::addr(k, WORKER), x.worker_network_public_key());
            (c.nodes[k].bls, BootstrapServer::new(p.into(), w.into()))
        })
        .collect();
    let chain = c.chain.clone();
    simrt::spawn_group(&format!("n{i}"), move || {
        let g = simrt::my_group();
        fab(|f| f.up(i, g));
        std::thread::Builder::new().name("nic".into()).spawn(move || fabric::nic(i)).unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let local = tokio::task::LocalSet::new();
        local.block_on(&rt, async move {
            let tm = TaskManager::default();
            let mut config = NetworkConfig::default();
            config.set_chain_id(2017);
            let (ptx, prx) = mpsc::channel(1000);
            let (wtx, wrx) = mpsc::channel(1000);
            let p = ConsensusNetwork::new_for_primary(&config, ptx, key.clone(), MemDatabase::default(), tm.get_spawner(), fabric::addr(i, PRIMARY))
                .expect("primary network");
            let w = ConsensusNetwork::new_for_worker(0, &config, wtx, key.clone(), MemDatabase::default(), tm.get_spawner(), fabric::addr(i, WORKER), None)
                .expect("worker network");
            let (net, wnet) = (p.network_handle(), w.network_handle());
            tokio::spawn(p.run());
            tokio::spawn(w.run());
            let _ = net.start_listening(fabric::addr(i, PRIMARY)).await;
            let _ = wnet.start_listening(fabric::addr(i, WORKER)).await;
            let _ = net.add_bootstrap_peers(boot.iter().map(|(k, b)| (*k, b.primary.clone())).collect()).await;
            let _ = wnet.add_bootstrap_peers(boot.iter().map(|(k, b)| (*k, b.worker.clone())).collect()).await;
            let keys: std::collections::HashSet<_> = all.iter().map(|a| a.0).collect();
            let _ = net.update_committees(keys.clone(), keys.clone(), keys.clone()).await;
            let _ = wnet.update_committees(keys.clone(), keys.clone(), keys).await;
            for t in [LibP2pConfig::primary_topic(2017), LibP2pConfig::consensus_output_topic(2017), LibP2pConfig::epoch_vote_topic(2017)] {
                let _ = net.subscribe(t).await;
            }
            let _ = wnet.subscribe(LibP2pConfig::worker_batch_topic(2017)).await;
            for (k, _) in &all {
                if *k != all[i].0 {
                    let (a, b, k) = (net.clone(), wnet.clone(), *k);
                    tokio::task::spawn_local(async move {
                        let _ = a.dial_by_bls(k).await;
                        let _ = b.dial_by_bls(k).await;
                    });
                }
            }
            let m = Rc::new(RefCell::new(M {
                me: i,
                mask,
                id: key.primary_public_key().into(),
                key,
                all,
                chain,
                notes,
                net,
                wnet,
                rng: Rng::new(seed),
                certs: BTreeMap::new(),
                seen: vec![],
                exec: BlockNumHash::default(),
                prior: HashMap::from([(0, EpochDigest::default())]),
                records: vec![],
                results: vec![],
                proposed: BTreeSet::new(),
                batches: vec![],
                evil: vec![],
                thin: vec![],
                nonce: 1_000_000,
            }));
            main(m, prx, wrx).await;
            drop(tm);
        });
    })
}

async fn main(
    m: Me,
    mut prx: mpsc::Receiver<NetworkEvent<PrimaryRequest, PrimaryResponse>>,
    mut wrx: mpsc::Receiver<NetworkEvent<WorkerRequest, WorkerResponse>>,
) {
    loop {
        let tick = Duration::from_nanos((20 + m.borrow_mut().rng.below(120)) * MS);
        tokio::select! {
            Some(e) = prx.recv() => primary_event(&m, e),
            Some(e) = wrx.recv() => worker_event(&m, e),
            _ = tokio::time::sleep(tick) => act(&m),
        }
    }
}

impl M {
    fn committee(&self, e: Epoch) -> Committee {
        let a = (self.chain.committee)(e).into_iter().map(|i| (self.all[i].0, Authority::new_for_test(self.all[i].0, self.all[i].1))).collect();
        Committee::new_for_test(a, e, BTreeMap::new())
    }
    fn has(&self, k: u64) -> bool {
        self.mask & k != 0
    }
    fn others(&self) -> Vec<BlsPublicKey> {
        self.all.iter().enumerate().filter(|(i, _)| *i != self.me).map(|(_, a)| a.0).collect()
    }
    fn some_others(&mut self) -> Vec<BlsPublicKey> {
        let mut o = self.others();
        let n = 1 + self.rng.below(o.len() as u64) as usize;
        while o.len() > n {
            let k = self.rng.below(o.len() as u64) as usize;
            o.remove(k);
        }
        o
    }
    /// The epoch, the next round and the certificates of the one before it.
    fn front(&self) -> Option<(Epoch, Round, Vec<Certificate>)> {
        let e = self.certs.keys().next_back().map(|k| k.0).unwrap_or(0);
        let com = self.committee(e);
        let q = com.quorum_threshold() as usize;
        let r = self.certs.range((e, 1)..=(e, u32::MAX)).rev().find(|(_, v)| v.len() >= q);
        Some(match r {
            Some(((_, r), v)) => (e, r + 1, v.values().cloned().collect()),
            None => (e, 1, Certificate::genesis(&com)),
        })
    }
    fn learn(&mut self, c: &Certificate) {
        if c.round() == 0 {
            return;
        }
        self.see(c.header());
        self.certs.entry((c.epoch(), c.round())).or_default().entry(c.origin().clone()).or_insert_with(|| c.clone());
        while self.certs.len() > 200 {
            self.certs.pop_first();
        }
    }
    fn see(&mut self, h: &Header) {
        let x = h.latest_execution_block();
        if x.number >= self.exec.number && *h.author() != self.id {
            self.exec = x;
        }
        if self.seen.iter().all(|s| s.digest() != h.digest()) {
            self.seen.push(h.clone());
            if self.seen.len() > 300 {
                self.seen.remove(0);
            }
        }
    }
    fn seed(&self, e: Epoch, r: Round) -> BlsSignature {
        let p = self.prior.get(&e).copied().unwrap_or_default();
        EpochSeedMessage::new(e, r, p).sign(&self.key)
    }
    fn header(&self, e: Epoch, r: Round, parents: &[Certificate]) -> HeaderBuilder {
        let t = parents.iter().map(|p| *p.header().created_at()).max().unwrap_or(0).max(now());
        HeaderBuilder::default()
            .author(self.id.clone())
            .epoch(e)
            .round(r)
            .created_at(t)
            .parents(parents.iter().map(|p| p.header().digest()).collect())
            .latest_execution_block(self.exec)
            .seed_signature(self.seed(e, r))
    }
    fn bad(&self, h: &Header, why: &'static str) {
        simrt::probe(why);
        self.notes.with(|n| n.headers.insert(b256(h.digest()), why));
    }
    fn vote(&self, h: &Header) -> Vote {
        Vote::new(h, self.id.clone(), &self.key)
    }
    fn gossip(&self, topic: String, g: Gossip) {
        self.raw(topic, encode(&g));
    }
    fn raw(&self, topic: String, b: Vec<u8>) {
        let net = self.net.clone();
        tokio::task::spawn_local(async move {
            let _ = net.publish(topic, b).await;
        });
    }
    fn cert(&self, c: Certificate) {
        self.gossip(LibP2pConfig::primary_topic(2017), Gossip::Certificate(Box::new(c)));
    }
    fn find(&self, d: &HeaderDigest) -> Option<Certificate> {
        self.certs.values().rev().flat_map(|v| v.values()).find(|c| c.header().digest() == *d).cloned()
    }
    fn batch(&mut self, e: Epoch) -> Batch {
        self.nonce += 1;
        Batch {
            transactions: vec![crate::world::tx(self.nonce, 40)],
            epoch: e,
            beneficiary: self.all[self.me].1,
            base_fee_per_gas: self.chain.base_fee,
            worker_id: 0,
            received_at: None,
        }
    }
    /// A header some validator could have sent, certified by nobody.
    fn fabricated(&mut self) -> Option<(Committee, Header)> {
        let (e, r, parents) = self.front()?;
        let com = self.committee(e);
        let r = match self.rng.below(4) {
            0 => r + 1 + self.rng.below(6) as u32,
            1 => r.saturating_sub(1).max(1),
            _ => r,
        };
        let ids: Vec<_> = com.authorities().iter().map(|a| a.id()).collect();
        let a = self.rng.pick(&ids).clone();
        // (never one that could be certified)
        let d = B256::from_slice(&body(self.rng.next(), 32));
        let h = self.header(e, r, &parents).author(a).created_at(now() - 1).payload([(d, 0)].into_iter().collect()).build();
        self.bad(&h, "mallory_fabricated_header");
        Some((com, h))
    }
    fn forged(&mut self) -> Option<Certificate> {
        if !self.thin.is_empty() && self.rng.chance(1, 2) {
            let newest = self.thin.len() - 1;
            return Some(self.thin[newest].clone());
        }
        let (com, h) = self.fabricated()?;
        let own = *self.vote(&h).signature();
        let junk = *self.rng.pick(&[BlsSignature::default(), own]);
        let mut votes: Vec<(AuthorityIdentifier, BlsSignature)> = vec![];
        let q = com.quorum_threshold() as usize;
        let ids: Vec<_> = com.authorities().iter().map(|a| a.id()).collect();
        let kind = self.rng.below(6);
        for id in ids {
            match kind {
                // only the liar itself
                0 if id != self.id => continue,
                // one below a quorum
                1 if votes.len() + 1 >= q => continue,
                _ => {}
            }
            let s = if id == self.id { own } else { junk };
            votes.push((id, s));
        }
        let mut c = Certificate::new_unsigned_for_test(&com, h.clone(), votes).ok()?;
        // signatures of a real certificate under another header
        if kind == 2 {
            if let Some(x) = self.certs.values().rev().flat_map(|v| v.values()).next().cloned() {
                c = x;
                c.update_header_for_test(h);
            }
        }
        let sig = c.aggregated_signature().unwrap_or_default();
        c.set_signature_verification_state(match self.rng.below(5) {
            0 => SignatureVerificationState::Unsigned(sig),
            1 => SignatureVerificationState::Unverified(sig),
            2 => SignatureVerificationState::VerifiedIndirectly(sig),
            3 => SignatureVerificationState::Genesis,
            _ => SignatureVerificationState::VerifiedDirectly(sig),
        });
        simrt::probe("mallory_forged_certificate");
        Some(c)
    }
}

/// Ask for votes on a header, and certify it when they suffice.
async fn propose(m: Me, h: Header, parents: Vec<Certificate>, to: Vec<BlsPublicKey>, certify: u64) {
    m.borrow_mut().see(&h);
    let net = m.borrow().net.clone();
    let votes = Rc::new(RefCell::new(vec![m.borrow().vote(&h)]));
    let mut tasks = vec![];
    for p in to {
        let (net, m, h, parents, votes) = (net.clone(), m.clone(), h.clone(), parents.clone(), votes.clone());
        tasks.push(tokio::task::spawn_local(async move {
            let mut send = vec![];
            for _ in 0..6 {
                let req = PrimaryRequest::Vote { header: Arc::new(h.clone()), parents: send.clone() };
                let Ok(rx) = net.send_request(req, p).await else { return };
                let Ok(Ok(Ok(res))) = tokio::time::timeout(Duration::from_secs(5), rx).await else {
                    tokio::time::sleep(Duration::from_millis(100)).await;
                    continue;
                };
                match res.result {
                    PrimaryResponse::Vote(v) => {
                        votes.borrow_mut().push(v);
                        return;
                    }
                    PrimaryResponse::MissingParents(d) => {
                        send = d.iter().filter_map(|d| parents.iter().find(|c| c.header().digest() == *d).cloned().or_else(|| m.borrow().find(d))).collect();
                        if send.is_empty() {
                            return;
                        }
                    }
                    PrimaryResponse::RecoverableError(_) => tokio::time::sleep(Duration::from_millis(100)).await,
                    _ => return,
                }
            }
        }));
    }
    let com = m.borrow().committee(h.epoch());
    let q = com.quorum_threshold() as usize;
    let t0 = simrt::now_ns();
    // as soon as there is a quorum, or all have answered
    while votes.borrow().len() < q && tasks.iter().any(|t| !t.is_finished()) && simrt::now_ns() < t0 + 8_000 * MS {
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let vs: Vec<_> = votes.borrow().iter().map(|v| (v.author().clone(), *v.signature())).collect();
    if vs.len() >= q {
        let Ok(c) = Certificate::new_unverified(&com, h, vs) else { return };
        let mut m = m.borrow_mut();
        simrt::probe("mallory_certified");
        m.learn(&c);
        match certify {
            0 => m.cert(c),
            1 => {}
            // late
            d => {
                let (net, g) = (m.net.clone(), encode(&Gossip::Certificate(Box::new(c))));
                tokio::task::spawn_local(async move {
                    tokio::time::sleep(Duration::from_nanos(d * MS)).await;
                    let _ = net.publish(LibP2pConfig::primary_topic(2017), g).await;
                });
            }
        }
    } else if vs.len() > 1 && m.borrow().has(CERTS) {
        // a certificate with too few votes
        if let Ok(mut c) = Certificate::new_unsigned_for_test(&com, h, vs) {
            let sig = c.aggregated_signature().unwrap_or_default();
            c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(sig));
            simrt::probe("mallory_thin_certificate");
            let mut m = m.borrow_mut();
            m.thin.push(c.clone());
            if m.rng.chance(1, 2) {
                m.cert(c);
            }
        }
    }
}

fn act(me: &Me) {
    let mut m = me.borrow_mut();
    let m = &mut *m;
    let Some((e, r, parents)) = m.front() else { return };
    if !(m.chain.committee)(e).contains(&m.me) && m.rng.chance(7, 8) {
        return;
    }
    if !m.prior.contains_key(&e) {
        // the record of the epoch before, which a header's seed is bound to
        let (net, me) = (m.net.clone(), me.clone());
        let to = m.others();
        let to = *m.rng.pick(&to);
        tokio::task::spawn_local(async move {
            let req = PrimaryRequest::EpochRecord { epoch: Some(e - 1), hash: None };
            if let Ok(rx) = net.send_request(req, to).await {
                if let Ok(Ok(Ok(r))) = tokio::time::timeout(Duration::from_secs(2), rx).await {
                    if let PrimaryResponse::EpochRecord { record, .. } = r.result {
                        let mut m = me.borrow_mut();
    let m = &mut *m;
                        if record.epoch + 1 == e {
                            m.prior.insert(e, record.digest());
                            m.records.push(record);
                        }
                    }
                }
            }
        });
        return;
    }
    let go = |h: Header, p: Vec<Certificate>, to: Vec<BlsPublicKey>, c: u64| {
        tokio::task::spawn_local(propose(me.clone(), h, p, to, c));
    };
    if !m.proposed.contains(&(e, r)) {
        if m.rng.chance(1, 3) {
            return;
        }
        m.proposed.insert((e, r));
        let mut b = m.header(e, r, &parents);
        if let Some(s) = m.batches.pop() {
            if s.batch.epoch == e {
                b = b.payload([(s.digest, 0)].into_iter().collect());
                simrt::probe("mallory_batch_proposed");
            }
        }
        let a = b.build();
        let all = m.others();
        if m.has(EQUIVOCATE) && m.rng.chance(1, 2) {
            simrt::probe("mallory_equivocated");
            let mut p2 = parents.clone();
            let q = m.committee(e).quorum_threshold() as usize;
            if p2.len() > q {
                let k = m.rng.below(p2.len() as u64) as usize;
                p2.remove(k);
            }
            let t = m.rng.below(2);
            let x = HeaderBuilder::from_header(&a).parents(p2.iter().map(|p| p.header().digest()).collect()).created_at(*a.created_at() - t).build();
            let (ta, tb) = match m.rng.below(3) {
                0 => (all.clone(), all),
                1 => (m.some_others(), m.some_others()),
                _ => {
                    let k = 1 + m.rng.below(all.len() as u64 - 1) as usize;
                    (all[..k].to_vec(), all[k..].to_vec())
                }
            };
            go(a, parents, ta, 0);
            go(x, p2, tb, 0);
        } else if m.has(CERTS) && m.rng.chance(1, 3) {
            // one vote short of a quorum
            let q = m.committee(e).quorum_threshold() as usize;
            let mut to = all;
            m.rng.shuffle(&mut to);
            to.retain(|k| (m.chain.committee)(e).iter().any(|i| m.all[*i].0 == *k));
            to.truncate(q - 2);
            go(a, parents, to, 0);
        } else if m.has(WITHHOLD) && m.rng.chance(1, 2) {
            simrt::probe("mallory_withheld");
            let c = *m.rng.pick(&[1, 1, 300, 1000, 3000]);
            let to = if m.rng.chance(1, 3) { m.some_others() } else { all };
            go(a, parents, to, c);
        } else {
            go(a, parents, all, 0);
        }
        return;
    }
    let kinds: Vec<u64> = (0..KINDS).map(|k| 1 << k).filter(|k| m.has(*k)).collect();
    if kinds.is_empty() || m.rng.chance(1, 2) {
        return;
    }
    let com = m.committee(e);
    match *m.rng.pick(&kinds) {
        // a second header for a round already proposed
        EQUIVOCATE => {
            let back = m.rng.below(3) as u32;
            let r = r.saturating_sub(back).max(1);
            let p: Vec<_> = if r == 1 { Certificate::genesis(&com) } else { m.certs.get(&(e, r - 1)).map(|v| v.values().cloned().collect()).unwrap_or_default() };
            if p.len() >= com.quorum_threshold() as usize {
                let h = m.header(e, r, &p).build();
                let to = m.some_others();
                simrt::probe("mallory_late_equivocation");
                go(h, p, to, 0);
            }
        }
        HEADERS => {
            let q = com.quorum_threshold() as usize;
            let t = now();
            let older: Vec<Certificate> = if r > 2 { m.certs.get(&(e, r - 2)).map(|v| v.values().cloned().collect()).unwrap_or_default() } else { vec![] };
            let k = m.rng.below(15);
            let (h, why) = match k {
                0 => (m.header(e, r, &parents[..q - 1]).build(), "mallory_few_parents"),
                1 => (m.header(e, r, &[]).build(), "mallory_no_parents"),
                2 if r > 2 && older.len() >= q => (m.header(e, r, &older).build(), "mallory_old_parents"),
                3 => (m.header(e, r + 1, &parents).build(), "mallory_wrong_round"),
                4 => (m.header(e, r, &parents).created_at(t + 3600).build(), "mallory_future"),
                5 if r > 1 => (m.header(e, r, &parents).created_at(1).build(), "mallory_before_parents"),
                6 => {
                    let d: B256 = B256::from_slice(&body(m.rng.next(), 32));
                    (m.header(e, r, &parents).payload([(d, 0)].into_iter().collect()).build(), "mallory_no_such_batch")
                }
                7 => (m.header(e + 5, r, &parents).build(), "mallory_future_epoch"),
                8 => (m.header(e, 0, &parents).build(), "mallory_round_zero"),
                9 => (m.header(e, r + 60, &parents).build(), "mallory_far_round"),
                10 => {
                    let s = m.seed(e, r + 1);
                    (m.header(e, r, &parents).seed_signature(s).build(), "mallory_seed")
                }
                11 => {
                    let mut d: BTreeSet<_> = parents.iter().map(|p| p.header().digest()).collect();
                    if d.len() >= q {
                        d.pop_first();
                    }
                    d.insert(HeaderDigest::new(body(m.rng.next(), 32).try_into().unwrap()));
                    (m.header(e, r, &parents).parents(d).build(), "mallory_no_such_parent")
                }
                12 => {
                    let x = BlockNumHash::new(m.exec.number + 1 + m.rng.below(3), B256::from_slice(&body(m.rng.next(), 32)));
                    (m.header(e, r, &parents).latest_execution_block(x).build(), "mallory_other_execution")
                }
                13 => {
                    // in the name of another
                    let ids: Vec<_> = com.authorities().iter().map(|a| a.id()).filter(|a| *a != m.id).collect();
                    let a = m.rng.pick(&ids).clone();
                    (m.header(e, r, &parents).author(a).build(), "mallory_impersonation")
                }
                _ => {
                    let mut b = m.batch(e);
                    b.epoch = e + 3;
                    let s = b.seal_slow();
                    (m.header(e, r, &parents).payload([(s.digest(), 9)].into_iter().collect()).build(), "mallory_other_worker")
                }
            };
            m.bad(&h, why);
            let to = m.some_others();
            go(h, parents, to, 0);
        }
        CERTS => {
            if let Some(c) = m.forged() {
                m.cert(c);
            }
        }
        // a header that rests on a forged certificate
        PARENTS => {
            if let Some(c) = m.forged() {
                let level: Vec<_> = m.certs.get(&(e, c.round())).map(|v| v.values().cloned().collect()).unwrap_or(parents);
                let mut p: Vec<_> = level.iter().filter(|x| x.origin() != c.origin()).cloned().collect();
                p.insert(0, c.clone());
                p.truncate(com.size());
                let h = m.header(e, c.round() + 1, &p).build();
                m.bad(&h, "mallory_forged_parent");
                m.notes.with(|n| n.rests.insert(b256(h.digest()), c.header().clone()));
                let to = m.some_others();
                go(h, p, to, 0);
            }
        }
        RESULTS => {
            let base = m.results.last().copied().unwrap_or_default();
            let jump = *m.rng.pick(&[1, 2, 100]);
            let mut x = ConsensusResult { number: base.number + jump, round: base.round + 2, epoch: e, ..base };
            x.hash = ConsensusHeaderDigest::from(<[u8; 32]>::try_from(body(m.rng.next(), 32)).unwrap());
            x.validator = m.all[m.me].0;
            let sign = |m: &M, x: &ConsensusResult| m.key.request_signature_direct(&encode(&IntentMessage::new(Intent::consensus(IntentScope::ConsensusDigest), x.digest())));
            x.signature = sign(m, &x);
            simrt::probe("mallory_consensus_result");
            for k in 0..m.all.len() {
                let mut y = x;
                match m.rng.below(3) {
                    0 => {}
                    // in the name of another
                    1 => y.validator = m.all[k].0,
                    _ => {
                        y.number += 1;
                        y.signature = sign(m, &y);
                    }
                }
                m.gossip(LibP2pConfig::consensus_output_topic(2017), Gossip::Consensus(Box::new(y)));
            }
        }
        EPOCHS => {
            let mut rec = m.records.last().cloned().unwrap_or_default();
            if m.rng.chance(1, 2) {
                rec.epoch = e;
            }
            let all = m.all.iter().map(|a| a.0).collect::<Vec<_>>();
            match m.rng.below(4) {
                0 => rec.final_state = BlockNumHash::new(rec.final_state.number + 1, B256::repeat_byte(3)),
                1 => rec.next_committee = vec![all[m.me]],
                2 => rec.committee = vec![all[m.me]],
                _ => rec.final_consensus.number += 1,
            }
            let v = rec.sign_vote(&m.key);
            simrt::probe("mallory_epoch_vote");
            for k in 0..m.all.len() {
                let mut y = v;
                match m.rng.below(3) {
                    0 => {}
                    1 => y.public_key = all[k],
                    _ => y.epoch += 1,
                }
                m.gossip(LibP2pConfig::epoch_vote_topic(2017), Gossip::EpochVote(Box::new(y)));
            }
        }
        BATCHES => {
            let mut b = m.batch(e);
            let k = m.rng.below(9);
            let why = match k {
                0 => {
                    b.epoch = e + 3;
                    "mallory_batch_epoch"
                }
                1 => {
                    b.base_fee_per_gas += 1;
                    "mallory_batch_fee"
                }
                2 => {
                    b.transactions.clear();
                    "mallory_batch_empty"
                }
                3 => {
                    b.worker_id = 3;
                    "mallory_batch_worker"
                }
                4 => {
                    b.transactions.push(body(m.rng.next(), 60));
                    "mallory_batch_garbage"
                }
                _ => "",
            };
            let mut s = b.seal_slow();
            let mut why = why;
            if k == 5 {
                why = "mallory_batch_digest";
                s.digest = B256::from_slice(&body(m.rng.next(), 32));
            }
            if !why.is_empty() {
                simrt::probe(why);
                m.notes.with(|n| n.batches.insert(s.digest, why));
                m.evil.push(s.clone());
            } else {
                m.batches.push(s.clone());
            }
            let net = m.wnet.clone();
            for p in if why.is_empty() { m.others() } else { m.some_others() } {
                let (net, s) = (net.clone(), s.clone());
                tokio::task::spawn_local(async move {
                    if let Ok(rx) = net.send_request(WorkerRequest::ReportBatch { sealed_batch: s }, p).await {
                        let _ = rx.await;
                    }
                });
            }
            if !why.is_empty() && m.rng.chance(1, 2) {
                let h = m.header(e, r, &parents).payload([(s.digest, 0)].into_iter().collect()).build();
                m.bad(&h, "mallory_header_of_bad_batch");
                let to = m.some_others();
                go(h, parents, to, 0);
            }
        }
        REPLAY => {
            if m.seen.is_empty() {
                return;
            }
            let k = m.rng.below(m.seen.len() as u64) as usize;
            let h = m.seen[k].clone();
            simrt::probe("mallory_replay");
            if m.rng.chance(1, 2) {
                let d = h.digest();
                if let Some(c) = m.find(&d) {
                    m.cert(c);
                    return;
                }
            }
            let to = m.some_others();
            go(h, vec![], to, 1);
        }
        STREAMS => {
            let b = body(m.rng.next(), 1 + m.rng.clone().below(200) as usize);
            let topics = [LibP2pConfig::primary_topic(2017), LibP2pConfig::consensus_output_topic(2017), LibP2pConfig::epoch_vote_topic(2017)];
            let t = m.rng.pick(&topics).clone();
            simrt::probe("mallory_garbage_gossip");
            m.raw(t, b.clone());
            // and a stream that says nothing sensible
            let to = m.some_others();
            let k = m.rng.below(3);
            let net = m.net.clone();
            tokio::task::spawn_local(async move {
                if let Ok(Ok(mut s)) = net.open_stream(to[0]).await {
                    if k > 0 {
                        let _ = s.write_all(&b).await;
                        let _ = s.flush().await;
                    }
                    if k > 1 {
                        tokio::time::sleep(Duration::from_secs(3)).await;
                    }
                    let _ = s.close().await;
                }
            });
        }
        _ => {}
    }
}

fn primary_event(me: &Me, e: NetworkEvent<PrimaryRequest, PrimaryResponse>) {
    let mut m = me.borrow_mut();
    let m = &mut *m;
    match e {
        NetworkEvent::Request { peer, request, channel, .. } => {
            let net = m.net.clone();
            let evil = m.has(VOTES) && m.rng.chance(1, 3);
            let res = match request {
                PrimaryRequest::Vote { header, parents } => {
                    m.see(&header);
                    for p in &parents {
                        m.learn(p);
                    }
                    let good = m.vote(&header);
                    if !evil {
                        PrimaryResponse::Vote(good)
                    } else {
                        simrt::probe("mallory_evil_vote");
                        let mut v = good;
                        match m.rng.below(9) {
                            0 => v.signature = BlsSignature::default(),
                            1 => {
                                // of another header
                                let k = m.rng.below(m.seen.len() as u64) as usize;
                                v = m.vote(&m.seen[k]);
                            }
                            2 => {
                                let k = m.rng.below(m.all.len() as u64) as usize;
                                v.author = m.all[k].0.into();
                            }
                            3 => v.round += 1,
                            4 => v.epoch += 1,
                            5 => {
                                let d = header.parents().iter().next().copied();
                                let r = PrimaryResponse::MissingParents(d.into_iter().chain([HeaderDigest::new([7; 32])]).collect());
                                tokio::task::spawn_local(async move {
                                    let _ = net.send_response(r, channel).await;
                                });
                                return;
                            }
                            6 => {
                                let e = tn_primary_error("no");
                                tokio::task::spawn_local(async move {
                                    let _ = net.send_response(e, channel).await;
                                });
                                return;
                            }
                            7 => {
                                // silence
                                tokio::task::spawn_local(async move {
                                    tokio::time::sleep(Duration::from_secs(30)).await;
                                    drop(channel);
                                });
                                return;
                            }
                            _ => v.origin = m.id.clone(),
                        }
                        PrimaryResponse::Vote(v)
                    }
                }
                PrimaryRequest::EpochRecord { epoch, .. } => {
                    let mut r = m.records.iter().find(|r| Some(r.epoch) == epoch).cloned().unwrap_or_default();
                    if !m.has(EPOCHS) {
                        tn_primary_error("none")
                    } else {
                        if let Some(e) = epoch {
                            r.epoch = e;
                        }
                        r.final_state.number += 1;
                        let v = r.sign_vote(&m.key);
                        let n = m.all.len() as u32;
                        simrt::probe("mallory_epoch_record");
                        PrimaryResponse::EpochRecord {
                            record: r,
                            certificate: EpochCertificate { epoch_hash: v.epoch_hash, signature: v.signature, signed_authorities: (0..n).collect() },
                        }
                    }
                }
                PrimaryRequest::PeerExchange { .. } => {
                    let _ = peer;
                    return;
                }
            };
            tokio::task::spawn_local(async move {
                let _ = net.send_response(res, channel).await;
            });
        }
        NetworkEvent::Gossip(g) => match bcs::from_bytes::<Gossip>(&g.message.data) {
            Ok(Gossip::Certificate(c)) => m.learn(&c),
            Ok(Gossip::Consensus(c)) => {
                if m.results.last().is_none_or(|x| x.number < c.number) {
                    m.results.push(*c);
                }
            }
            _ => {}
        },
        NetworkEvent::InboundStream { mut stream, .. } => {
            if !m.has(STREAMS) {
                let k = m.rng.below(2);
                tokio::task::spawn_local(async move {
                    deny::<PrimarySyncRequest>(&mut stream, k).await;
                });
                return;
            }
            let forged: Vec<Certificate> = (0..3).filter_map(|_| m.forged()).collect();
            let real: Vec<Certificate> = m.certs.values().rev().take(3).flat_map(|v| v.values().cloned()).collect();
            let k = m.rng.below(6);
            let bytes = body(m.rng.next(), 3000);
            let me = m.me;
            let mut r = Rng::new(m.rng.next());
            let others: Vec<usize> = (0..m.all.len()).filter(|i| *i != me).collect();
            tokio::task::spawn_local(async move {
                let (mut a, mut b) = (vec![], vec![]);
                let Ok(SyncFrame::Req(req)) = read_frame::<_, PrimarySyncRequest>(&mut stream, &mut a, &mut b, 1 << 20).await else { return };
                simrt::probe("mallory_stream");
                if k == 0 {
                    return deny::<PrimarySyncRequest>(&mut stream, 1).await;
                }
                if k == 1 {
                    tokio::time::sleep(Duration::from_secs(30)).await;
                    return;
                }
                let mut frames = vec![SyncFrame::Ack];
                match req {
                    PrimarySyncRequest::MissingCertificates { .. } => {
                        let mut v = forged;
                        v.extend(real);
                        frames.push(SyncFrame::Data(if k == 2 { bytes } else { encode(&v) }));
                    }
                    PrimarySyncRequest::EpochPack { epoch } | PrimarySyncRequest::EpochPackPartial { epoch, .. } => {
                        // what an honest node has, tampered with
                        let i = *r.pick(&others);
                        let p = format!("/sim/{}/consensus-db/epochs/epoch-{epoch}/data", vol(i));
                        let mut d = disk().peek(&p).unwrap_or_default().to_vec();
                        match r.below(4) {
                            0 => d.truncate(r.below(d.len() as u64 + 1) as usize),
                            1 if !d.is_empty() => {
                                let at = r.below(d.len() as u64) as usize;
                                d[at] ^= 1 << r.below(8);
                            }
                            2 => d.extend_from_slice(&bytes[..100]),
                            _ => {}
                        }
                        simrt::probe("mallory_pack");
                        for c in d.chunks(200_000) {
                            frames.push(SyncFrame::Data(c.to_vec()));
                        }
                    }
                    PrimarySyncRequest::ConsensusOutput { .. } => frames.push(SyncFrame::Data(bytes)),
                }
                frames.push(match k {
                    3 => SyncFrame::Err(SyncFrameError::Internal),
                    _ => SyncFrame::End,
                });
                for f in frames {
                    if write_frame::<_, PrimarySyncRequest>(&mut stream, &f, &mut a, &mut b, 1 << 20).await.is_err() {
                        return;
                    }
                }
                let _ = stream.flush().await;
                let _ = stream.close().await;
            });
        }
        NetworkEvent::Error(..) => {}
    }
}
fn tn_primary_error(s: &str) -> PrimaryResponse {
    // the error type is private; its encoding is a string
    let b = [vec![4u8, s.len() as u8], s.as_bytes().to_vec()].concat();
    bcs::from_bytes(&b).expect("an error")
}
async fn deny<R: serde::Serialize + serde::de::DeserializeOwned + Sync>(s: &mut Stream, k: u64) {
    let (mut a, mut b) = (vec![], vec![]);
    if k > 0 {
        let _ = write_frame::<_, R>(s, &SyncFrame::Deny(DenyReason::Unavailable), &mut a, &mut b, 1 << 20).await;
        let _ = s.flush().await;
    }
    let _ = s.close().await;
}
fn worker_event(me: &Me, e: NetworkEvent<WorkerRequest, WorkerResponse>) {
    let mut m = me.borrow_mut();
    let m = &mut *m;
    match e {
        NetworkEvent::Request { request: WorkerRequest::ReportBatch { .. }, channel, .. } => {
            if m.has(VOTES) && m.rng.chance(1, 4) {
                return;
            }
            // acknowledged, and not kept
            let net = m.wnet.clone();
            tokio::task::spawn_local(async move {
                let _ = net.send_response(WorkerResponse::ReportBatch, channel).await;
            });
        }
        NetworkEvent::InboundStream { mut stream, .. } => {
            let k = m.rng.below(4);
            let own: Vec<_> = m.batches.iter().chain(&m.evil).cloned().collect();
            let mut other = m.batch(0);
            other.epoch = m.front().map(|f| f.0).unwrap_or(0);
            let junk = body(m.rng.next(), 300);
            tokio::task::spawn_local(async move {
                let (mut a, mut b) = (vec![], vec![]);
                let Ok(SyncFrame::Req(WorkerSyncRequest::Batches { batch_digests, .. })) = read_frame(&mut stream, &mut a, &mut b, 1 << 20).await else { return };
                simrt::probe("mallory_batch_stream");
                if k == 0 {
                    return deny::<WorkerSyncRequest>(&mut stream, 1).await;
                }
                let mut frames = vec![SyncFrame::Ack];
                for s in own.iter().filter(|s| batch_digests.contains(&s.digest)) {
                    frames.push(SyncFrame::Data(encode(&s.batch)));
                }
                match k {
                    1 => frames.push(SyncFrame::Data(junk)),
                    // a batch nobody asked for
                    2 => frames.push(SyncFrame::Data(encode(&other))),
                    _ => {}
                }
                frames.push(SyncFrame::End);
                for f in frames {
                    if write_frame::<_, WorkerSyncRequest>(&mut stream, &f, &mut a, &mut b, 1 << 20).await.is_err() {
                        return;
                    }
                }
                let _ = stream.flush().await;
                let _ = stream.close().await;
            });
        }
        _ => {}
    }
}
