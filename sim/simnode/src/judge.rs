//! The oracles over the history of a simulated cluster.
use crate::cluster::*;
use crate::wire::{decode, Gossip, Msg, Sent};
use crate::world::*;
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use tn_primary::network::{PrimaryRequest, PrimaryResponse};
use tn_types::{AuthorityIdentifier, Certificate, Epoch, Header, B256};
use tn_worker::{WorkerRequest, WorkerResponse};

pub fn ids(w: &World) -> HashMap<AuthorityIdentifier, usize> {
    // of twins the first
    w.c.nodes.iter().enumerate().rev().map(|(i, n)| (n.bls.into(), i)).collect()
}
pub fn quorum(n: usize) -> usize {
    2 * n / 3 + 1
}
/// The nodes that keep to the protocol.
pub fn honest(w: &World) -> impl Iterator<Item = (usize, &NodeLog)> {
    w.h.nodes.iter().enumerate().filter(|(i, _)| !w.byz[*i])
}
pub fn committee(w: &World, e: Epoch) -> Vec<usize> {
    (w.c.chain.committee)(e)
}

/// Which node publishes under this peer id.
fn publisher(w: &World, source: &[u8]) -> Option<usize> {
    w.c.nodes.iter().position(|n| {
        let p: tn_network_libp2p::PeerId = n.key.primary_network_public_key().into();
        p.to_bytes() == source
    })
}

/// P01: one totally ordered history.
pub fn agreement(_: &Scenario, w: &World) {
    if let Some((_, _, m)) = w.h.problems.iter().find(|p| p.0 == "order" && !w.byz[p.1]) {
        violate("two_values", m.clone());
    }
    let mut chain: BTreeMap<u64, (usize, &Seen)> = BTreeMap::new();
    for (i, n) in honest(w) {
        for (k, s) in &n.outputs {
            match chain.get(k) {
                Some((j, t)) => check!(t.digest == s.digest, "fork",
                    "output {k} is {} at n{j} and {} at n{i}: leaders {:?} and {:?}",
                    t.digest, s.digest, t.header.sub_dag.leader(), s.header.sub_dag.leader()),
                None => {
                    chain.insert(*k, (i, s));
                }
            }
        }
    }
    let mut prev: Option<(u64, &Seen)> = None;
    for (k, (i, s)) in &chain {
        let l = s.header.sub_dag.leader();
        if let Some((pk, p)) = prev {
            check!(*k == pk + 1, "gap", "output {k} follows {pk} in the union of what the nodes hold");
            check!(b256(s.header.parent_hash) == p.digest, "broken_link",
                "output {k} at n{i} names parent {:?}, output {pk} is {}", s.header.parent_hash, p.digest);
            let pl = p.header.sub_dag.leader();
            check!(l.epoch() >= pl.epoch() && l.epoch() <= pl.epoch() + 1, "epoch_order",
                "output {k} is of epoch {} after one of epoch {}", l.epoch(), pl.epoch());
            check!(l.epoch() > pl.epoch() || l.round() > pl.round(), "round_order",
                "output {k} has leader round {} after round {} in epoch {}", l.round(), pl.round(), l.epoch());
            check!(s.header.sub_dag.commit_timestamp() >= p.header.sub_dag.commit_timestamp(), "time_order",
                "output {k} is stamped {} after {}", s.header.sub_dag.commit_timestamp(), p.header.sub_dag.commit_timestamp());
        } else {
            check!(*k == 1, "gap", "no node holds any output before {k}");
        }
        prev = Some((*k, s));
    }
    // every node's own record is a gapless run of it, except that whole epochs are fetched side by side
    let mut ends: BTreeMap<Epoch, (u64, u64)> = BTreeMap::new();
    for (k, (_, s)) in &chain {
        let e = ends.entry(s.header.sub_dag.leader().epoch()).or_insert((*k, *k));
        e.1 = *k;
    }
    for (i, n) in honest(w) {
        let mut runs: BTreeMap<Epoch, Vec<u64>> = BTreeMap::new();
        for (k, s) in &n.outputs {
            runs.entry(s.header.sub_dag.leader().epoch()).or_default().push(*k);
        }
        let mut behind: Option<Epoch> = None;
        for (e, ks) in &runs {
            let (first, last) = ends[e];
            let (a, b) = (ks[0], ks[ks.len() - 1]);
            check!((b - a + 1) as usize == ks.len(), "hole", "n{i} holds {} outputs between {a} and {b} of epoch {e}, not {:?}", ks.len(),
                (a..b).filter(|k| !n.outputs.contains_key(k)).collect::<Vec<_>>());
            check!(a == first, "hole", "n{i} holds outputs {a} to {b} of epoch {e}, which starts with {first}");
            if let Some(p) = behind {
                simrt::probe("epoch_fetched_before_an_earlier_one");
                check!(b == last, "hole", "n{i} holds outputs {a} to {b} of epoch {e} but of epoch {p} only some, and {last} is the last of epoch {e}");
            }
            if b < last {
                behind = Some(*e);
            }
        }
    }
}

/// P02: what correct nodes put their name to.
pub fn one_per_round(w: &World, wire: &[Sent]) {
    let id = ids(w);
    let mut headers: BTreeMap<(usize, Epoch, u32), (B256, u64)> = BTreeMap::new();
    let mut votes: BTreeMap<(usize, usize, Epoch, u32), (B256, u64)> = BTreeMap::new();
    let mut nv = 0;
    for s in wire {
        match &s.msg {
            Msg::PReq(PrimaryRequest::Vote { header, .. }) => {
                let Some(&a) = id.get(header.author()) else { continue };
                if a != s.from || w.byz[a] {
                    continue;
                }
                let k = (a, header.epoch(), header.round());
                let d = b256(header.digest());
                let e = headers.entry(k).or_insert((d, s.at));
                check!(e.0 == d, "two_headers",
                    "n{a} proposed {} at {} ms and {d} at {} ms, both for epoch {} round {}",
                    e.0, e.1 / 1_000_000, s.at / 1_000_000, k.1, k.2);
            }
            Msg::PRes(req, PrimaryResponse::Vote(v)) => {
                nv += 1;
                if let (Some(PrimaryRequest::Vote { header, .. }), false) = (req, w.byz[s.from]) {
                    check!(v.header_digest() == header.digest() && v.origin() == header.author() && id.get(v.author()) == Some(&s.from),
                        "other_vote", "n{} answered a request to vote for {header:?} with {v:?}", s.from);
                    check!(id.get(header.author()) == Some(&w.role(s.to)), "vote_for_stranger",
                        "n{} voted for {header:?} when n{} asked, which is not its author", s.from, s.to);
                }
                let (Some(&voter), Some(&author)) = (id.get(v.author()), id.get(v.origin())) else { continue };
                if voter != s.from || w.byz[voter] {
                    continue;
                }
                let k = (voter, author, v.epoch(), v.round());
                let d = b256(v.header_digest());
                let e = votes.entry(k).or_insert((d, s.at));
                check!(e.0 == d, "two_votes",
                    "n{voter} voted for {} at {} ms and for {d} at {} ms, both of n{author} in epoch {} round {}",
                    e.0, e.1 / 1_000_000, s.at / 1_000_000, k.2, k.3);
            }
            _ => {}
        }
    }
    if nv > 0 {
        simrt::probe("votes_seen");
    }
}

/// Every certificate seen on the wires that a node put there which accepted it.
fn certificates<'a>(w: &World, wire: &'a [Sent]) -> Vec<(&'a Sent, &'a Certificate)> {
    let mut v = vec![];
    // what a node that departs from the protocol published is passed on before it is looked into
    let mut who: HashMap<&[u8], bool> = HashMap::new();
    for s in wire {
        match &s.msg {
            Msg::Gossip { msg: Gossip::Certificate(c), source, .. } => {
                if *who.entry(source).or_insert_with(|| publisher(w, source).is_some_and(|i| Some(i) != w.mallory.map(|m| m.0))) {
                    v.push((s, &**c))
                }
            }
            Msg::PReq(PrimaryRequest::Vote { parents, .. }) if Some(s.from) != w.mallory.map(|m| m.0) => v.extend(parents.iter().map(|c| (s, c))),
            _ => {}
        }
    }
    v
}

/// P03: what is committed is certified, once, with its history.
pub fn causal(w: &World, wire: &[Sent]) {
    let id = ids(w);
    let mut known: HashMap<B256, Header> = HashMap::new();
    let mut voted: HashSet<(usize, B256)> = HashSet::new();
    for s in wire {
        match &s.msg {
            Msg::PReq(PrimaryRequest::Vote { header, parents }) => {
                known.entry(b256(header.digest())).or_insert_with(|| (**header).clone());
                for p in parents {
                    known.entry(b256(p.header().digest())).or_insert_with(|| p.header().clone());
                }
            }
            Msg::PRes(_, PrimaryResponse::Vote(v)) => {
                if let Some(&x) = id.get(v.author()) {
                    voted.insert((x, b256(v.header_digest())));
                }
            }
            Msg::Gossip { msg: Gossip::Certificate(c), .. } => {
                known.entry(b256(c.header().digest())).or_insert_with(|| c.header().clone());
            }
            _ => {}
        }
    }
    // certificates
    let mut certified: HashSet<B256> = HashSet::new();
    for (s, c) in certificates(w, wire) {
        if c.round() == 0 {
            continue;
        }
        let com = committee(w, c.epoch());
        let signers: Vec<u32> = c.signed_authorities().iter().collect();
        check!(signers.len() >= quorum(com.len()), "thin_certificate",
            "n{} sent a certificate of {:?} with {} of {} signers", s.from, c.header(), signers.len(), com.len());
        let d = b256(c.header().digest());
        for x in signers {
            let Some(&n) = com.get(x as usize) else {
                violate("stranger_signed", format!("{:?} is signed by member {x} of {}", c.header(), com.len()))
            };
            check!(id.get(c.origin()) == Some(&n) || w.byz[n] || voted.contains(&(n, d)), "unvoted_signature",
                "the certificate of {:?} carries the signature of n{n}, which never sent a vote for it", c.header());
        }
        certified.insert(d);
    }
    // commits, in order
    let mut chain: BTreeMap<u64, &Seen> = BTreeMap::new();
    for (_, n) in honest(w) {
        for (k, s) in &n.outputs {
            chain.entry(*k).or_insert(s);
        }
    }
    let mut done: HashMap<B256, u64> = HashMap::new();
    let mut last: HashMap<(Epoch, usize), u32> = HashMap::new();
    let mut committed: HashMap<B256, Header> = HashMap::new();
    for (k, s) in &chain {
        let hs = s.header.sub_dag.headers();
        let leader = s.header.sub_dag.leader().clone();
        let com = committee(w, leader.epoch());
        check!(leader.round() % 2 == 0 && leader.round() >= 2, "leader_round", "output {k} has leader {leader:?}");
        let before = last.clone();
        for (j, h) in hs.iter().enumerate() {
            let d = b256(h.digest());
            check!(h.epoch() == leader.epoch(), "foreign_epoch", "output {k} of epoch {} commits {h:?}", leader.epoch());
            let Some(&a) = id.get(h.author()).filter(|a| com.contains(a)) else {
                violate("stranger_committed", format!("output {k} commits {h:?}, whose author is not of the committee of epoch {}", leader.epoch()))
            };
            if let Some(o) = done.get(&d) {
                violate("committed_twice", format!("{h:?} is committed by outputs {o} and {k}"));
            }
            done.insert(d, *k);
            committed.insert(d, h.clone());
            check!(h.round() <= leader.round() && (j + 1 == hs.len()) == (h.round() == leader.round()), "not_below_leader",
                "output {k} with leader {leader:?} holds {h:?} at place {j} of {}", hs.len());
            if j > 0 {
                check!(hs[j - 1].round() <= h.round(), "not_by_round", "output {k}: {h:?} follows {:?}", hs[j - 1]);
            }
            if h.round() > 1 {
                check!(h.parents().len() >= quorum(com.len()), "few_parents", "output {k}: {h:?} has {} parents", h.parents().len());
                let mut authors = BTreeSet::new();
                for p in h.parents() {
                    let p = b256(*p);
                    let Some(ph) = committed.get(&p).or_else(|| known.get(&p)) else {
                        simrt::probe("parent_never_seen");
                        continue;
                    };
                    check!(ph.round() + 1 == h.round() && ph.epoch() == h.epoch(), "wrong_parent_round",
                        "output {k}: {h:?} has parent {ph:?}");
                    check!(authors.insert(ph.author().clone()), "parents_of_one_author", "output {k}: {h:?} has two parents of one author");
                    let pa = id.get(ph.author()).copied().unwrap_or(usize::MAX);
                    // the parent is in, or its author had already been committed past it, or it is too old
                    let old = before.get(&(ph.epoch(), pa)).is_some_and(|r| ph.round() <= *r);
                    let gc = ph.round() + 45 <= leader.round();
                    check!(done.contains_key(&p) || old || gc, "missing_ancestor",
                        "output {k} with leader {leader:?} commits {h:?} before its parent {ph:?}");
                }
            }
            let backing = com.iter().filter(|x| w.byz[**x] || **x == a || voted.contains(&(**x, d))).count();
            check!(backing >= quorum(com.len()), "uncertified", "output {k} commits {h:?}, for which {backing} of {} can have voted", com.len());
            if !certified.contains(&d) {
                simrt::probe("certificate_not_on_the_wire");
            }
            let l = last.entry((h.epoch(), a)).or_default();
            *l = (*l).max(h.round());
        }
    }
    // an honest cluster has one certified header per author and round
    let mut per: HashMap<(Epoch, u32, AuthorityIdentifier), B256> = HashMap::new();
    for (d, h) in certified.iter().filter_map(|d| known.get(d).map(|h| (*d, h))).chain(committed.iter().map(|(d, h)| (*d, h))) {
        let e = *per.entry((h.epoch(), h.round(), h.author().clone())).or_insert(d);
        check!(e == d, "two_certified", "two headers of one author are certified: {e} and {h:?}");
    }
}

/// P04: the cluster moves on once the faults are over.
pub fn progress(_: &Scenario, w: &World) {
    if let Some((i, _, m)) = w.h.panics.iter().find(|p| !p.1 && !w.byz[p.0]) {
        violate("panicked", format!("n{i} panicked: {m}"));
    }
    if w.settled() {
        return;
    }
    let s: Vec<String> = (0..w.n)
        .map(|i| {
            format!("n{i}: running {} tip {} blocks {} starts {}", w.c.running(i), w.h.tip(i), w.h.nodes[i].blocks.len(), w.c.nodes[i].starts)
        })
        .collect();
    violate("no_progress", format!(
        "{} s after the faults ended (then tip {} block {}): {}",
        (simrt::now_ns() - w.h.quiet_at) / 1_000_000_000, w.h.quiet_tip, w.h.quiet_block, s.join("; ")));
}

/// P05: what correct nodes do with what is not as it should be.
pub fn vouched(w: &World, wire: &[Sent]) {
    if let Some((i, _, m)) = w.h.panics.iter().find(|p| !p.1 && !w.byz[p.0]) {
        violate("panicked", format!("n{i} panicked: {m}"));
    }
    let id = ids(w);
    let mut voted: BTreeMap<B256, BTreeSet<usize>> = BTreeMap::new();
    for s in wire {
        if let Msg::PRes(_, PrimaryResponse::Vote(v)) = &s.msg {
            if let Some(&x) = id.get(v.author()) {
                voted.entry(b256(v.header_digest())).or_default().insert(x);
            }
        }
    }
    w.notes.with(|bad| {
        let bad = &mut *bad;
        for (d, p) in &bad.rests {
            let com = committee(w, p.epoch());
            let v = voted.get(&b256(p.digest()));
            if com.iter().filter(|x| w.byz[**x] || v.is_some_and(|v| v.contains(x))).count() >= quorum(com.len()) {
                simrt::probe("mallory_parent_certified_later");
                bad.headers.remove(d);
            }
        }
        for s in wire.iter().filter(|s| !w.byz[s.from]) {
            match &s.msg {
                Msg::PRes(_, PrimaryResponse::Vote(v)) => {
                    if let Some(why) = bad.headers.get(&b256(v.header_digest())) {
                        violate("vouched_header", format!("n{} voted for a header of n{}, round {}: {why}", s.from, s.to, v.round()));
                    }
                }
                Msg::WRes(Some(WorkerRequest::ReportBatch { sealed_batch: b }), WorkerResponse::ReportBatch) => {
                    if let Some(why) = bad.batches.get(&b.digest) {
                        violate("vouched_batch", format!("n{} acknowledged a batch of n{}: {why}", s.from, s.to));
                    }
                    check!(b.digest == b.batch.digest(), "vouched_batch", "n{} acknowledged a batch of n{} under another digest", s.from, s.to);
                }
                _ => {}
            }
        }
        for (i, n) in honest(w) {
            for (k, s) in &n.outputs {
                for h in s.header.sub_dag.headers() {
                    if let Some(why) = bad.headers.get(&b256(h.digest())) {
                        violate("committed_bad", format!("output {k} at n{i} commits {h:?}: {why}"));
                    }
                    for d in h.payload().keys() {
                        if let Some(why) = bad.batches.get(d) {
                            violate("committed_bad", format!("output {k} at n{i} commits {h:?} with a batch: {why}"));
                        }
                    }
                }
            }
        }
    });
}

/// P06: the execution chain is the one the agreed outputs call for.
pub fn execution(_: &Scenario, w: &World) {
    if let Some((_, _, m)) = w.h.problems.iter().find(|p| p.0 == "rewrite" && !w.byz[p.1]) {
        violate("rewritten", m.clone());
    }
    let id = ids(w);
    let mut chain: BTreeMap<u64, &Seen> = BTreeMap::new();
    for (_, n) in honest(w) {
        for (k, s) in &n.outputs {
            chain.entry(*k).or_insert(s);
        }
    }
    struct Want {
        output: u64,
        digest: B256,
        batch: B256,
        index: usize,
        beneficiary: tn_types::Address,
        time: u64,
        nonce: u64,
        closing: Option<B256>,
        epoch: Epoch,
    }
    let mut want: Vec<Want> = vec![];
    let mut boundary = w.c.chain.genesis.timestamp + w.c.chain.epoch_duration as u64;
    let mut closed: Option<Epoch> = None;
    for (k, s) in &chain {
        let sd = &s.header.sub_dag;
        let l = sd.leader();
        if closed == Some(l.epoch()) {
            violate("after_close", format!("output {k} is of epoch {}, which an earlier output closed", l.epoch()));
        }
        let time = sd.commit_timestamp();
        let closing = time >= boundary;
        if closing {
            closed = Some(l.epoch());
            boundary = time + w.c.chain.epoch_duration as u64;
        }
        let n = sd.num_primary_batches();
        let mut index = 0;
        for h in sd.headers() {
            let b = id.get(h.author()).map(|i| w.c.nodes[*i].address).unwrap_or_default();
            for d in h.payload().keys() {
                want.push(Want {
                    output: *k,
                    digest: s.digest,
                    batch: *d,
                    index,
                    beneficiary: b,
                    time,
                    nonce: l.nonce(),
                    closing: (closing && index + 1 == n).then(|| sd.randomness()),
                    epoch: l.epoch(),
                });
                index += 1;
            }
        }
        if n == 0 && closing {
            want.push(Want {
                output: *k,
                digest: s.digest,
                batch: B256::ZERO,
                index: 0,
                beneficiary: id.get(l.author()).map(|i| w.c.nodes[*i].address).unwrap_or_default(),
                time,
                nonce: l.nonce(),
                closing: Some(sd.randomness()),
                epoch: l.epoch(),
            });
        }
    }
    if want.iter().any(|x| x.closing.is_some()) {
        simrt::probe("epoch_closed");
    }
    let first = honest(w).next();
    for (i, n) in honest(w) {
        let mut parent: Option<B256> = None;
        for (j, b) in n.blocks.iter().enumerate() {
            let h = b.header.header();
            check!(h.number == j as u64 + 1, "block_number", "n{i}: block {} at place {j}", h.number);
            if let Some(p) = parent {
                check!(h.parent_hash == p, "block_link", "n{i}: block {} names parent {}, which is {p}", h.number, h.parent_hash);
            }
            parent = Some(b.header.hash());
            let Some(x) = want.get(j) else {
                violate("extra_block", format!("n{i} executed block {} (of output digest {:?}), but the agreed outputs call for {} blocks",
                    h.number, h.parent_beacon_block_root, want.len()))
            };
            let at = format!("n{i}: block {} should be batch {} of output {} (epoch {})", h.number, x.index, x.output, x.epoch);
            check!(h.parent_beacon_block_root == Some(x.digest), "wrong_output", "{at}, names output {:?} instead of {}", h.parent_beacon_block_root, x.digest);
            check!(h.ommers_hash == x.batch, "wrong_batch", "{at}: batch {} instead of {}", h.ommers_hash, x.batch);
            check!(h.difficulty.to::<u64>() >> 16 == x.index as u64, "wrong_index", "{at}: index {}", h.difficulty);
            check!(h.beneficiary == x.beneficiary, "wrong_beneficiary", "{at}: beneficiary {} instead of {}", h.beneficiary, x.beneficiary);
            check!(h.timestamp == x.time, "wrong_time", "{at}: timestamp {} instead of {}", h.timestamp, x.time);
            check!(u64::from_be_bytes(h.nonce.0) == x.nonce, "wrong_nonce", "{at}: nonce {:?} instead of {}", h.nonce, x.nonce);
            let extra = x.closing.map(|c| c.to_vec()).unwrap_or_default();
            check!(h.extra_data.to_vec() == extra, "wrong_close", "{at}: extra data {} instead of {:?}", h.extra_data, x.closing);
            if x.batch != B256::ZERO {
                if let Some(t) = w.h.batches.get(&x.batch) {
                    check!(t.transactions == b.txs, "wrong_transactions", "{at}: {} transactions instead of {}", b.txs.len(), t.transactions.len());
                } else {
                    simrt::probe("batch_not_on_any_disk");
                }
            } else {
                check!(b.txs.is_empty(), "wrong_transactions", "{at}: an empty closing block with {} transactions", b.txs.len());
            }
            if let Some((k, o)) = first.filter(|f| f.0 < i && j < f.1.blocks.len()) {
                let o = &o.blocks[j];
                check!(o.header.hash() == b.header.hash(), "block_fork", "block {} is {} at n{k} and {} at n{i}", h.number, o.header.hash(), b.header.hash());
            }
        }
    }
}

/// P22: a header names only batches a quorum holds.
pub fn available(w: &World, wire: &[Sent]) {
    let id = ids(w);
    // (batch, holder)
    let mut acked: HashMap<B256, BTreeMap<usize, u64>> = HashMap::new();
    let mut batches: HashMap<B256, (usize, Epoch)> = HashMap::new();
    for s in wire {
        match &s.msg {
            Msg::WReq(WorkerRequest::ReportBatch { sealed_batch }) => {
                batches.entry(sealed_batch.digest).or_insert((s.from, sealed_batch.batch.epoch));
            }
            Msg::WRes(Some(WorkerRequest::ReportBatch { sealed_batch }), WorkerResponse::ReportBatch) => {
                acked.entry(sealed_batch.digest).or_default().entry(w.role(s.from)).or_insert(s.at);
            }
            Msg::PReq(PrimaryRequest::Vote { header, .. }) => {
                if id.get(header.author()) != Some(&s.from) || w.byz[s.from] {
                    continue;
                }
                let com = committee(w, header.epoch());
                for d in header.payload().keys() {
                    let n = acked.get(d).map(|a| a.keys().filter(|x| com.contains(x) && **x != s.from).count()).unwrap_or(0);
                    check!(n + 1 >= quorum(com.len()), "unavailable",
                        "n{} proposed {header:?} with batch {d}, which {n} of {} others had acknowledged", s.from, com.len() - 1);
                    simrt::probe("batch_proposed");
                }
            }
            _ => {}
        }
    }
    // what is executed can be had from the disks of those that acknowledged it
    let _ = batches;
}

pub struct Wire(pub Vec<Sent>);
pub fn p02(_: &Scenario, w: &World) {
    one_per_round(w, &decode());
}
pub fn p03(_: &Scenario, w: &World) {
    causal(w, &decode());
}
pub fn p22(_: &Scenario, w: &World) {
    available(w, &decode());
}
pub fn p05(sc: &Scenario, w: &World) {
    let wire = decode();
    vouched(w, &wire);
    agreement(sc, w);
    one_per_round(w, &wire);
    causal(w, &wire);
    available(w, &wire);
}
pub fn all(sc: &Scenario, w: &World) {
    let wire = decode();
    for (m, n) in wire.iter().map(|s| match &s.msg {
        Msg::PReq(_) => "preq",
        Msg::PRes(..) => "pres",
        Msg::WReq(_) => "wreq",
        Msg::WRes(..) => "wres",
        Msg::Gossip { msg: Gossip::Certificate(_), .. } => "gcert",
        Msg::Gossip { msg: Gossip::Consensus(_), .. } => "gcons",
        Msg::Gossip { msg: Gossip::EpochVote(_), .. } => "gvote",
    }).fold(BTreeMap::<&str, u64>::new(), |mut m, k| { *m.entry(k).or_default() += 1; m }) {
        simrt::note(|| format!("wire {m} {n}"));
    }
    vouched(w, &wire);
    agreement(sc, w);
    one_per_round(w, &wire);
    causal(w, &wire);
    execution(sc, w);
    available(w, &wire);
    progress(sc, w);
}

const REAL: &[&str] = &[
    "tn-node (EpochManager, launch_node), tn-primary, tn-worker, tn-executor, state-sync, tn-engine, tn-batch-builder, tn-batch-validator",
    "tn-network-libp2p on libp2p (gossipsub, kad, request-response, stream), tn-storage (packs, indexes, redb), tn-config, tn-types, tn-utils",
    "tokio current-thread runtime and every thread the node starts",
];
const STUB: &[&str] = &[
    "transport: an in-process network below libp2p's Transport (crates/network-libp2p, cfg(tn_sim)) in place of QUIC",
    "execution: the tn-reth stand-in chains and persists the real TNPayload (crates/tn-reth/src/payload.rs) without running transactions",
    "blst: signatures are keyed hashes (unforgeable, aggregates checked signer by signer)",
    "disk, clock, randomness and threads: the simulator below the libc calls",
];
const ASSUME: &[&str] = &[
    "at most one validator of the committee departs from the protocol",
    "a database file is not damaged while redb creates it",
];
macro_rules! register {
    ($name:ident, $id:literal, $judge:expr, $live:expr, $flavor:expr, $rule:literal) => {
        pub const $name: Check = {
            fn g(seed: u64, i: u64) -> Scenario {
                gen(&$flavor, seed, i)
            }
            fn r(sc: &Scenario) {
                play(sc, $live, &[$judge]);
            }
            Check {
                id: $id,
                rule: $rule,
                real: REAL,
                stub: STUB,
                assumptions: ASSUME,
                gen: g,
                run: r,
                runs: (100_000, 1_000_000),
                wall: (100, 800),
                stuck_is_violation: true,
                max_steps: 600_000_000,
            }
        };
    };
}
register!(ALL, "N01", all, true, Flavor { id: "N01", ..FULL }, "all oracles: not a check, but what the checks are tried out with");
register!(P01, "P01", agreement, false, Flavor { id: "P01", ..FULL },
    "an evaluation is one seeded run of a cluster of 4 to 8 whole nodes under faults, whose disks are compared output by output; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
register!(P02, "P02", p02, false, Flavor { id: "P02", ..FULL },
    "an evaluation is one seeded run of a cluster under faults, every header and vote on whose wires is judged; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
register!(P03, "P03", p03, false, Flavor { id: "P03", ..FULL },
    "an evaluation is one seeded run of a cluster under faults, every certificate on whose wires and every committed header is judged; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
register!(P05, "P05", p05, false, Flavor { id: "P05", mallory: 4, ..FULL },
    "an evaluation is one seeded run of a cluster one of whose validators departs from the protocol, under faults, every message on whose wires is judged; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
register!(P06, "P06", execution, false, Flavor { id: "P06", ..FULL },
    "an evaluation is one seeded run of a cluster under faults, whose execution chains are judged block by block against the agreed outputs; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
register!(P22, "P22", p22, false, Flavor { id: "P22", ..FULL },
    "an evaluation is one seeded run of a cluster under faults, every proposed batch of which is judged against the acknowledgements on the wires; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes");
