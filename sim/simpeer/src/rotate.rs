//! P19: the reputation of a peer that changes its network key.
use crate::base::*;
use crate::peers::{addr, EPS, HB};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::task::Poll;
use std::time::Duration;
use tn_config::PeerConfig;
use tn_network_libp2p::sim::libp2p::{identity::Keypair, PeerId};
use tn_network_libp2p::sim::{NetworkInfo, PeerOutput, Peers};
use tn_network_libp2p::Penalty;
use tn_types::{BlsKeypair, BlsPublicKey, NetworkPublicKey};

struct Net {
    t0: std::time::Instant,
    peers: Peers,
    ids: Vec<PeerId>,
    net: Vec<NetworkPublicKey>,
    keys: Vec<BlsPublicKey>,
    /// connections, by network key
    up: BTreeMap<usize, Vec<u64>>,
    closing: BTreeSet<usize>,
    /// the network key of each authority
    bound: Vec<Option<usize>>,
    member: u64,
    /// banned by score at least until
    ban: BTreeMap<usize, f64>,
    lock: f64,
    /// addresses a record was seen from, by network key
    seen: BTreeMap<usize, BTreeSet<u64>>,
    /// a member's addresses are freed
    members: bool,
}
impl Net {
    fn now(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    fn owner(&self, t: usize) -> usize {
        t % self.keys.len()
    }
    fn score(&self, t: usize) -> Option<f64> {
        self.peers.score(&self.ids[t])
    }
    /// A member whose key is known.
    fn exempt(&self, t: usize) -> bool {
        self.member >> self.owner(t) & 1 == 1 && self.bound[self.owner(t)] == Some(t)
    }
    async fn drain(&mut self) {
        std::future::poll_fn(|cx| {
            while let Some(out) = self.peers.poll(cx) {
                simrt::event(0x1a, simrt::mix(7, &format!("{out:?}")));
                simrt::note(|| format!("{:.1} {out:?}", self.now()));
                match out {
                    PeerOutput::Disconnect(p, _) => {
                        if let Some(t) = self.ids.iter().position(|x| *x == p) {
                            check!(!self.exempt(t), "exempt", "exempt peer {t} is to be disconnected");
                            self.closing.insert(t);
                        }
                    }
                    PeerOutput::Banned(p) => {
                        if let Some(t) = self.ids.iter().position(|x| *x == p) {
                            check!(!self.exempt(t), "exempt", "exempt peer {t} is banned");
                        }
                    }
                    PeerOutput::Dial(p) => self.peers.dial_failed(p),
                    _ => {}
                }
            }
            Poll::Ready(())
        })
        .await;
    }
    /// Close what is to be closed.
    async fn obey(&mut self) {
        while let Some(t) = self.closing.pop_first() {
            self.close(t);
            self.drain().await;
        }
    }
    fn close(&mut self, t: usize) {
        let mut ips = self.up.remove(&t).unwrap_or_default();
        while let Some(ip) = ips.pop() {
            self.peers.closed(self.ids[t], &addr(ip), false, ips.len());
        }
    }
    fn settle(&mut self) {
        let now = self.now();
        self.ban.retain(|_, until| *until > now);
        for t in 0..self.ids.len() {
            let id = self.ids[t];
            if let Some(until) = self.ban.get(&t) {
                check!(self.peers.banned(&id), "rotated", "peer {t} would be let in {:.1} s before its ban ends", until - now);
                check!(!self.peers.inbound(id, &addr(9)), "rotated", "peer {t} is let in {:.1} s before its ban ends", until - now);
                check!(self.score(t).is_some_and(|v| v <= -50.0), "rotated", "banned peer {t} has score {:?}", self.score(t));
            }
            if self.exempt(t) {
                check!(self.peers.important(&id), "exempt", "exempt peer {t} is not counted as important");
            }
        }
        for ip in 0..3 {
            let bans = (0..self.ids.len()).filter(|t| self.peers.status(&self.ids[*t]) == Some('b') && self.seen.get(t).is_some_and(|s| s.contains(&ip))).count();
            let ok = self.peers.inbound_pending(&addr(ip));
            check!(ok || bans >= 2, "address", "address {ip} is refused though {bans} banned peers were seen on it");
            check!(!ok || bans < 2 || self.members, "address", "address {ip} is accepted though {bans} banned peers were seen on it");
        }
        let sig: String = (0..self.ids.len()).map(|t| format!("{:?}{}", self.peers.status(&self.ids[t]), self.ban.contains_key(&t) as u8)).collect();
        state(hash_str(&format!("rot{sig}")));
    }
    async fn pass(&mut self, secs: f64) {
        let end = self.now() + secs;
        while self.now() < end {
            let d = (end - self.now()).min(HB / 2.0);
            tokio::time::sleep(Duration::from_secs_f64(d)).await;
            self.drain().await;
            self.obey().await;
            self.settle();
        }
    }
    fn info(&self, t: usize) -> NetworkInfo {
        NetworkInfo { pubkey: self.net[t].clone(), multiaddrs: vec![addr(t as u64 % 3)], timestamp: 1000 + self.now() as u64, rpc: None }
    }
    /// The owner of this network key announces it.
    fn advertise(&mut self, t: usize) {
        let a = self.owner(t);
        let old = self.bound[a];
        let had = [old, Some(t)].into_iter().flatten().filter_map(|x| self.score(x)).fold(f64::INFINITY, f64::min);
        let bans: Vec<f64> = [old, Some(t)].into_iter().flatten().filter_map(|x| self.ban.get(&x)).copied().collect();
        let member = self.member >> a & 1 == 1;
        let met = self.score(t).is_some();
        self.peers.self_advertised(self.ids[t], self.keys[a], self.info(t));
        if member && self.peers.authority(self.keys[a]) != Some(self.ids[t]) {
            // an older announcement than the one that is kept
            return;
        }
        self.bound[a] = Some(t);
        if let Some(o) = old.filter(|o| *o != t) {
            simrt::fault("key_rotated");
            let seen = self.seen.remove(&o).unwrap_or_default();
            if !met {
                self.seen.insert(t, seen);
            }
            check!(self.score(o).is_none(), "rotated", "peer {t} took the place of {o}, whose record is kept");
            self.ban.remove(&o);
        }
        let v = self.score(t);
        if member {
            self.ban.remove(&t);
            check!(v == Some(100.0), "exempt", "member {t} has score {v:?}");
            check!(!self.peers.banned(&self.ids[t]) || !self.peers.inbound_pending(&addr(0)) || !self.peers.inbound_pending(&addr(1)) || !self.peers.inbound_pending(&addr(2)), "exempt", "member {t} is refused");
            return;
        }
        let want = if had.is_finite() { had } else { 0.0 };
        check!(v.is_some_and(|v| (v - want).abs() < EPS), "rotated", "peer {t} announced itself (before with key {old:?}): its score is {v:?}, expected {want:.3}");
        if let Some(b) = bans.into_iter().reduce(f64::min) {
            self.ban.insert(t, b);
        }
    }
}
pub async fn drive(sc: &Scenario) {
    let n = 9;
    let last = n - 1;
    let who = sc.p("who") as usize;
    let mut kr: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(simrt::mix(sc.seed, "keys"));
    let mut net: Vec<NetworkPublicKey> = vec![];
    for i in 0..=n {
        let mut b = [i as u8; 32];
        b[..8].copy_from_slice(&simrt::mix(sc.seed, "net").to_le_bytes());
        net.push(Keypair::ed25519_from_bytes(b).unwrap().public().into());
    }
    let ids: Vec<PeerId> = net.iter().map(|k| k.clone().into()).collect();
    let mut config = PeerConfig { excess_peers_reconnection_timeout: Duration::from_secs(sc.p("tempsecs") as u64), ..Default::default() };
    config.score_config.banned_before_decay_secs = sc.p("lockout") as u64;
    config.heartbeat_interval = HB as u64;
    let mut w = Net {
        t0: tokio::time::Instant::now().into_std(),
        peers: Peers::new(ids[n], &config),
        ids: ids[..n].to_vec(),
        net,
        keys: (0..who).map(|_| *BlsKeypair::generate(&mut kr).public()).collect(),
        up: BTreeMap::new(),
        closing: BTreeSet::new(),
        bound: vec![None; who],
        member: 0,
        ban: BTreeMap::new(),
        lock: sc.p("lockout") as f64,
        seen: BTreeMap::new(),
        members: false,
    };
    w.drain().await;
    for o in &sc.ops {
        let t = o.u(0) as usize % last;
        simrt::note(|| format!("{:.1} op {o:?}", w.now()));
        // a connection takes a moment to close
        if !matches!(o.k.as_str(), "adv" | "relay") {
            w.obey().await;
        }
        match o.k.as_str() {
            "in" => {
                let a = addr(o.u(1));
                if w.peers.inbound_pending(&a) && w.peers.inbound(w.ids[t], &a) {
                    let c = w.up.entry(t).or_default();
                    c.push(o.u(1));
                    let others = c.len() - 1;
                    w.seen.entry(t).or_default().insert(o.u(1));
                    w.peers.established(w.ids[t], &a, false, others);
                } else {
                    simrt::fault("peer_refused");
                }
            }
            "close" => {
                if w.up.contains_key(&t) {
                    simrt::fault("connection_lost");
                }
                w.close(t);
            }
            "pen" => {
                let before = w.score(t);
                let pen = [Penalty::Mild, Penalty::Medium, Penalty::Severe, Penalty::Fatal][o.u(1) as usize % 4];
                w.peers.penalty(w.ids[t], pen);
                if w.exempt(t) {
                    check!(w.score(t) == before, "exempt", "exempt peer {t} is penalised");
                } else if w.score(t).is_some_and(|v| v <= -50.0) && before.is_some_and(|v| v > -50.0) {
                    let until = w.now() + w.lock;
                    w.ban.insert(t, until);
                }
            }
            "adv" => w.advertise(t),
            "relay" => {
                let (src, a) = (o.u(1) as usize % last, w.owner(t));
                if src != t && w.member >> a & 1 == 0 {
                    let before: Vec<_> = (0..n).map(|x| w.score(x)).collect();
                    w.peers.self_advertised(w.ids[src], w.keys[a], w.info(t));
                    check!(before == (0..n).map(|x| w.score(x)).collect::<Vec<_>>(), "rotated", "an announcement passed on by another peer changed a record");
                }
            }
            "comm" => {
                let c = o.u(0) & ((1 << who) - 1);
                w.member = c;
                w.members = true;
                let keys = (0..who).filter(|a| c >> a & 1 == 1).map(|a| w.keys[a]).collect();
                w.peers.committees(Default::default(), keys, Default::default());
                for a in 0..who {
                    if let (Some(t), 1) = (w.bound[a], c >> a & 1) {
                        w.ban.remove(&t);
                        check!(w.score(t).is_none_or(|v| v == 100.0), "exempt", "member {t} has score {:?}", w.score(t));
                    }
                }
            }
            _ => w.pass(o.u(0) as f64).await,
        }
        w.drain().await;
        w.settle();
    }
    w.obey().await;
    // rest: every ban ends
    for t in 0..n {
        w.close(t);
        w.drain().await;
    }
    w.pass(w.lock + 700.0 + 400.0).await;
    check!(w.peers.connected_or_dialing().is_empty(), "ghost", "{:?} count as connected though nothing connects them", w.peers.connected_or_dialing());
    for ip in 0..3 {
        check!(w.peers.inbound_pending(&addr(ip)), "address", "address {ip} is refused though every ban has ended");
    }
    for t in 0..n {
        check!(!w.peers.banned(&w.ids[t]) && w.peers.inbound(w.ids[t], &addr(0)), "banned-forever", "peer {t} is refused though every ban has ended");
    }    // one banned peer does not cost an address
    for ip in 0..3 {
        let c = w.up.entry(last).or_default();
        c.push(ip);
        let others = c.len() - 1;
        w.peers.established(w.ids[last], &addr(ip), false, others);
        w.seen.entry(last).or_default().insert(ip);
    }
    w.peers.penalty(w.ids[last], Penalty::Fatal);
    w.drain().await;
    w.settle();
}
