//! P19: peer reputation, bans, limits and dials, over an emulated swarm.
use crate::base::*;
use simcore::*;
use std::collections::{BTreeMap, HashSet};
use std::task::Poll;
use std::time::Duration;
use tn_config::PeerConfig;
use tn_network_libp2p::sim::libp2p::{identity::Keypair, Multiaddr, PeerId};
use tn_network_libp2p::sim::{Bans, NetworkInfo, PeerOutput, Peers};
use tn_network_libp2p::Penalty;
use tn_types::{BlsKeypair, BlsPublicKey, NetworkPublicKey};
use tokio::sync::oneshot;

pub const CHECK: Check = Check {
    id: "P19",
    rule: "an evaluation is one seeded history of connections, dials, penalties, committee changes and waiting, run by the real peer manager over an emulated swarm (or of the ban cache alone); non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by event hashes",
    real: &["tn-network-libp2p peers (PeerManager, AllPeers, Peer, Score, BannedPeers, BannedPeerCache)", "tn-config PeerConfig", "libp2p identity and behaviour types", "tokio timers"],
    stub: &["swarm: connections and dials of the scenario, with libp2p's rules for behaviours and dial conditions", "kernel: clock", "blst: a stand-in without pairing arithmetic"],
    assumptions: &["every dial ends within 60 s, as a transport timeout makes it", "a peer keeps one network key"],
    gen,
    run,
    runs: (30_000, 400_000),
    wall: (18, 500),
    stuck_is_violation: true,
    max_steps: 400_000_000,
};
pub const HB: f64 = 30.0;
pub const EPS: f64 = 0.05;
fn gen(seed: u64, i: u64) -> Scenario {
    let mut sc = Scenario::new("P19", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    if i % 8 == 0 {
        sc.set("cache", 1);
        sc.set("cap", *r.pick(&[0i64, 1, 2, 3, 8, 100]));
        sc.set("secs", *r.pick(&[1i64, 5, 60, 600]));
        for _ in 0..10 + r.below(60) {
            let keys = 1 + r.below(12) as i64;
            sc.ops.push(match r.below(10) {
                0..=4 => Op::new("ins", &[r.below(12) as i64 % keys]),
                5 => Op::new("rem", &[r.below(12) as i64]),
                6 | 7 => Op::new("beat", &[]),
                _ => Op::new("wait", &[*r.pick(&[1i64, 1, 2, 4, 30, 59, 60, 300, 600])]),
            });
        }
        return sc;
    }
    if i % 8 == 4 {
        sc.set("rotate", 1);
        sc.set("who", 1 + r.below(3) as i64);
        sc.set("tempsecs", *r.pick(&[50i64, 610]));
        sc.set("lockout", *r.pick(&[90i64, 300, 1800]));
        let comm = r.chance(1, 3);
        for _ in 0..10 + r.below(40) {
            let t = r.below(9) as i64;
            sc.ops.push(match r.below(16) {
                0..=3 => Op::new("in", &[t, r.below(3) as i64]),
                4 => Op::new("close", &[t]),
                5..=7 => Op::new("pen", &[t, *r.pick(&[0i64, 1, 2, 2, 3, 3])]),
                8..=11 => Op::new("adv", &[t]),
                12 => Op::new("relay", &[t, r.below(9) as i64]),
                13 if comm => Op::new("comm", &[r.below(8) as i64 & r.below(8) as i64]),
                _ => Op::new("wait", &[*r.pick(&[0i64, 1, 3, 31, 70, 100, 620])]),
            });
        }
        return sc;
    }
    let n = 2 + r.below(8) as i64;
    sc.set("n", n);
    sc.set("ips", 1 + r.below(4) as i64);
    sc.set("target", *r.pick(&[2i64, 3, 5, 30, 30]));
    sc.set("tempsecs", *r.pick(&[50i64, 50, 610]));
    sc.set("maxtemp", *r.pick(&[1i64, 2, 100, 100]));
    sc.set("maxban", *r.pick(&[1i64, 2, 100, 100]));
    sc.set("maxoff", *r.pick(&[1i64, 2, 100, 100]));
    sc.set("lockout", *r.pick(&[90i64, 300, 1800]));
    for _ in 0..r.below(3) {
        sc.ops.push(Op::new("trust", &[r.below(n as u64) as i64, r.below(3) as i64, r.below(60) as i64]));
    }
    let mask = |r: &mut Rng| if r.chance(1, 3) { 0 } else { r.below(1 << n) as i64 & r.below(1 << n) as i64 };
    let comm = r.below(3);
    for _ in 0..20 + r.below(80) {
        // sometimes the node itself
        let p = if r.chance(1, 40) { n } else { r.below(n as u64) as i64 };
        let ip = r.below(4) as i64;
        sc.ops.push(match r.below(26) {
            0..=4 => Op::new("in", &[p, ip]),
            5..=7 => Op::new("dial", &[p, ip, r.below(3) as i64, r.below(60) as i64]),
            8 => Op::new("kad", &[p, ip, r.below(3) as i64, r.below(60) as i64]),
            9 | 10 => Op::new("close", &[p]),
            // sometimes just to the threshold
            11 => {
                let k = r.below(3) as i64;
                Op::new("pens", &[p, k, [50, 10, 5][k as usize] - (r.chance(1, 3) as i64)])
            }
            12..=16 => Op::new("pen", &[p, *r.pick(&[0i64, 0, 1, 1, 1, 2, 2, 3])]),
            17 if comm > 0 => Op::new("comm", &[mask(&mut r), mask(&mut r), mask(&mut r)]),
            18 if comm > 1 => Op::new("prep", &[mask(&mut r)]),
            19 => Op::new("disc", &[p]),
            20 => Op::new("self", &[p, if r.chance(1, 4) { r.below(n as u64) as i64 } else { p }]),
            _ => Op::new("wait", &[*r.pick(&[0i64, 1, 1, 3, 10, 31, 31, 70, 100, 620, 1900])]),
        });
    }
    sc
}
fn run(sc: &Scenario) {
    let sc = sc.clone();
    if sc.p("cache") == 1 {
        process("cache", 10 * FOREVER, move || cache(&sc));
    } else if sc.p("rotate") == 1 {
        let ok = process("peers", 100 * FOREVER, move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            rt.block_on(crate::rotate::drive(&sc));
        });
        check!(ok, "stuck", "the peer manager did not finish the history");
    } else {
        let ok = process("peers", 100 * FOREVER, move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            rt.block_on(drive(&sc));
        });
        check!(ok, "stuck", "the peer manager did not finish the history");
    }
}
fn cache(sc: &Scenario) {
    let (cap, dur) = ((sc.p("cap") as usize).max(1), Duration::from_secs(sc.p("secs") as u64));
    let mut real = Bans::new(dur, sc.p("cap") as usize);
    let mut model: Vec<(u64, u64)> = vec![];
    for o in &sc.ops {
        let now = simrt::now_ns();
        let k = o.u(0);
        match o.k.as_str() {
            "ins" => {
                let known = model.iter().any(|m| m.0 == k);
                model.retain(|m| m.0 != k);
                model.push((k, now));
                let out = if model.len() > cap { Some(model.remove(0).0) } else { None };
                let got = real.insert(k);
                check!(got == (!known, out), "cache", "banning {k} gave {got:?}, expected {:?}", (!known, out));
            }
            "rem" => {
                let known = model.iter().any(|m| m.0 == k);
                model.retain(|m| m.0 != k);
                check!(real.remove(k) == known, "cache", "lifting the ban of {k}: it was {}", if known { "banned" } else { "not banned" });
            }
            "beat" => {
                let mut due: Vec<u64> = model.iter().filter(|m| m.1 + dur.as_nanos() as u64 <= now).map(|m| m.0).collect();
                model.retain(|m| m.1 + dur.as_nanos() as u64 > now);
                let mut got = real.heartbeat();
                got.sort();
                due.sort();
                check!(got == due, "cache", "the heartbeat lifted {got:?}, due were {due:?}");
            }
            _ => {
                simrt::probe("waited");
                std::thread::sleep(Duration::from_secs(o.u(0)));
            }
        }
        check!(real.len() == model.len(), "cache", "{} bans are kept, expected {}", real.len(), model.len());
        for k in 0..12 {
            let want = model.iter().any(|m| m.0 == k);
            check!(real.contains(k) == want, "cache", "key {k} banned: {}, expected {want}", !want);
        }
        state(hash_str(&format!("{:?}", model.iter().map(|m| m.0).collect::<Vec<_>>())));
    }
}
struct Dialing {
    peer: usize,
    addr: Multiaddr,
    ends: f64,
    ok: bool,
}
struct Asked {
    peer: usize,
    rx: oneshot::Receiver<tn_network_libp2p::types::NetworkResult<()>>,
    at: f64,
}
#[derive(Clone, Default)]
struct Mirror {
    /// score, if there is a record
    score: Option<f64>,
    /// time up to which it has decayed
    last: f64,
    /// banned by score since, and the earliest and latest end of that
    ban: Option<(f64, f64, f64)>,
    /// confirmed identity
    known: bool,
    trusted: bool,
    /// seen from
    ips: HashSet<u64>,
    /// connections: address, dialed
    conns: Vec<(Multiaddr, bool)>,
    /// the application was told it is connected
    told: bool,
    /// closing at
    closing: Option<f64>,
    blacklisted: bool,
    /// was there a record with this status, since
    status: Option<(char, f64)>,
    /// a status seen at any time since it last had no record
    dialed: bool,
}
struct Net {
    sc: Scenario,
    t0: std::time::Instant,
    peers: Peers,
    local: PeerId,
    ids: Vec<PeerId>,
    keys: Vec<BlsPublicKey>,
    net: Vec<NetworkPublicKey>,
    m: Vec<Mirror>,
    comm: [u64; 3],
    temp: Vec<(usize, f64)>,
    dials: Vec<Dialing>,
    asked: Vec<Asked>,
    beats: u64,
    last_beat: f64,
    rng: Rng,
    /// addresses whose count a validator has reset
    reset_ips: HashSet<u64>,
    next_dial: (u64, u64, u64),
    config: PeerConfig,
    missing: Option<HashSet<BlsPublicKey>>,
}
pub fn addr(ip: u64) -> Multiaddr {
    format!("/ip4/10.1.0.{}/udp/4000/quic-v1", ip + 1).parse().unwrap()
}
impl Net {
    fn now(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    fn ix(&self, p: &PeerId) -> usize {
        self.ids.iter().position(|x| x == p).unwrap_or(usize::MAX)
    }
    fn exempt(&self, p: usize) -> bool {
        self.m[p].trusted || self.m[p].known && self.m[p].score.is_some() && self.comm.iter().any(|c| c >> p & 1 == 1)
    }
    fn member(&self, p: usize) -> bool {
        self.comm.iter().any(|c| c >> p & 1 == 1)
    }
    fn status(&self, p: usize) -> Option<char> {
        self.peers.status(&self.ids[p])
    }
    fn temp_ban(&mut self, p: usize, now: f64) -> Option<usize> {
        self.temp.retain(|t| t.0 != p);
        self.temp.push((p, now));
        (self.temp.len() > self.config.max_temporarily_banned_peers.max(1)).then(|| self.temp.remove(0).0)
    }
    /// Poll once, and do what it asks.
    fn poll(&mut self, cx: &mut std::task::Context<'_>) -> bool {
        // the score ban can only be lifted at a heartbeat
        let now = self.now();
        let mut beat = false;
        while self.beats as f64 * HB <= now + 1e-9 {
            self.beats += 1;
            beat = true;
            self.last_beat = now;
        }
        let Some(out) = self.peers.poll(cx) else {
            if beat {
                self.beat(now);
            }
            self.settle(now);
            return false;
        };
        if beat {
            self.beat(now);
        }
        simrt::note(|| format!("{now:.1} {out:?}"));
        simrt::event(0x19, simrt::mix(7, &format!("{out:?}")));
        let px = matches!(out, PeerOutput::Disconnect(_, true));
        match out {
            PeerOutput::Connected(p) => {
                let p = self.ix(&p);
                check!(!self.m[p].conns.is_empty(), "announced", "peer {p} was announced as connected without a connection");
                self.m[p].told = true;
            }
            PeerOutput::Disconnected(p) => {
                let p = self.ix(&p);
                self.m[p].told = false;
            }
            PeerOutput::Disconnect(p, _) => {
                let p = self.ix(&p);
                check!(p < self.m.len(), "self", "the node was told to disconnect itself");
                check!(!self.exempt(p), "exempt", "exempt peer {p} is to be disconnected");
                if !px || self.status(p) == Some('g') {
                    self.temp_ban(p, now);
                }
                let d = self.rng.below(3);
                let at = now + d as f64 * 0.2;
                if self.m[p].closing.is_none() {
                    self.m[p].closing = Some(at);
                }
            }
            PeerOutput::Banned(p) => {
                let p = self.ix(&p);
                check!(p < self.m.len(), "self", "the node banned itself");
                check!(!self.exempt(p), "exempt", "exempt peer {p} is banned");
                self.temp_ban(p, now);
                self.m[p].blacklisted = true;
            }
            PeerOutput::Unbanned(p) => {
                let p = self.ix(&p);
                if p < self.m.len() {
                    self.m[p].blacklisted = false;
                    if now > self.last_beat + EPS && self.m[p].ban.is_some() {
                        // its record made room for others'
                        let most = self.config.max_banned_peers;
                        let n = self.m.iter().filter(|m| m.status.is_some_and(|s| s.0 != 'o')).count();
                        check!(n > most, "evicted", "the ban of peer {p} was lifted though at most {n} of {most} bans are kept");
                        self.gone(p);
                    }
                }
            }
            PeerOutput::Missing(keys) => {
                let all: HashSet<_> = keys.into_iter().collect();
                match &mut self.missing {
                    Some(m) => m.extend(all),
                    None => self.missing = Some(all),
                }
            }
            PeerOutput::Discovery => {}
            PeerOutput::Dial(p) => {
                check!(p != self.local, "self", "the node dials itself");
                let p = self.ix(&p);
                let (ip, kind, secs) = self.next_dial;
                self.swarm_dial(p, ip, kind, secs, true);
            }
        }
        true
    }
    /// The swarm is asked for a connection.
    fn swarm_dial(&mut self, p: usize, ip: u64, kind: u64, secs: u64, ours: bool) {
        let now = self.now();
        let id = self.ids[p];
        if self.m[p].status.is_some() && matches!(self.status(p), Some('d')) {
            self.m[p].status = Some(('d', now));
        }
        let busy = !self.m[p].conns.is_empty() || !ours && self.dials.iter().any(|d| d.peer == p);
        if busy {
            self.peers.dial_condition_failed(id);
            return;
        }
        if !self.peers.outbound_pending(id) {
            self.peers.dial_failed(id);
            return;
        }
        check!(!self.banned(p), "banned-dialed", "banned peer {p} is dialed");
        self.m[p].dialed = true;
        let secs = if kind == 2 { 60.0 } else { secs as f64 * 0.5 };
        self.dials.push(Dialing { peer: p, addr: addr(ip), ends: now + secs, ok: kind == 0 });
    }
    /// What the reference says.
    fn banned(&self, p: usize) -> bool {
        self.m[p].ban.is_some() || self.temp.iter().any(|t| t.0 == p)
    }
    /// Banned peers seen from an address.
    fn bans_on(&self, ip: u64) -> usize {
        (0..self.m.len()).filter(|p| self.m[*p].ips.contains(&ip) && self.status(*p) == Some('b')).count()
    }
    fn gone(&mut self, p: usize) {
        let m = &mut self.m[p];
        m.score = None;
        m.ban = None;
        m.known = false;
        m.trusted = false;
        m.ips.clear();
    }
    fn beat(&mut self, now: f64) {
        let hl = 0.5f64.ln() / 300.0;
        let dur = self.config.excess_peers_reconnection_timeout.as_secs_f64();
        self.temp.retain(|t| t.1 + dur > now);
        for p in 0..self.m.len() {
            let ex = self.exempt(p);
            let m = &mut self.m[p];
            let Some(v) = m.score else { continue };
            if ex || m.ban.is_some() {
                continue;
            }
            if now >= m.last {
                m.score = Some(v * (hl * (now - m.last)).exp());
                m.last = now;
            }
        }
        simrt::probe("heartbeat");
    }
    /// After something happened and everything asked for was done: compare.
    fn settle(&mut self, now: f64) {
        for p in 0..self.m.len() {
            let id = self.ids[p];
            let real = self.peers.score(&id);
            let st = self.status(p);
            let cap = |c: char| if c == 'o' { self.config.max_disconnected_peers } else { self.config.max_banned_peers };
            // gone records
            if real.is_none() && self.m[p].score.is_some() {
                let (c, since) = self.m[p].status.unwrap();
                let (c, since) = if c == 'o' || c == 'b' { (c, since) } else { (if self.m[p].ban.is_some() { 'b' } else { 'o' }, now) };
                let before = (0..self.m.len()).filter(|q| self.m[*q].status.map_or(self.status(*q).is_some(), |s| s.0 == c || "cdgu".contains(s.0))).count();
                let after = (0..self.m.len()).filter(|q| self.status(*q) == Some(c)).count();
                check!(!self.exempt(p), "exempt", "the record of exempt peer {p} is gone");
                check!(before > cap(c), "evicted", "the record of peer {p} ({c}) is gone though at most {before} of {} may be kept", cap(c));
                check!(after >= cap(c).min(before - 1 - (0..self.m.len()).filter(|q| self.exempt(*q)).count().min(before - 1)), "evicted", "the record of peer {p} ({c}) is gone, and {after} of at most {} are left", cap(c));
                // the oldest goes first
                for q in 0..self.m.len() {
                    if self.status(q) == Some(c) && self.peers.score(&self.ids[q]).is_some() {
                        if let Some((c0, s0)) = self.m[q].status {
                            check!(c0 != c || s0 >= since - EPS || self.exempt(q), "evicted", "the record of peer {p} ({c} since {since:.1}) is gone, that of peer {q} (since {s0:.1}) is kept");
                        }
                    }
                }
                simrt::fault("record_evicted");
                self.gone(p);
            }
        }
        for p in 0..self.m.len() {
            let id = self.ids[p];
            let real = self.peers.score(&id);
            let st = self.status(p);
            if self.m[p].score.is_none() {
                if let Some(v) = real {
                    // a new record; the peer may have been a member already
                    check!(v == 0.0 || v == 100.0 && (self.m[p].trusted || self.m[p].known), "score", "new peer {p} has score {v}");
                    self.m[p].score = Some(v);
                    self.m[p].last = now;
                }
            }
            if let Some(v) = real {
                let m = &mut self.m[p];
                match m.ban {
                    Some((_, early, late)) => {
                        if v > -50.0 {
                            check!(now >= early - EPS, "unbanned-early", "peer {p} is no longer banned {:.1} s before its time", early - now);
                            m.ban = None;
                            m.last = now;
                        } else {
                            check!(now <= late + HB + EPS, "banned-forever", "peer {p} is still banned {:.1} s after its time", now - late);
                        }
                    }
                    None => {
                        let w = m.score.unwrap();
                        check!((w - v).abs() < EPS, "score", "peer {p} has score {v:.3}, expected {w:.3}");
                        check!(v > -50.0, "score", "peer {p} is banned by score without a penalty ({v:.3})");
                    }
                }
                m.score = Some(v);
            }
            match (st, self.m[p].status) {
                (Some(a), Some((b, _))) if a == b => {}
                // it has been disconnected since
                (Some('o'), Some(('b', since))) => self.m[p].status = Some(('o', since)),
                (Some(a), _) => self.m[p].status = Some((a, now)),
                (None, _) => self.m[p].status = None,
            }
            // bans
            let want = self.banned(p);
            let got = self.peers.banned(&id);
            if want {
                check!(got, "not-banned", "peer {p} is banned ({}) but would be let in", if self.m[p].ban.is_some() { "by score" } else { "for a while" });
                check!(!self.peers.inbound(id, &addr(0)), "not-banned", "banned peer {p} is let in");
                check!(!self.peers.outbound(id, &addr(0)), "not-banned", "banned peer {p} is connected to");
            } else if got {
                let ips: Vec<u64> = self.m[p].ips.iter().copied().collect();
                check!(ips.iter().any(|ip| self.bans_on(*ip) >= 2), "banned", "peer {p} is refused though nothing bans it (score {:?}, status {:?})", real, st);
            }
            if !want && !got {
                check!(!self.m[p].blacklisted, "blacklist", "peer {p} is not banned but its messages are still ignored");
            }
            if self.m[p].ban.is_some() && st == Some('b') {
                check!(self.m[p].blacklisted, "blacklist", "peer {p} is banned by score ({:?}) but its messages are taken again", real);
            }
            if self.exempt(p) {
                check!(!got || (0..4).any(|ip| self.m[p].ips.contains(&ip) && self.bans_on(ip) >= 2), "exempt", "exempt peer {p} is refused");
                check!(self.peers.important(&id), "exempt", "exempt peer {p} is not counted as important");
            }
            // connections
            let up = !self.m[p].conns.is_empty();
            check!(up || !self.m[p].told, "announced", "peer {p} has no connection but the application believes it is connected");
            check!(up == matches!(st, Some('c')) || matches!(st, Some('g')) || self.m[p].closing.is_some() || self.m[p].trusted && now < 1.0, "ghost", "peer {p} has {} connections and status {st:?}", self.m[p].conns.len());
            check!(up || st != Some('g') || self.dials.iter().any(|d| d.peer == p), "ghost", "peer {p} is being disconnected though nothing connects it");
        }
        // addresses
        for ip in 0..4 {
            let ok = self.peers.inbound_pending(&addr(ip));
            let n = self.bans_on(ip);
            check!(ok || n >= 2, "address", "address {ip} is refused though {n} banned peers were seen on it");
            check!(!ok || n < 2 || self.reset_ips.contains(&ip), "address", "address {ip} is accepted though {n} banned peers were seen on it");
        }
        check!(self.peers.score(&self.local).is_none(), "self", "the node keeps a record of itself");
        // replies
        let mut asked = std::mem::take(&mut self.asked);
        asked.retain_mut(|a| match a.rx.try_recv() {
            Ok(Ok(())) => {
                check!(a.peer == self.m.len() || !self.m[a.peer].conns.is_empty(), "reply", "a dial of peer {} succeeded without a connection", a.peer);
                simrt::probe("dial_ok");
                false
            }
            Ok(Err(_)) | Err(oneshot::error::TryRecvError::Closed) => {
                check!(a.peer < self.m.len(), "reply", "dialing oneself failed");
                simrt::probe("dial_err");
                false
            }
            Err(oneshot::error::TryRecvError::Empty) => {
                check!(now <= a.at + 63.0 + EPS, "reply", "the dial of peer {} was never answered", a.peer);
                // the heartbeat after the timeout ends it, counted from its last start
                if let Some(('d', since)) = self.m.get(a.peer).and_then(|m| m.status) {
                    let age = now - since.max(a.at);
                    check!(age <= self.config.dial_timeout.as_secs_f64() + HB + 0.5, "reply", "peer {} is still being dialed after {age:.1} s, and no answer was given", a.peer);
                }
                true
            }
        });
        self.asked = asked;
        let sig = (0..self.m.len()).map(|p| format!("{:?}{}{}", self.status(p), self.m[p].blacklisted as u8, self.banned(p) as u8)).collect::<String>();
        state(hash_str(&sig));
    }
    fn connect(&mut self, p: usize, a: Multiaddr, dialed: bool) {
        let id = self.ids[p];
        let others = self.m[p].conns.len();
        let ip = a.to_string().split('.').nth(3).unwrap().split('/').next().unwrap().parse::<u64>().unwrap() - 1;
        self.m[p].conns.push((a.clone(), dialed));
        self.peers.established(id, &a, dialed, others);
        self.m[p].ips.insert(ip);
        let (mut up, mut busy) = (0, 0);
        for q in 0..self.m.len() {
            match self.status(q) {
                Some('c') => up += 1,
                Some('d') => busy += 1,
                _ => {}
            }
        }
        let over = self.status(p) == Some('g');
        // it counts as disconnecting by now
        let up = up + over as usize;
        let busy = up + busy;
        let (count, most) = if dialed { (up, self.config.max_outbound_dialing_peers()) } else { (busy, self.config.max_peers()) };
        let ex = self.exempt(p);
        check!(!over || !ex, "exempt", "exempt peer {p} is turned away at the limit");
        check!(!over || count >= most, "limit", "peer {p} is turned away with {count} of {most} peers");
        check!(over || ex || count <= most, "limit", "peer {p} is kept though there are {count} of {most} peers");
        if over {
            simrt::fault("peer_limit");
        }
    }
    fn close(&mut self, p: usize) {
        self.m[p].closing = None;
        while let Some((a, dialed)) = self.m[p].conns.pop() {
            let left = self.m[p].conns.len();
            self.peers.closed(self.ids[p], &a, dialed, left);
        }
    }
    fn info(&self, p: usize) -> NetworkInfo {
        NetworkInfo { pubkey: self.net[p].clone(), multiaddrs: vec![addr(p as u64 % 4)], timestamp: 1000 + self.now() as u64, rpc: None }
    }
    /// Its bans are lifted, if its identity is known.
    fn forgive(&mut self, p: usize) {
        if !self.m[p].known && !self.m[p].trusted {
            return;
        }
        self.temp.retain(|t| t.0 != p);
        if self.m[p].score.is_some() {
            self.m[p].score = Some(100.0);
            self.m[p].ban = None;
            self.m[p].last = self.now();
            self.reset_ips.extend(self.m[p].ips.iter().copied());
        }
    }
    fn keys_of(&self, mask: u64) -> HashSet<BlsPublicKey> {
        (0..self.m.len()).filter(|p| mask >> p & 1 == 1).map(|p| self.keys[p]).collect()
    }
    /// One thing the swarm owes the manager by now.
    fn owed(&mut self, now: f64) -> bool {
        if let Some(p) = (0..self.m.len()).find(|p| self.m[*p].closing.is_some_and(|t| t <= now)) {
            self.close(p);
            return true;
        }
        let Some(i) = self.dials.iter().position(|d| d.ends <= now) else { return false };
        let d = self.dials.remove(i);
        let id = self.ids[d.peer];
        if d.ok && self.peers.outbound(id, &d.addr) {
            check!(!self.banned(d.peer), "not-banned", "banned peer {} is connected to", d.peer);
            self.connect(d.peer, d.addr, true);
        } else {
            simrt::fault("dial_failure");
            self.peers.dial_failed(id);
        }
        true
    }
    async fn due(&mut self, now: f64) {
        while self.owed(now) {
            self.drain().await;
        }
    }
    async fn drain(&mut self) {
        std::future::poll_fn(|cx| {
            while self.poll(cx) {}
            Poll::Ready(())
        })
        .await
    }
    /// Let time pass.
    async fn pass(&mut self, secs: f64) {
        let end = self.now() + secs;
        self.due(self.now()).await;
        self.drain().await;
        loop {
            let now = self.now();
            let mut next = end;
            for d in &self.dials {
                next = next.min(d.ends);
            }
            for m in &self.m {
                if let Some(t) = m.closing {
                    next = next.min(t);
                }
            }
            let beat = self.beats as f64 * HB + 0.01;
            let until = next.min(beat);
            if until > now {
                tokio::time::sleep_until((self.t0 + Duration::from_secs_f64(until)).into()).await;
            }
            let now = self.now();
            self.drain().await;
            if beat <= next {
                self.after_beat();
            }
            self.due(now + 1e-6).await;
            self.drain().await;
            if now + 1e-6 >= end {
                break;
            }
        }
    }
    fn after_beat(&mut self) {
        let up: Vec<usize> = (0..self.m.len()).filter(|p| self.status(*p) == Some('c')).collect();
        let plain = up.iter().filter(|p| !self.exempt(**p)).count();
        let most = self.config.target_num_peers;
        check!(up.len() <= most || plain == 0, "limit", "after a heartbeat {} peers are connected, {plain} of them without privilege, and {most} are wanted", up.len());
    }
}
async fn drive(sc: &Scenario) {
    let n = sc.p("n") as usize;
    let mut kr: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(simrt::mix(sc.seed, "keys"));
    let mut net = vec![];
    let mut keys = vec![];
    for i in 0..=n {
        let mut b = [i as u8; 32];
        b[..8].copy_from_slice(&simrt::mix(sc.seed, "net").to_le_bytes());
        let k: NetworkPublicKey = Keypair::ed25519_from_bytes(b).unwrap().public().into();
        net.push(k);
        keys.push(*BlsKeypair::generate(&mut kr).public());
    }
    let ids: Vec<PeerId> = net.iter().map(|k| k.clone().into()).collect();
    let mut config = PeerConfig {
        target_num_peers: sc.p("target") as usize,
        excess_peers_reconnection_timeout: Duration::from_secs(sc.p("tempsecs") as u64),
        max_temporarily_banned_peers: sc.p("maxtemp") as usize,
        max_banned_peers: sc.p("maxban") as usize,
        max_disconnected_peers: sc.p("maxoff") as usize,
        ..Default::default()
    };
    config.score_config.banned_before_decay_secs = sc.p("lockout") as u64;
    config.heartbeat_interval = HB as u64;
    let t0 = tokio::time::Instant::now().into_std();
    let peers = Peers::new(ids[n], &config);
    let mut w = Net {
        sc: sc.clone(),
        t0,
        peers,
        local: ids[n],
        ids: ids.clone(),
        keys,
        net,
        m: vec![Mirror::default(); n],
        comm: [0; 3],
        temp: vec![],
        dials: vec![],
        asked: vec![],
        beats: 0,
        last_beat: 0.0,
        rng: Rng::new(simrt::mix(sc.seed, "swarm")),
        reset_ips: HashSet::new(),
        next_dial: (0, 0, 0),
        config,
        missing: None,
    };
    w.drain().await;
    w.pass(0.1).await;
    let ips = sc.p("ips") as u64;
    let mut started = false;
    for o in w.sc.ops.clone() {
        let p = o.u(0) as usize;
        simrt::note(|| format!("{:.1} op {o:?}", w.now()));
        if o.k != "trust" && !started {
            // away from the heartbeats
            w.pass(0.4).await;
            started = true;
        }
        match o.k.as_str() {
            "trust" => {
                if p >= n || w.m[p].trusted {
                    continue;
                }
                let (tx, rx) = oneshot::channel();
                w.next_dial = (p as u64 % ips, o.u(1), o.u(2));
                w.m[p].trusted = true;
                w.m[p].known = true;
                w.m[p].score = Some(100.0);
                w.m[p].last = w.now();
                w.m[p].status = Some(('u', w.now()));
                w.peers.trusted(w.keys[p], w.info(p), tx);
                w.asked.push(Asked { peer: p, rx, at: w.now() });
            }
            "in" => {
                let a = addr(o.u(1) % ips);
                if !w.peers.inbound_pending(&a) {
                    simrt::fault("address_refused");
                    continue;
                }
                let ok = w.peers.inbound(w.ids[p], &a);
                if p == n {
                    check!(!ok, "self", "the node accepts itself");
                    continue;
                }
                check!(!ok || !w.banned(p), "not-banned", "banned peer {p} is let in");
                if ok {
                    w.connect(p, a, false);
                } else {
                    simrt::fault("peer_refused");
                }
            }
            "dial" => {
                let (tx, rx) = oneshot::channel();
                w.next_dial = (o.u(1) % ips, o.u(2), o.u(3));
                w.asked.push(Asked { peer: p, rx, at: w.now() });
                let a = addr(o.u(1) % ips);
                w.peers.dial(w.ids[p], vec![a], tx);
            }
            "kad" => {
                if p == n {
                    check!(!w.peers.outbound_pending(w.local), "self", "the node dials itself");
                } else {
                    w.swarm_dial(p, o.u(1) % ips, o.u(2), o.u(3), false);
                }
            }
            "close" if p < n => {
                if !w.m[p].conns.is_empty() {
                    simrt::fault("connection_lost");
                }
                w.close(p);
            }
            "pen" => w.penalise(p, o.u(1)),
            "pens" => {
                for _ in 0..o.u(2) {
                    w.penalise(p, o.u(1));
                }
            }
            "comm" => {
                let all = (1u64 << n) - 1;
                let c = [o.u(0) & all, o.u(1) & all, o.u(2) & all];
                let want: HashSet<_> = w.keys_of(c[1] | c[2]).into_iter().filter(|k| w.peers.authority(*k).is_none()).collect();
                w.missing = None;
                w.comm = c;
                let k = c.map(|c| w.keys_of(c));
                let [a, b, d] = k;
                w.peers.committees(a, b, d);
                for p in 0..n {
                    if w.member(p) {
                        w.forgive(p);
                    }
                    if !w.m[p].trusted && !w.member(p) {
                        check!(w.peers.authority(w.keys[p]).is_none(), "unbounded", "the address of peer {p}, a member of no committee, is kept");
                    }
                }
                w.drain().await;
                let got = w.missing.take().unwrap_or_default();
                check!(got == want, "missing", "{} unknown committee members are looked for, expected {}", got.len(), want.len());
            }
            "prep" => {
                let c = o.u(0) & ((1 << n) - 1);
                let k = w.keys_of(c);
                w.peers.prepare_committee_dial(k);
                for p in 0..n {
                    if c >> p & 1 == 1 {
                        w.forgive(p);
                    }
                }
            }
            "disc" if p < n => {
                w.peers.discovered(w.keys[p], w.info(p));
                w.learned(p);
            }
            "self" if p < n => {
                let src = o.u(1) as usize % n;
                w.peers.self_advertised(w.ids[src], w.keys[p], w.info(p));
                if w.member(p) {
                    w.learned(p);
                } else if src == p {
                    w.m[p].known = true;
                }
            }
            "wait" => w.pass(o.u(0) as f64).await,
            _ => {}
        }
        w.drain().await;
    }
    // the end: everything is closed, and comes to rest
    for p in 0..n {
        w.close(p);
        w.drain().await;
    }
    w.pass(64.0).await;
    for p in 0..n {
        w.close(p);
        w.drain().await;
    }
    w.pass(64.0).await;
    for p in 0..n {
        let st = w.status(p);
        check!(!matches!(st, Some('c' | 'd' | 'g')) || !w.m[p].conns.is_empty(), "ghost", "peer {p} has status {st:?} though nothing connects it");
    }
    check!(w.asked.is_empty(), "reply", "a dial was never answered");
}
impl Net {
    /// A record of this peer arrived.
    fn learned(&mut self, p: usize) {
        if !self.member(p) {
            return;
        }
        self.m[p].known = true;
        let now = self.now();
        self.m[p].score.get_or_insert(100.0);
        self.m[p].last = now;
        if self.m[p].status.is_none() {
            self.m[p].status = Some(('u', now));
        }
        self.forgive(p);
        let at = self.peers.authority(self.keys[p]);
        check!(at == Some(self.ids[p]), "authority", "committee member {p} cannot be found though its record was received");
    }
    /// The application reports a peer.
    fn penalise(&mut self, p: usize, kind: u64) {
        let pen = [Penalty::Mild, Penalty::Medium, Penalty::Severe, Penalty::Fatal][kind as usize % 4];
        if p < self.m.len() && !self.exempt(p) {
            // not the reference's own, which differs by rounding
            let exact = self.peers.score(&self.ids[p]);
            if let (Some(w), Some(v)) = (self.m[p].score, exact) {
                check!((w - v).abs() < EPS, "score", "peer {p} has score {v:.3}, expected {w:.3}");
                let to = match kind % 4 {
                    0 => v - 1.0,
                    1 => v - 5.0,
                    2 => v - 10.0,
                    _ => -100.0,
                }
                .clamp(-100.0, 100.0);
                self.m[p].score = Some(to);
                let now = self.now();
                let lock = self.config.score_config.banned_before_decay_secs as f64;
                let decay = 300.0 * (to / -50.0).max(1.0).log2();
                if to <= -50.0 {
                    let at = self.m[p].ban.map(|b| b.0).unwrap_or(now);
                    self.m[p].ban = Some((at, at + lock, now.max(at + lock) + decay + HB));
                }
            }
        }
        self.peers.penalty(self.ids[p], pen);
    }
}
