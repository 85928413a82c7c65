//! The simulated network: a libp2p transport whose connections, substreams and bytes move through one
//! seeded event queue. Everything above the transport (swarm, gossipsub, kademlia, request-response, peer
//! manager, sync streams) is the real code of the nodes.
use crate::base::Shared;
use simrt::{Rng, St};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tn_network_libp2p::sim::libp2p::{
    self,
    core::{
        muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent},
        transport::{Boxed, DialOpts, ListenerId, Transport, TransportError, TransportEvent},
    },
    multiaddr::Protocol,
    Multiaddr, PeerId,
};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
const WINDOW: usize = 1 << 20;

enum Pkt {
    Syn { conn: usize },
    SynAck { conn: usize },
    Refused { conn: usize },
    DialTimeout { conn: usize },
    Open { conn: usize, side: usize, sub: u64 },
    Data { conn: usize, side: usize, sub: u64, bytes: Vec<u8> },
    Credit { conn: usize, side: usize, sub: u64, n: usize },
    Fin { conn: usize, side: usize, sub: u64 },
    Stop { conn: usize, side: usize, sub: u64 },
    Reset { conn: usize, side: usize },
    IdleCheck { conn: usize, side: usize, cut: u64 },
    Call(Box<dyn FnOnce() + Send>),
}
#[derive(Default)]
struct Sub {
    rbuf: VecDeque<u8>,
    eof: bool,
    stopped: bool,
    inflight: usize,
    wclosed: bool,
    dropped: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
    last_due: u64,
}
#[derive(Default)]
struct Side {
    ep: usize,
    up: bool,
    /// dialing side: waiting for the answer
    dialing: bool,
    failed: Option<&'static str>,
    inbound: VecDeque<u64>,
    subs: BTreeMap<u64, Sub>,
    next_sub: u64,
    w_in: Option<Waker>,
    w_poll: Option<Waker>,
    w_dial: Option<Waker>,
}
struct Conn {
    sides: [Side; 2],
    nodes: [usize; 2],
    addr: (u8, u16),
    /// nothing the listening side sent arrives before its answer to the dial
    floor: u64,
}
struct Endpoint {
    peer: PeerId,
    node: usize,
    live: bool,
    listen: Vec<(ListenerId, u16)>,
    events: VecDeque<Ev>,
    waker: Option<Waker>,
}
type Ev = TransportEvent<Ready, io::Error>;
pub type Ready = std::future::Ready<Result<(PeerId, StreamMuxerBox), io::Error>>;

#[derive(Default)]
struct NodeNet {
    group: u32,
    nic: Option<usize>,
    q: BTreeMap<(u64, u64), Pkt>,
}
/// What travelled on one direction of one substream.
pub struct Tapped {
    pub from: usize,
    pub to: usize,
    pub from_peer: PeerId,
    pub to_peer: PeerId,
    /// did this side open the substream
    pub opener: bool,
    pub at: u64,
    pub bytes: Vec<u8>,
    /// (offset, time) of each write
    pub marks: Vec<(usize, u64)>,
}
#[derive(Clone, Debug)]
pub struct Link {
    pub base: u64,
    pub jitter: u64,
    /// one in `spike` packets is delayed by up to `spike_ns`
    pub spike: u64,
    pub spike_ns: u64,
}
pub struct Fabric {
    nodes: Vec<NodeNet>,
    eps: Vec<Endpoint>,
    conns: Vec<Conn>,
    cut: BTreeMap<(usize, usize), u64>,
    held: BTreeMap<(usize, usize), Vec<(usize, Pkt)>>,
    ncuts: u64,
    /// when the last close from one node reaches another
    closing: BTreeMap<(usize, usize), u64>,
    /// let a restarted node's new connections come up before its old ones are noticed to be gone
    pub late_reset: bool,
    seq: u64,
    pub rng: Rng,
    pub link: Link,
    pub idle: u64,
    pub dial_timeout: u64,
    /// one in this many data packets is delivered in pieces, 0 for never
    pub fragment: u64,
    pub tap: BTreeMap<(usize, usize, u64), Tapped>,
    pub sent: u64,
    pub delivered: u64,
    pub resets: u64,
}
static mut FAB: Option<Shared<Fabric>> = None;
#[allow(static_mut_refs)]
pub fn fab<R>(f: impl FnOnce(&mut Fabric) -> R) -> R {
    unsafe { FAB.as_ref().unwrap().with(f) }
}
pub fn install(nodes: usize, seed: u64) {
    let f = Fabric {
        nodes: (0..nodes).map(|_| NodeNet::default()).collect(),
        eps: vec![],
        conns: vec![],
        cut: BTreeMap::new(),
        held: BTreeMap::new(),
        ncuts: 0,
            closing: BTreeMap::new(),
            late_reset: false,
        seq: 0,
        rng: Rng::new(seed ^ 0xFAB),
        link: Link { base: 2 * MS, jitter: 3 * MS, spike: 0, spike_ns: 0 },
        idle: 10 * SEC,
        dial_timeout: 5 * SEC,
        fragment: 0,
        tap: BTreeMap::new(),
        sent: 0,
        delivered: 0,
        resets: 0,
    };
    unsafe { FAB = Some(Shared::new(f)) };
    tn_network_libp2p::sim::set_transport(make);
}
pub fn addr(node: usize, port: u16) -> Multiaddr {
    format!("/ip4/34.{}.7.{}/udp/{}/quic-v1", 10 + node, node + 1, port).parse().unwrap()
}
fn parse(a: &Multiaddr) -> Option<(u8, u16)> {
    let mut ip = None;
    let mut port = None;
    for p in a.iter() {
        match p {
            Protocol::Ip4(v) => ip = Some(v.octets()[3]),
            Protocol::Udp(p) => port = Some(p),
            _ => {}
        }
    }
    Some((ip?, port?))
}

impl Fabric {
    fn node_of_group(&self, g: u32) -> usize {
        self.nodes.iter().position(|n| n.group == g).expect("a node's group")
    }
    fn latency(&mut self) -> u64 {
        let l = self.link.clone();
        let mut d = l.base + if l.jitter > 0 { self.rng.below(l.jitter) } else { 0 };
        if l.spike > 0 && self.rng.chance(1, l.spike) {
            d += self.rng.below(l.spike_ns.max(1));
            simrt::fault("net_delay_spike");
        }
        d
    }
    /// Queue for a node at a time.
    fn at(&mut self, node: usize, due: u64, p: Pkt) {
        self.seq += 1;
        let n = &mut self.nodes[node];
        n.q.insert((due, self.seq), p);
        if let Some(t) = n.nic {
            if let St::Poll { deadline } = &mut simrt::sim().threads[t].st {
                if deadline.is_none_or(|d| d > due) {
                    *deadline = Some(due);
                }
            }
        }
    }
    fn node_at(&self, conn: usize, side: usize) -> usize {
        self.conns[conn].nodes[side]
    }
    /// Send to one side of a connection.
    fn send(&mut self, conn: usize, side: usize, from: usize, p: Pkt) {
        let to = self.node_at(conn, side);
        self.send_nodes(from, to, p);
    }
    fn send_nodes(&mut self, from: usize, to: usize, p: Pkt) {
        self.sent += 1;
        if self.cut.contains_key(&(from, to)) {
            simrt::fault("net_held_by_partition");
            self.held.entry((from, to)).or_default().push((to, p));
            return;
        }
        let mut due = simrt::now_ns() + self.latency();
        match &p {
            Pkt::Syn { .. } if !self.late_reset => {
                due = due.max(self.closing.get(&(from, to)).map_or(0, |t| t + 1));
            }
            Pkt::Reset { .. } => {
                let c = self.closing.entry((from, to)).or_default();
                *c = due.max(*c);
            }
            _ => {}
        }
        match &p {
            Pkt::SynAck { conn } => self.conns[*conn].floor = due,
            Pkt::Open { conn, side: 0, .. } | Pkt::Data { conn, side: 0, .. } | Pkt::Fin { conn, side: 0, .. }
            | Pkt::Stop { conn, side: 0, .. } | Pkt::Credit { conn, side: 0, .. } | Pkt::Reset { conn, side: 0 } => {
                due = due.max(self.conns[*conn].floor + 1)
            }
            _ => {}
        }
        // one substream is one ordered byte stream; different ones overtake each other
        if let Pkt::Open { conn, side, sub } | Pkt::Data { conn, side, sub, .. } | Pkt::Fin { conn, side, sub } = &p {
            let s = self.conns[*conn].sides[1 - *side].subs.entry(*sub).or_default();
            due = due.max(s.last_due + 1);
            s.last_due = due;
        }
        self.at(to, due, p);
    }
    pub fn cut(&mut self, a: usize, b: usize) {
        if self.cut.contains_key(&(a, b)) {
            return;
        }
        self.ncuts += 1;
        let id = self.ncuts;
        self.cut.insert((a, b), id);
        simrt::fault("net_cut");
        let due = simrt::now_ns() + self.idle;
        for c in 0..self.conns.len() {
            let (na, nb) = (self.node_at(c, 0), self.node_at(c, 1));
            if (na, nb) == (a, b) || (na, nb) == (b, a) {
                for side in 0..2 {
                    if self.conns[c].sides[side].up {
                        self.at([na, nb][side], due, Pkt::IdleCheck { conn: c, side, cut: id });
                    }
                }
            }
        }
    }
    pub fn heal(&mut self, a: usize, b: usize) {
        if self.cut.remove(&(a, b)).is_some() {
            simrt::fault("net_heal");
            for (_, p) in self.held.remove(&(a, b)).unwrap_or_default() {
                self.send_nodes(a, b, p);
            }
        }
    }
    pub fn heal_all(&mut self) {
        for (a, b) in self.cut.keys().cloned().collect::<Vec<_>>() {
            self.heal(a, b);
        }
    }
    pub fn is_cut(&self, a: usize, b: usize) -> bool {
        self.cut.contains_key(&(a, b))
    }
    /// The process of this node is gone. Its peers find out when they next hear from its host, or by
    /// their idle timers.
    pub fn down(&mut self, node: usize, abrupt_ns: u64) {
        let n = &mut self.nodes[node];
        n.nic = None;
        n.group = u32::MAX;
        n.q.clear();
        for e in self.eps.iter_mut().filter(|e| e.node == node) {
            e.live = false;
            std::mem::forget(e.waker.take());
            std::mem::forget(std::mem::take(&mut e.events));
        }
        for c in 0..self.conns.len() {
            for side in 0..2 {
                if self.node_at(c, side) != node {
                    continue;
                }
                let s = &mut self.conns[c].sides[side];
                let was = s.up || s.dialing;
                s.up = false;
                s.dialing = false;
                std::mem::forget((s.w_in.take(), s.w_poll.take(), s.w_dial.take()));
                for u in s.subs.values_mut() {
                    std::mem::forget((u.rw.take(), u.ww.take()));
                }
                if was {
                    let other = self.node_at(c, 1 - side);
                    if other != node {
                        let due = simrt::now_ns() + abrupt_ns;
                        self.at(other, due, Pkt::Reset { conn: c, side: 1 - side });
                    }
                }
            }
        }
    }
    pub fn up(&mut self, node: usize, group: u32) {
        self.nodes[node].group = group;
        if self.late_reset {
            return;
        }
        // the new process answers packets of the old one's connections with stateless resets
        for c in 0..self.conns.len() {
            for side in 0..2 {
                let other = self.node_at(c, 1 - side);
                if self.node_at(c, side) == node && other != node && self.conns[c].sides[1 - side].up {
                    self.at(other, simrt::now_ns(), Pkt::Reset { conn: c, side: 1 - side });
                }
            }
        }
    }
    fn fail_side(&mut self, conn: usize, side: usize, why: &'static str, w: &mut Vec<Waker>) {
        let s = &mut self.conns[conn].sides[side];
        if !s.up && !s.dialing {
            return;
        }
        s.up = false;
        s.dialing = false;
        s.failed = Some(why);
        w.extend([s.w_in.take(), s.w_poll.take(), s.w_dial.take()].into_iter().flatten());
        for u in s.subs.values_mut() {
            w.extend([u.rw.take(), u.ww.take()].into_iter().flatten());
        }
    }
    /// Handle what is due at this node; the wakers to wake.
    fn deliver(&mut self, node: usize, w: &mut Vec<Waker>, calls: &mut Vec<Box<dyn FnOnce() + Send>>) {
        let now = simrt::now_ns();
        while let Some((&k, _)) = self.nodes[node].q.first_key_value() {
            if k.0 > now {
                break;
            }
            let p = self.nodes[node].q.remove(&k).unwrap();
            self.delivered += 1;
            match p {
                Pkt::Call(f) => calls.push(f),
                p => self.one(node, p, w),
            }
        }
    }
    /// Run `f` on the node's own network thread.
    pub fn call(&mut self, node: usize, after: u64, f: impl FnOnce() + Send + 'static) {
        if self.nodes[node].nic.is_some() {
            self.at(node, simrt::now_ns() + after, Pkt::Call(Box::new(f)));
        }
    }
    fn dead(&mut self, node: usize, conn: usize, side: usize) -> bool {
        if self.conns[conn].sides[side].up {
            return false;
        }
        if self.node_at(conn, 1 - side) != node && self.conns[conn].sides[1 - side].up {
            self.send(conn, 1 - side, node, Pkt::Reset { conn, side: 1 - side });
        }
        true
    }
    fn one(&mut self, node: usize, p: Pkt, w: &mut Vec<Waker>) {
        match p {
            Pkt::Syn { conn } => {
                let (ip, port) = self.conns[conn].addr;
                let _ = ip;
                let ep = (0..self.eps.len()).find(|i| {
                    let e = &self.eps[*i];
                    e.live && e.node == node && e.listen.iter().any(|l| l.1 == port)
                });
                let from = self.node_at(conn, 0);
                match ep {
                    None => self.send_nodes(node, from, Pkt::Refused { conn }),
                    Some(e) => {
                        let side = &mut self.conns[conn].sides[1];
                        side.ep = e;
                        side.up = true;
                        side.next_sub = 1;
                        let dialer = self.eps[self.conns[conn].sides[0].ep].peer;
                        let lid = self.eps[e].listen.iter().find(|l| l.1 == port).unwrap().0;
                        let back = addr(from, 50_000 + (conn % 9_000) as u16);
                        let ev = TransportEvent::Incoming {
                            listener_id: lid,
                            upgrade: std::future::ready(Ok((dialer, StreamMuxerBox::new(Mux { conn, side: 1 })))),
                            local_addr: addr(node, port),
                            send_back_addr: back,
                        };
                        self.eps[e].events.push_back(ev);
                        w.extend(self.eps[e].waker.take());
                        self.send(conn, 0, node, Pkt::SynAck { conn });
                    }
                }
            }
            Pkt::SynAck { conn } => {
                if self.conns[conn].sides[0].dialing {
                    let s = &mut self.conns[conn].sides[0];
                    s.dialing = false;
                    s.up = true;
                    w.extend(s.w_dial.take());
                } else if !self.conns[conn].sides[0].up {
                    self.send(conn, 1, node, Pkt::Reset { conn, side: 1 });
                }
            }
            Pkt::Call(_) => unreachable!(),
            Pkt::Refused { conn } => self.fail_side(conn, 0, "connection refused", w),
            Pkt::DialTimeout { conn } => {
                if self.conns[conn].sides[0].dialing {
                    simrt::fault("net_dial_timeout");
                    self.fail_side(conn, 0, "handshake timed out", w);
                }
            }
            Pkt::Open { conn, side, sub } => {
                if !self.dead(node, conn, side) {
                    let s = &mut self.conns[conn].sides[side];
                    s.subs.entry(sub).or_default();
                    s.inbound.push_back(sub);
                    w.extend(s.w_in.take());
                }
            }
            Pkt::Data { conn, side, sub, bytes } => {
                if !self.dead(node, conn, side) {
                    if let Some(u) = self.conns[conn].sides[side].subs.get_mut(&sub) {
                        if !u.dropped {
                            u.rbuf.extend(bytes);
                            w.extend(u.rw.take());
                        }
                    }
                }
            }
            Pkt::Credit { conn, side, sub, n } => {
                if let Some(u) = self.conns[conn].sides[side].subs.get_mut(&sub) {
                    u.inflight = u.inflight.saturating_sub(n);
                    w.extend(u.ww.take());
                }
            }
            Pkt::Fin { conn, side, sub } => {
                if !self.dead(node, conn, side) {
                    if let Some(u) = self.conns[conn].sides[side].subs.get_mut(&sub) {
                        u.eof = true;
                        w.extend(u.rw.take());
                    }
                }
            }
            Pkt::Stop { conn, side, sub } => {
                if let Some(u) = self.conns[conn].sides[side].subs.get_mut(&sub) {
                    u.stopped = true;
                    w.extend(u.ww.take());
                }
            }
            Pkt::Reset { conn, side } => {
                self.resets += 1;
                self.fail_side(conn, side, "connection reset", w);
            }
            Pkt::IdleCheck { conn, side, cut } => {
                let (a, b) = (self.node_at(conn, 0), self.node_at(conn, 1));
                if self.cut.get(&(a, b)) == Some(&cut) || self.cut.get(&(b, a)) == Some(&cut) {
                    simrt::fault("net_idle_timeout");
                    self.fail_side(conn, side, "timed out", w);
                }
            }
        }
    }
}
/// The thread of a node that hands it what the network brings. Runs in the node's group.
pub fn nic(node: usize) {
    fab(|f| f.nodes[node].nic = Some(simrt::core::me() as usize));
    loop {
        let mut w = vec![];
        let mut calls = vec![];
        simrt::critical(|| loop {
            fab(|f| f.deliver(node, &mut w, &mut calls));
            if !w.is_empty() || !calls.is_empty() {
                return;
            }
            let next = fab(|f| f.nodes[node].q.first_key_value().map(|(k, _)| k.0));
            if next.is_none_or(|n| n > simrt::now_ns()) {
                simrt::block(St::Poll { deadline: next });
            }
        });
        for x in w {
            x.wake();
        }
        for f in calls {
            f();
        }
    }
}
fn err(why: &'static str) -> io::Error {
    io::Error::new(io::ErrorKind::ConnectionReset, why)
}
fn swap(slot: &mut Option<Waker>, cx: &Context<'_>) -> Option<Waker> {
    if slot.as_ref().is_some_and(|w| w.will_wake(cx.waker())) {
        None
    } else {
        slot.replace(cx.waker().clone())
    }
}

fn make(peer: PeerId) -> Boxed<(PeerId, StreamMuxerBox)> {
    let g = simrt::my_group();
    let ep = fab(|f| {
        let node = f.node_of_group(g);
        f.eps.push(Endpoint { peer, node, live: true, listen: vec![], events: VecDeque::new(), waker: None });
        f.eps.len() - 1
    });
    Net { ep }.boxed()
}
struct Net {
    ep: usize,
}
impl Drop for Net {
    fn drop(&mut self) {
        if !simrt::on() {
            return;
        }
        let old = fab(|f| {
            let e = &mut f.eps[self.ep];
            e.live = false;
            (e.waker.take(), std::mem::take(&mut e.events))
        });
        drop(old);
    }
}
struct Dial {
    conn: usize,
    done: bool,
}
impl Future for Dial {
    type Output = Result<(PeerId, StreamMuxerBox), io::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let conn = self.conn;
        let (r, _old) = fab(|f| {
            let peer = f.eps[f.conns[conn].sides[1].ep].peer;
            let s = &mut f.conns[conn].sides[0];
            if s.up {
                (Poll::Ready(Ok(peer)), None)
            } else if s.dialing {
                (Poll::Pending, swap(&mut s.w_dial, cx))
            } else {
                (Poll::Ready(Err(err(s.failed.unwrap_or("closed")))), None)
            }
        });
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => {
                self.done = true;
                Poll::Ready(r.map(|p| (p, StreamMuxerBox::new(Mux { conn, side: 0 }))))
            }
        }
    }
}
impl Drop for Dial {
    fn drop(&mut self) {
        if !self.done && simrt::on() {
            let _old = fab(|f| {
                let s = &mut f.conns[self.conn].sides[0];
                s.dialing = false;
                s.up = false;
                s.w_dial.take()
            });
        }
    }
}
impl Transport for Net {
    type Output = (PeerId, StreamMuxerBox);
    type Error = io::Error;
    type ListenerUpgrade = Ready;
    type Dial = Pin<Box<dyn Future<Output = Result<Self::Output, io::Error>> + Send>>;
    fn listen_on(&mut self, id: ListenerId, a: Multiaddr) -> Result<(), TransportError<io::Error>> {
        let Some((_, port)) = parse(&a) else { return Err(TransportError::MultiaddrNotSupported(a)) };
        let w = fab(|f| {
            let e = &mut f.eps[self.ep];
            e.listen.push((id, port));
            let listen_addr = addr(e.node, port);
            e.events.push_back(TransportEvent::NewAddress { listener_id: id, listen_addr });
            e.waker.take()
        });
        w.into_iter().for_each(Waker::wake);
        Ok(())
    }
    fn remove_listener(&mut self, id: ListenerId) -> bool {
        let (r, w) = fab(|f| {
            let e = &mut f.eps[self.ep];
            let n = e.listen.len();
            e.listen.retain(|l| l.0 != id);
            let r = e.listen.len() != n;
            if r {
                e.events.push_back(TransportEvent::ListenerClosed { listener_id: id, reason: Ok(()) });
            }
            (r, e.waker.take())
        });
        w.into_iter().for_each(Waker::wake);
        r
    }
    fn dial(&mut self, a: Multiaddr, _: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        let Some((ip, port)) = parse(&a) else { return Err(TransportError::MultiaddrNotSupported(a)) };
        let conn = fab(|f| {
            let to = ip as usize - 1;
            if ip == 0 || to >= f.nodes.len() {
                return None;
            }
            let from = f.eps[self.ep].node;
            let conn = f.conns.len();
            let a = Side { ep: self.ep, dialing: true, ..Default::default() };
            f.conns.push(Conn { sides: [a, Side::default()], nodes: [from, to], addr: (ip, port), floor: 0 });
            f.send_nodes(from, to, Pkt::Syn { conn });
            let due = simrt::now_ns() + f.dial_timeout;
            f.at(from, due, Pkt::DialTimeout { conn });
            Some(conn)
        });
        Ok(match conn {
            Some(conn) => Box::pin(Dial { conn, done: false }),
            None => Box::pin(std::future::ready(Err(err("no route")))),
        })
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<TransportEvent<Ready, io::Error>> {
        let (r, _old) = fab(|f| {
            let e = &mut f.eps[self.ep];
            match e.events.pop_front() {
                Some(v) => (Poll::Ready(v), None),
                None => (Poll::Pending, swap(&mut e.waker, cx)),
            }
        });
        r
    }
}
pub struct Mux {
    conn: usize,
    side: usize,
}
impl Mux {
    fn close(&mut self) {
        let (conn, side) = (self.conn, self.side);
        let mut w = vec![];
        fab(|f| {
            if f.conns[conn].sides[side].up {
                let me = f.node_at(conn, side);
                f.fail_side(conn, side, "closed", &mut w);
                f.send(conn, 1 - side, me, Pkt::Reset { conn, side: 1 - side });
            }
        });
        w.into_iter().for_each(Waker::wake);
    }
}
impl Drop for Mux {
    fn drop(&mut self) {
        if simrt::on() {
            self.close();
        }
    }
}
impl StreamMuxer for Mux {
    type Substream = Stream;
    type Error = io::Error;
    fn poll_inbound(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<Stream>> {
        let (conn, side) = (self.conn, self.side);
        let (r, _old) = fab(|f| {
            let s = &mut f.conns[conn].sides[side];
            if let Some(sub) = s.inbound.pop_front() {
                (Poll::Ready(Ok(Stream { conn, side, sub })), None)
            } else if !s.up {
                (Poll::Ready(Err(err(s.failed.unwrap_or("closed")))), None)
            } else {
                (Poll::Pending, swap(&mut s.w_in, cx))
            }
        });
        r
    }
    fn poll_outbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Stream>> {
        let (conn, side) = (self.conn, self.side);
        fab(|f| {
            let s = &mut f.conns[conn].sides[side];
            if !s.up {
                return Poll::Ready(Err(err(s.failed.unwrap_or("closed"))));
            }
            let sub = s.next_sub;
            s.next_sub += 2;
            s.subs.insert(sub, Sub::default());
            let me = f.node_at(conn, side);
            f.send(conn, 1 - side, me, Pkt::Open { conn, side: 1 - side, sub });
            Poll::Ready(Ok(Stream { conn, side, sub }))
        })
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.close();
        Poll::Ready(Ok(()))
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<StreamMuxerEvent>> {
        let (conn, side) = (self.conn, self.side);
        let (r, _old) = fab(|f| {
            let s = &mut f.conns[conn].sides[side];
            if !s.up {
                (Poll::Ready(Err(err(s.failed.unwrap_or("closed")))), None)
            } else {
                (Poll::Pending, swap(&mut s.w_poll, cx))
            }
        });
        r
    }
}
pub struct Stream {
    conn: usize,
    side: usize,
    sub: u64,
}
impl futures::AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let (conn, side, sub) = (self.conn, self.side, self.sub);
        let (r, _old) = fab(|f| {
            let me = f.node_at(conn, side);
            let s = &mut f.conns[conn].sides[side];
            let up = s.up;
            let u = s.subs.get_mut(&sub).unwrap();
            if !up {
                return (Poll::Ready(Err(err(s.failed.unwrap_or("closed")))), None);
            }
            if !u.rbuf.is_empty() {
                let n = buf.len().min(u.rbuf.len());
                for (i, b) in u.rbuf.drain(..n).enumerate() {
                    buf[i] = b;
                }
                f.send(conn, 1 - side, me, Pkt::Credit { conn, side: 1 - side, sub, n });
                (Poll::Ready(Ok(n)), None)
            } else if u.eof {
                (Poll::Ready(Ok(0)), None)
            } else {
                (Poll::Pending, swap(&mut u.rw, cx))
            }
        });
        r
    }
}
impl futures::AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let (conn, side, sub) = (self.conn, self.side, self.sub);
        let (r, _old) = fab(|f| {
            let me = f.node_at(conn, side);
            let peer = f.node_at(conn, 1 - side);
            let (pe, re) = (f.eps[f.conns[conn].sides[side].ep].peer, f.eps[f.conns[conn].sides[1 - side].ep].peer);
            let s = &mut f.conns[conn].sides[side];
            let (up, failed) = (s.up, s.failed);
            let u = s.subs.get_mut(&sub).unwrap();
            if !up {
                return (Poll::Ready(Err(err(failed.unwrap_or("closed")))), None);
            }
            if u.stopped || u.wclosed {
                return (Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())), None);
            }
            if u.inflight >= WINDOW {
                return (Poll::Pending, swap(&mut u.ww, cx));
            }
            let n = buf.len().min(64 << 10).min(WINDOW - u.inflight);
            u.inflight += n;
            let now = simrt::now_ns();
            let t = f.tap.entry((conn, side, sub)).or_insert_with(|| Tapped {
                from: me,
                to: peer,
                from_peer: pe,
                to_peer: re,
                opener: sub % 2 == side as u64,
                at: now,
                bytes: vec![],
                marks: vec![],
            });
            t.marks.push((t.bytes.len(), now));
            t.bytes.extend(&buf[..n]);
            let mut rest = &buf[..n];
            if f.fragment > 0 && n > 1 && f.rng.chance(1, f.fragment) {
                let k = 1 + f.rng.below(n as u64 - 1) as usize;
                let (a, b) = rest.split_at(k);
                rest = b;
                f.send(conn, 1 - side, me, Pkt::Data { conn, side: 1 - side, sub, bytes: a.to_vec() });
            }
            f.send(conn, 1 - side, me, Pkt::Data { conn, side: 1 - side, sub, bytes: rest.to_vec() });
            (Poll::Ready(Ok(n)), None)
        });
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (conn, side, sub) = (self.conn, self.side, self.sub);
        fab(|f| {
            let me = f.node_at(conn, side);
            let s = &mut f.conns[conn].sides[side];
            if !s.up {
                return;
            }
            let u = s.subs.get_mut(&sub).unwrap();
            if !u.wclosed {
                u.wclosed = true;
                f.send(conn, 1 - side, me, Pkt::Fin { conn, side: 1 - side, sub });
            }
        });
        Poll::Ready(Ok(()))
    }
}
impl Drop for Stream {
    fn drop(&mut self) {
        if !simrt::on() {
            return;
        }
        let (conn, side, sub) = (self.conn, self.side, self.sub);
        let _old = fab(|f| {
            let me = f.node_at(conn, side);
            let s = &mut f.conns[conn].sides[side];
            let up = s.up;
            let u = s.subs.get_mut(&sub).unwrap();
            u.dropped = true;
            u.rbuf.clear();
            let old = (u.rw.take(), u.ww.take());
            if up {
                if !u.wclosed {
                    u.wclosed = true;
                    f.send(conn, 1 - side, me, Pkt::Fin { conn, side: 1 - side, sub });
                }
                f.send(conn, 1 - side, me, Pkt::Stop { conn, side: 1 - side, sub });
            }
            old
        });
    }
}
