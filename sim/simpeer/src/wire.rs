//! P20: messages on a stream.
use crate::base::*;
use futures::{AsyncRead, AsyncWrite};
use serde::{Deserialize, Serialize};
use simcore::*;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tn_network_libp2p::sim::libp2p::{request_response::Codec as _, StreamProtocol};
use tn_network_libp2p::{read_frame, write_frame, DenyReason, PeerExchangeMap, SyncFrame, SyncFrameError, TNCodec, TNMessage};

pub const CHECK: Check = Check {
    id: "P20",
    rule: "an evaluation is one seeded exchange of messages over links that fragment, delay, cut and corrupt them, with a reader that times out and goes on, and hostile bytes of the scenario's making; judged at every message; non-trivial if an oracle comparison ran and there was a fault or choice; distinct by schedule and event hash",
    real: &["tn-network-libp2p codec (encode_message, decode_message, TNCodec)", "tn-network-libp2p sync frames", "snap, bcs", "tokio runtime and timers"],
    stub: &["streams: byte pipes of the simulator, as yamux gives them", "kernel: threads, clock"],
    assumptions: &["a stream hands over bytes in order"],
    gen,
    run,
    runs: (20_000, 400_000),
    wall: (18, 500),
    stuck_is_violation: true,
    max_steps: 60_000_000,
};
/// What a link does to the bytes it carries.
#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    /// bytes accepted from the writer, and handed to the reader
    sent: usize,
    got: usize,
    closed: bool,
    broken: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    ends: u32,
    rng: Option<Rng>,
    /// largest fragment, 1 in how many polls is made to wait
    frag: u64,
    wait: u64,
    window: usize,
    /// the link ends after this many bytes: 1 as if closed, 2 with an error
    cut: Option<(usize, u8)>,
    /// (position, value xored in)
    flips: Vec<(usize, u8)>,
}
#[derive(Clone)]
struct Link(Shared<Pipe>);
impl Link {
    /// Maybe not now: the task is woken again later.
    fn later(p: &mut Pipe, cx: &mut Context<'_>) -> bool {
        let w = p.wait;
        let r = p.rng.as_mut().unwrap();
        if w == 0 || !r.chance(1, w) {
            return false;
        }
        let (wk, ms) = (cx.waker().clone(), r.below(4));
        tokio::spawn(async move {
            if ms > 0 {
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            wk.wake();
        });
        true
    }
}
impl AsyncRead for Link {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        let p = unsafe { &mut *self.0.ptr() };
        if out.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let over = p.buf.is_empty() && p.closed || p.cut.is_some_and(|(at, _)| p.got >= at);
        if over {
            p.ends += 1;
            check!(p.ends < 1_000, "spins", "the stream is over, and the reader goes on reading it");
        }
        if let Some((at, how)) = p.cut {
            if p.got >= at {
                if !p.broken {
                    simrt::fault(["cut", "cut", "reset"][how as usize]);
                }
                p.broken = true;
                if let Some(w) = p.writer.take() {
                    w.wake();
                }
                return Poll::Ready(if how == 2 { Err(io::ErrorKind::ConnectionReset.into()) } else { Ok(0) });
            }
        }
        if p.buf.is_empty() {
            if p.closed {
                return Poll::Ready(Ok(0));
            }
            p.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if Self::later(p, cx) {
            return Poll::Pending;
        }
        let mut n = (1 + p.rng.as_mut().unwrap().below(p.frag)) as usize;
        n = n.min(out.len()).min(p.buf.len());
        if let Some((at, _)) = p.cut {
            n = n.min(at - p.got);
        }
        for o in out.iter_mut().take(n) {
            *o = p.buf.pop_front().unwrap();
            if let Some((_, x)) = p.flips.iter().find(|f| f.0 == p.got) {
                simrt::fault("corrupted_byte");
                *o ^= x;
            }
            p.got += 1;
        }
        if let Some(w) = p.writer.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Link {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let p = unsafe { &mut *self.0.ptr() };
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if p.buf.len() >= p.window {
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if Self::later(p, cx) {
            return Poll::Pending;
        }
        let n = (1 + p.rng.as_mut().unwrap().below(p.frag)) as usize;
        let n = n.min(data.len()).min(p.window - p.buf.len());
        p.buf.extend(&data[..n]);
        p.sent += n;
        if let Some(w) = p.reader.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let p = unsafe { &mut *self.0.ptr() };
        p.closed = true;
        if let Some(w) = p.reader.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Msg {
    Ping,
    Blob { tag: u64, data: Vec<u8> },
    Text(String, Vec<u32>),
    Many(Vec<Msg>),
    Peers(PeerExchangeMap),
}
impl From<PeerExchangeMap> for Msg {
    fn from(p: PeerExchangeMap) -> Self {
        Self::Peers(p)
    }
}
impl TNMessage for Msg {
    fn peer_exchange_msg(&self) -> Option<PeerExchangeMap> {
        None
    }
}
type Frame = SyncFrame<Msg>;
fn payload(r: &mut Rng, len: usize) -> Vec<u8> {
    match r.below(3) {
        0 => vec![r.below(256) as u8; len],
        1 => {
            let word: Vec<u8> = (0..1 + r.below(40)).map(|_| r.below(256) as u8).collect();
            (0..len).map(|i| word[i % word.len()]).collect()
        }
        _ => (0..len).map(|_| r.below(256) as u8).collect(),
    }
}
fn msg(seed: u64, len: usize) -> Msg {
    let mut r = Rng::new(seed);
    match r.below(7) {
        0 => Msg::Ping,
        1 => Msg::Text("é".repeat(len / 4), (0..len / 16).map(|_| r.below(1 << 32) as u32).collect()),
        2 => {
            let k = r.below(5);
            Msg::Many((0..k).map(|i| Msg::Blob { tag: i, data: payload(&mut r, len / 5) }).collect())
        }
        _ => Msg::Blob { tag: r.next(), data: payload(&mut r, len) },
    }
}
fn frame(seed: u64, len: usize) -> Frame {
    let mut r = Rng::new(seed ^ 0xf0);
    match r.below(9) {
        0 => SyncFrame::Ack,
        1 => SyncFrame::End,
        2 => SyncFrame::Deny(if r.chance(1, 2) { DenyReason::AtCapacity } else { DenyReason::Unavailable }),
        3 => SyncFrame::Err(if r.chance(1, 2) { SyncFrameError::Internal } else { SyncFrameError::Malformed }),
        4 => SyncFrame::Req(msg(seed, len)),
        _ => SyncFrame::Data(payload(&mut r, len)),
    }
}
fn size_of(f: &Frame) -> usize {
    tn_types::encode(f).len()
}
fn gen(seed: u64, i: u64) -> Scenario {
    let mut sc = Scenario::new("P20", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    let max = *r.pick(&[40i64, 40, 300, 300, 300, 5_000, 5_000, 70_000, 200_000]);
    sc.set("max", max);
    sc.set("rmax", if r.chance(1, 4) { *r.pick(&[max - 1, max / 2, max + 1, 2 * max]) } else { max });
    if i % 3 == 0 {
        // the request-response codec; both directions
        sc.set("codec", 1);
    }
    let big = r.chance(1, 2);
    for _ in 0..1 + r.below(5) {
        sc.ops.push(Op::new("link", &[r.next() as i64 & 0xffff_ffff, *r.pick(&[1i64, 3, 50, 5_000, 1 << 20]) * (1 + max / 1_000), *r.pick(&[0i64, 0, 2, 7, 40]), *r.pick(&[1i64, 9, 4_096, 1 << 20]) * (1 + max / 1_000)]));
        for _ in 0..r.below(3) {
            if r.chance(1, 3) {
                sc.ops.push(Op::new("cut", &[r.below(if big { 100_000 } else { 400 }) as i64, 1 + r.below(2) as i64]));
            }
            if r.chance(1, 4) {
                let span = if r.chance(1, 2) { 60 } else { 3_000 };
                sc.ops.push(Op::new("flip", &[r.below(span) as i64, 1 + r.below(255) as i64]));
            }
        }
        if r.chance(1, 4) {
            // hostile bytes instead of messages
            let n = r.below(60) as i64;
            sc.ops.push(Op::new("raw", &[r.below(9) as i64, r.below(1 << 40) as i64, n, r.below(2) as i64]));
            continue;
        }
        for _ in 0..1 + r.below(6) {
            let len = match r.below(5) {
                0 => r.below(max as u64 + 20) as i64,
                1 => max - 12 + r.below(14) as i64,
                _ => r.below((max as u64).min(if big { 1 << 30 } else { 300 })) as i64,
            };
            sc.ops.push(Op::new("msg", &[r.next() as i64 & 0xffff_ffff_ffff, len.max(0)]));
        }
        if r.chance(1, 3) {
            sc.ops.push(Op::new("impatient", &[r.below(6) as i64, r.below(5) as i64]));
        }
    }
    sc
}
struct Bufs {
    a: Vec<u8>,
    b: Vec<u8>,
}
/// What one link carried, in the order it was written, with the end of each on the wire.
#[derive(Default)]
struct Wire {
    log: Vec<(Frame, usize)>,
    done: bool,
}
async fn writer(link: Link, msgs: Vec<Op>, max: usize, log: Shared<Wire>) {
    let mut l = link.clone();
    let (mut a, mut b) = (vec![], vec![]);
    for m in &msgs {
        let f = frame(m.u(0), m.u(1) as usize);
        let size = size_of(&f);
        let before = link.0.with(|p| p.sent);
        let start = log.with(|w| {
            w.log.push((f.clone(), usize::MAX));
            w.log.len() - 1
        });
        let res = write_frame(&mut l, &f, &mut a, &mut b, max).await;
        let (after, broken) = link.0.with(|p| (p.sent, p.broken));
        if size > max {
            check!(res.is_err() && after == before, "oversize_sent", "a message of {size} bytes, over the limit of {max}, was written ({res:?}, {} bytes on the wire)", after - before);
            log.with(|w| w.log.remove(start));
            continue;
        }
        simrt::event(1, size as u64);
        match res {
            Ok(()) => log.with(|w| w.log[start].1 = after),
            Err(e) => {
                check!(broken, "not_written", "a message of {size} bytes, limit {max}, could not be written on a good stream: {e}");
                break;
            }
        }
    }
    use futures::AsyncWriteExt;
    let _ = l.close().await;
    log.with(|w| w.done = true);
}
fn memory(b: &Bufs, got: usize, max: usize, grown: usize) {
    // vectors double; a block of 64 KiB is unpacked at a time
    check!(b.b.capacity() <= (2 * got + 20_000).max(grown), "memory", "{} bytes have arrived, and {} are held for them", got, b.b.capacity());
    check!(b.a.capacity() <= 2 * max + 1_024, "memory", "the limit is {max} bytes, and {} are held for a message", b.a.capacity());
}
async fn life(sc: Scenario) {
    let (max, rmax) = (sc.p("max").max(1) as usize, sc.p("rmax").max(1) as usize);
    let mut bufs = Bufs { a: vec![], b: vec![] };
    let mut from = 0;
    let starts: Vec<usize> = sc.ops.iter().enumerate().filter(|o| o.1.k == "link").map(|o| o.0).collect();
    for (k, s) in starts.iter().enumerate() {
        let to = starts.get(k + 1).copied().unwrap_or(sc.ops.len());
        let ops = &sc.ops[*s..to];
        from += 1;
        let o = &ops[0];
        let all = |n: &str| ops.iter().filter(|o| o.k == n).cloned().collect::<Vec<_>>();
        let pipe = Pipe {
            rng: Some(Rng::new(o.u(0) ^ from)),
            frag: o.u(1).max(1),
            wait: o.u(2),
            window: o.u(3).max(1) as usize,
            cut: all("cut").first().map(|c| (c.u(0) as usize, c.u(1).clamp(1, 2) as u8)),
            flips: all("flip").iter().map(|c| (c.u(0) as usize, c.u(1) as u8)).collect(),
            ..Default::default()
        };
        let link = Link(Shared::new(pipe));
        if let Some(raw) = all("raw").first() {
            hostile(&link, raw, rmax, &mut bufs).await;
        } else {
            talk(&link, all("msg"), all("impatient").first(), max, rmax, &mut bufs).await;
        }
    }
}
async fn talk(link: &Link, msgs: Vec<Op>, impatient: Option<&Op>, max: usize, rmax: usize, bufs: &mut Bufs) {
    let log: Shared<Wire> = Shared::new(Wire::default());
    let w = tokio::spawn(writer(link.clone(), msgs, max, log.clone()));
    let (mut l, mut n, mut last) = (link.clone(), 0usize, 0usize);
    loop {
        let grown = bufs.b.capacity();
        let at = link.0.with(|p| p.got);
        let give_up = impatient.filter(|i| i.u(0) as usize == n).map(|i| Duration::from_millis(i.u(1)));
        let res: Option<io::Result<Frame>> = match give_up {
            Some(d) => tokio::time::timeout(d, read_frame(&mut l, &mut bufs.a, &mut bufs.b, rmax)).await.ok(),
            None => Some(read_frame(&mut l, &mut bufs.a, &mut bufs.b, rmax).await),
        };
        let got = link.0.with(|p| p.got);
        memory(bufs, got - at, rmax, grown);
        let Some(res) = res else {
            // given up in the middle of a message: this stream is done for
            simrt::fault("reader_gives_up");
            break;
        };
        let touched = link.0.with(|p| p.flips.iter().any(|f| f.0 >= last && f.0 < got));
        let cut = link.0.with(|p| p.broken);
        let want = log.with(|w| w.log.get(n).cloned());
        match res {
            Ok(f) => {
                check!(want.as_ref().is_some_and(|w| w.0 == f), "changed", "message {n} was read as {}, written as {}", short(&f), want.map(|w| short(&w.0)).unwrap_or("nothing".into()));
                check!(size_of(&f) <= rmax, "oversize_read", "a message of {} bytes was read, the limit is {rmax}", size_of(&f));
                simrt::event(2, n as u64);
                if touched {
                    // what was hit is not part of the message; where the next one starts is anybody's guess
                    break;
                }
                let end = log.with(|w| w.log[n].1);
                check!(end == usize::MAX || end == got, "not_one_message", "message {n} ends at byte {end}, the reader stands at {got}");
                (n, last) = (n + 1, got);
            }
            Err(e) => {
                simrt::event(3, e.kind() as u64);
                if touched || cut {
                    break;
                }
                let (all, done) = log.with(|w| (w.log.len(), w.done));
                match want {
                    Some((f, _)) if size_of(&f) > rmax => check!(got - at <= 8, "oversize_read", "{} bytes were read of a message above the limit", got - at),
                    Some((f, _)) => violate("lost", format!("message {n} of {all} ({}) could not be read: {e}", short(&f))),
                    None => check!(done && got == last, "lost", "after {n} messages the reader reports {e}, at byte {got} instead of {last}, writer done: {done}"),
                }
                break;
            }
        }
    }
    state(simrt::mix(n as u64, "read"));
    // the reader is gone
    link.0.with(|p| {
        p.broken = true;
        if let Some(w) = p.writer.take() {
            w.wake();
        }
    });
    if w.await.is_err() {
        violate("panic", "the writer panicked");
    }
}
fn short(f: &Frame) -> String {
    let s = format!("{f:?}");
    s.chars().take(60).collect::<String>() + &format!(".. ({} bytes)", size_of(f))
}
/// Bytes no honest peer sends.
async fn hostile(link: &Link, o: &Op, rmax: usize, bufs: &mut Bufs) {
    let mut r = Rng::new(o.u(1));
    let f = frame(o.u(1), (o.u(2) as usize).min(rmax / 2));
    let enc = tn_types::encode(&f);
    let (mut x, mut y, mut good) = (vec![], vec![], futures::io::Cursor::new(vec![]));
    let _ = write_frame(&mut good, &f, &mut x, &mut y, usize::MAX >> 1).await;
    let good = good.into_inner();
    let mut bytes = good.clone();
    // must be refused; and at the latest after so many bytes
    let (mut must_fail, mut by) = (true, usize::MAX);
    let kind = o.u(0);
    let snappy = |data: &[u8]| {
        use std::io::Write;
        let mut v = vec![];
        let mut e = snap_frame(&mut v);
        e.write_all(data).unwrap();
        e.flush().unwrap();
        drop(e);
        v
    };
    let wire = |len: u32, body: &[u8]| [&len.to_le_bytes()[..], &(body.len() as u32).to_le_bytes()[..], body].concat();
    match kind {
        // says it is larger than allowed
        0 => {
            bytes[..4].copy_from_slice(&((rmax as u64 + 1 + r.below(1 << 20)).min(u32::MAX as u64) as u32).to_le_bytes());
            by = 4;
        }
        1 => {
            bytes[..4].copy_from_slice(&u32::MAX.to_le_bytes());
            by = 4;
        }
        // a body larger than the message can need
        2 => {
            let len = r.below(rmax as u64) as u32;
            bytes[..4].copy_from_slice(&len.to_le_bytes());
            let most = 32 + len as u64 + len as u64 / 6;
            bytes[4..8].copy_from_slice(&((most + 1 + if r.chance(1, 2) { r.below(40) } else { r.below(1 << 28) }) as u32).to_le_bytes());
            by = 8;
        }
        // unpacks to more than it says
        3 => {
            let len = if r.chance(1, 2) { rmax } else { r.below(enc.len() as u64) as usize };
            let most = snap_most(len);
            let mut body = vec![];
            for k in 0..8 {
                let mut more = enc.clone();
                more.extend(vec![0u8; len + 1 + (65_536 << k)]);
                let b = snappy(&more);
                if k > 0 && b.len() > most {
                    break;
                }
                body = b;
            }
            body.truncate(most);
            bytes = wire(len as u32, &body);
            must_fail = enc.len() != len;
        }
        // unpacks to less than it says
        4 => {
            bytes = wire((enc.len() as u32 + 1 + r.below(50) as u32).min(rmax as u32), &snappy(&enc));
            must_fail = enc.len() < rmax;
        }
        // says much, sends little, and stalls
        5 => {
            bytes = wire(rmax as u32, &[]);
            bytes[4..8].copy_from_slice(&(snap_most(rmax) as u32).to_le_bytes());
            bytes.extend((0..r.below(50)).map(|_| r.below(256) as u8));
        }
        // more than the message
        6 => {
            let mut more = enc.clone();
            more.push(r.below(256) as u8);
            must_fail = more.len() <= rmax;
            bytes = wire(more.len() as u32, &snappy(&more));
            by = if must_fail { usize::MAX } else { 4 };
        }
        // noise
        7 => {
            bytes = wire(r.below(rmax as u64) as u32, &[]);
            let n = r.below(60) as usize;
            bytes[4..8].copy_from_slice(&(n as u32).to_le_bytes());
            bytes.extend((0..n).map(|_| r.below(256) as u8));
            must_fail = false;
        }
        // the end of the stream inside the message
        _ => bytes.truncate(r.below(bytes.len() as u64) as usize),
    }
    simrt::fault("hostile_bytes");
    let stalls = kind == 5 || (by != usize::MAX && o.arg(3) == 1);
    if by != usize::MAX && o.arg(3) == 1 {
        bytes.truncate(by);
    }
    let total = bytes.len();
    link.0.with(|p| {
        p.sent = total;
        p.buf = bytes.into();
        p.closed = !stalls;
        p.cut = None;
        p.flips.clear();
    });
    let mut l = link.clone();
    let grown = bufs.b.capacity();
    let res: Option<io::Result<Frame>> = tokio::time::timeout(Duration::from_secs(300), read_frame(&mut l, &mut bufs.a, &mut bufs.b, rmax)).await.ok();
    let got = link.0.with(|p| p.got);
    memory(bufs, got, rmax, grown);
    simrt::event(4, got as u64);
    match res {
        None => check!(kind == 5, "waits_for_more", "{got} of {total} bytes read, and the reader waits for more (hostile bytes of kind {kind})"),
        Some(Ok(f)) => {
            check!(!must_fail, "accepted", "hostile bytes of kind {kind} were read as {}", short(&f));
            check!(size_of(&f) <= rmax, "oversize_read", "a message of {} bytes was read, the limit is {rmax}", size_of(&f));
        }
        Some(Err(_)) => check!(got <= by, "late", "{got} bytes were read of a message that the first {by} bytes rule out"),
    }
}
fn snap_frame<W: std::io::Write>(w: W) -> snap::write::FrameEncoder<W> {
    snap::write::FrameEncoder::new(w)
}
fn snap_most(n: usize) -> usize {
    snap::raw::max_compress_len(n)
}
/// Requests and answers with the codec that libp2p is given; one copy of it for each stream.
async fn codec(sc: Scenario) {
    let max = sc.p("max").max(1) as usize;
    let proto = StreamProtocol::new("/sim");
    let mut reader = TNCodec::<Msg, Msg>::new(max);
    let mut from = 0;
    let mut pipe: Option<Op> = None;
    let mut cut: Option<Op> = None;
    for o in &sc.ops {
        match o.k.as_str() {
            "link" => (pipe, cut) = (Some(o.clone()), None),
            "cut" => cut = Some(o.clone()),
            "msg" => {
                from += 1;
                let Some(l) = &pipe else { continue };
                let link = Link(Shared::new(Pipe {
                    rng: Some(Rng::new(l.u(0) ^ from)),
                    frag: l.u(1).max(1),
                    wait: l.u(2),
                    window: l.u(3).max(1) as usize,
                    cut: cut.as_ref().map(|c| (c.u(0) as usize, c.u(1).clamp(1, 2) as u8)),
                    ..Default::default()
                }));
                let (m, req) = (msg(o.u(0), o.u(1) as usize), from % 2 == 0);
                let size = tn_types::encode(&m).len();
                let (mut l1, m1, mut wc, pr) = (link.clone(), m.clone(), reader.clone(), proto.clone());
                let w = tokio::spawn(async move {
                    let res = if req { wc.write_request(&pr, &mut l1, m1).await } else { wc.write_response(&pr, &mut l1, m1).await };
                    use futures::AsyncWriteExt;
                    let _ = l1.close().await;
                    res
                });
                let mut l2 = link.clone();
                let res = if req { reader.read_request(&proto, &mut l2).await } else { reader.read_response(&proto, &mut l2).await };
                let broken = link.0.with(|p| p.broken);
                link.0.with(|p| {
                    p.broken = true;
                    if let Some(w) = p.writer.take() {
                        w.wake();
                    }
                });
                let Ok(wres) = w.await else { violate("panic", "the writer panicked") };
                simrt::event(5, size as u64);
                match res {
                    Ok(got) => {
                        check!(got == m, "changed", "a message of {size} bytes was read as another");
                        check!(wres.is_ok(), "not_written", "a message was read whole, and the writer reports {wres:?}");
                    }
                    Err(e) if size > max => check!(wres.is_err() && link.0.with(|p| p.sent) == 0, "oversize_sent", "a message of {size} bytes, over the limit of {max}, was sent ({wres:?}, {e})"),
                    Err(e) => check!(broken, "lost", "a message of {size} bytes could not be read over a good stream: {e}, writer: {wres:?}"),
                }
            }
            _ => {}
        }
    }
}
fn run(sc: &Scenario) {
    let sc = sc.clone();
    process("life", u64::MAX >> 8, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        if sc.p("codec") == 1 {
            rt.block_on(codec(sc));
        } else {
            rt.block_on(life(sc));
        }
    });
}
