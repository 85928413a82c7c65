//! P25: the worker gateway, from its accept loop to its upstreams, over simulated connections.
use crate::base::*;
use crate::config::UpstreamWorker;
use crate::ratelimit::{run_gc, PrefixLen, PrefixPolicy, RateLimit, RateLimiters};
use crate::readiness::{run_poller, GatewayReadiness};
use crate::server::{serve, AppState, ServerLimits};
use bytes::Bytes;
use futures::{future::BoxFuture, stream::BoxStream, StreamExt};
use reqwest::{Answer, Ask, HeaderMap, Upstream};
use serde_json::{json, Value};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::num::{NonZeroU32, NonZeroUsize};
use std::sync::Arc;
use std::time::Duration;
use tn_types::Notifier;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

pub const CHECK: Check = Check {
    id: "P25",
    rule: "an evaluation is one seeded history of clients, upstream behaviour and shutdown against one gateway; non-trivial if an oracle comparison ran and a fault or choice occurred; distinct by schedule and event hash",
    real: &["worker-gateway server, proxy, readiness, ratelimit, error, telemetry, config", "axum, hyper, hyper-util, tower-http", "tn-types notifier", "tokio runtime and timers"],
    stub: &["TCP: in-memory connections with bounded buffers, resets and user timeouts", "reqwest: the calls the gateway makes, answered by scripted upstreams", "app.rs and cli.rs: wired by the harness", "kernel: threads, futexes, clock, epoll"],
    assumptions: &["reqwest keeps its documented time limits"],
    gen,
    run,
    runs: (40_000, 400_000),
    wall: (30, 600),
    stuck_is_violation: true,
    max_steps: 60_000_000,
};
const EPS: f64 = 0.08;
const TX: &str = "0xf86c098504a817c800825208943535353535353535353535353535353535353535880de0b6b3a76400008025a028ef61340bd939bc2195fe537567866003e1a15d3c71ff63e1590620aa636276a067cbe9d8997f761aecb703304b3800ccf555c9f3dc64214b297fb1966a3b6d83";

fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P25", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("workers", *r.pick(&[0i64, 0, 1, 2]));
    let nup = *r.pick(&[0i64, 1, 1, 2, 2, 3, 3, 3]);
    sc.set("nup", nup);
    sc.set("poll_ms", *r.pick(&[500i64, 1000, 5000]));
    sc.set("polltimeout_ms", *r.pick(&[300i64, 2000]));
    sc.set("connect_ms", *r.pick(&[500i64, 3000]));
    sc.set("request_ms", *r.pick(&[1000i64, 5000, 30000]));
    sc.set("header_ms", *r.pick(&[400i64, 2000, 10000]));
    sc.set("maxconn", *r.pick(&[1i64, 2, 3, 50, 50]));
    sc.set("usertimeout_ms", *r.pick(&[0i64, 3000, 20000]));
    sc.set("cap_ms", if r.chance(1, 3) { sc.p("request_ms") + sc.p("header_ms") + r.below(20_000) as i64 } else { 0 });
    sc.set("maxbody", *r.pick(&[300i64, 1000, 60_000]));
    if r.chance(1, 2) {
        sc.set("ipburst", *r.pick(&[1i64, 2, 5, 20]));
        sc.set("iprate", *r.pick(&[1i64, 1, 3, 10]));
    }
    if r.chance(1, 3) {
        sc.set("gburst", *r.pick(&[1i64, 3, 8, 30]));
        sc.set("grate", *r.pick(&[1i64, 2, 10]));
    }
    sc.set("v4", *r.pick(&[32i64, 32, 24, 0]));
    sc.set("v6", *r.pick(&[64i64, 64, 48, 128, 0]));
    sc.set("entries", *r.pick(&[1i64, 2, 1000, 1000, 1000]));
    sc.set("graceful_ms", *r.pick(&[0i64, 500, 5000, 40000]));
    let span = *r.pick(&[5_000u64, 20_000, 60_000, 150_000]);
    sc.set("stop_ms", (span / 2 + r.below(span)) as i64);
    sc.set("chunk", *r.pick(&[100_000i64, 100_000, 1000, 37]));
    let calm = r.chance(1, 2);
    for u in 0..nup {
        let mut at = 0;
        for _ in 0..1 + r.below(5) {
            let k = if calm { *r.pick(&[0i64, 0, 4, 8, 9, 10]) } else { r.below(11) as i64 };
            sc.ops.push(Op::new("rpc", &[u, at, k, *r.pick(&[1i64, 20, 300, 1500, 6000])]));
            at += r.below(span) as i64;
        }
        let mut at = 0;
        for _ in 0..1 + r.below(4) {
            let k = if calm || r.chance(1, 2) { *r.pick(&[0i64, 0, 0, 7, 8, 1]) } else { r.below(10) as i64 };
            sc.ops.push(Op::new("rd", &[u, at, k, *r.pick(&[1i64, 100, 250, 1900, 2500])]));
            at += r.below(span) as i64;
        }
    }
    for _ in 0..r.below(3) {
        sc.faults.push(Op::new("acceptfail", &[r.below(span) as i64, 1 + r.below(5) as i64]));
    }
    let busy = r.chance(1, 3);
    // around the sweep of idle buckets
    let around = if span > 50_000 && r.chance(1, 2) { 59_500 } else { 1000 };
    for c in 0..1 + r.below(10) as i64 {
        let at = if busy { around + r.below(700) } else { 20 + r.below(span) };
        let (kind, arg) = if r.chance(4, 5) { (0, 0) } else { (1 + r.below(3) as i64, *r.pick(&[20i64, 500, 4000])) };
        sc.ops.push(Op::new("conn", &[c, at as i64, r.below(8) as i64, kind, arg]));
        for _ in 0..1 + r.below(if busy { 12 } else { 5 }) {
            let gap = if busy { *r.pick(&[0i64, 0, 0, 30, 400]) } else { *r.pick(&[0i64, 0, 5, 100, 900, 3000]) };
            let k = if r.chance(1, 2) { *r.pick(&[0i64, 0, 2]) } else { r.below(17) as i64 };
            let size = *r.pick(&[0i64, 0, 50, 500, 5000, 59_000]);
            let trickle = if r.chance(1, 6) { *r.pick(&[1i64, 20, 300, 2000]) } else { 0 };
            sc.ops.push(Op::new("req", &[c, gap, k, size, trickle, r.below(2) as i64]));
        }
    }
    sc
}
fn ms(v: i64) -> Duration {
    Duration::from_millis(v.max(0) as u64)
}
fn now() -> f64 {
    (simrt::now_ns() - 1_000_000_000) as f64 / 1e9
}
fn ip_of(i: u64) -> IpAddr {
    match i {
        0 => Ipv4Addr::new(10, 0, 0, 1).into(),
        1 => Ipv4Addr::new(10, 0, 0, 2).into(),
        2 => Ipv4Addr::new(10, 0, 1, 1).into(),
        // the same client as 0, seen by a dual-stack listener
        3 => Ipv4Addr::new(10, 0, 0, 1).to_ipv6_mapped().into(),
        4 => Ipv6Addr::new(0x2001, 0xdb8, 0, 1, 0, 0, 0, 7).into(),
        5 => Ipv6Addr::new(0x2001, 0xdb8, 0, 1, 9, 9, 9, 9).into(),
        6 => Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 7).into(),
        _ => Ipv6Addr::new(0x2001, 0xdb8, 1, 2, 0, 0, 0, 7).into(),
    }
}
/// The network a client's address belongs to, bit by bit.
fn net_of(ip: IpAddr, v4: u32, v6: u32) -> Vec<bool> {
    let (bits, keep, fam): (Vec<u8>, u32, bool) = match ip {
        IpAddr::V4(a) => (a.octets().to_vec(), v4, false),
        IpAddr::V6(a) => match a.to_ipv4_mapped() {
            Some(m) => (m.octets().to_vec(), v4, false),
            None => (a.octets().to_vec(), v6, true),
        },
    };
    let mut k = vec![fam];
    k.extend((0..keep as usize).map(|i| bits[i / 8] >> (7 - i % 8) & 1 == 1));
    k
}
#[derive(Clone, Default, Debug)]
struct Resp {
    status: u16,
    ctype: String,
    body: Vec<u8>,
    complete: bool,
    at: f64,
    end: f64,
}
#[derive(Clone, Default, Debug)]
struct Req {
    conn: usize,
    kind: u64,
    method: &'static str,
    path: &'static str,
    body: Vec<u8>,
    id: Value,
    hop: bool,
    xff: &'static str,
    ctype: Option<String>,
    /// what it takes to get the head and the whole of it across
    head: Option<f64>,
    sent: Option<f64>,
    prev: f64,
    resp: Option<Resp>,
    /// why no response came, and when
    lost: Option<(String, f64)>,
}
#[derive(Clone, Default, Debug)]
struct Conn {
    ip: u64,
    kind: u64,
    tried: f64,
    refused: bool,
    accepted: Option<f64>,
    gone: Option<f64>,
    /// the client ended it
    left: Option<f64>,
    stuck: Option<f64>,
}
#[derive(Clone, Default, Debug)]
struct Attempt {
    up: usize,
    tag: Option<usize>,
    at: f64,
    /// refused, broke, head, none (given up)
    how: &'static str,
    end: f64,
    method: String,
    body: Vec<u8>,
    xff: String,
    proto: String,
    hop: String,
    ctype: String,
    status: u16,
    sent_ctype: String,
    reply: Vec<u8>,
    /// the whole reply was handed over, at
    full: Option<f64>,
}
#[derive(Default)]
struct H {
    reqs: Vec<Req>,
    conns: BTreeMap<usize, Conn>,
    know: Vec<Vec<(f64, bool)>>,
    polls: Vec<Vec<f64>>,
    attempts: Vec<Attempt>,
    served: Option<(f64, bool)>,
    poller_end: Option<f64>,
    done: bool,
    gauges: BTreeMap<String, f64>,
    counters: BTreeMap<String, u64>,
}
// ---------------------------------------------------------------- telemetry
struct Rec(Shared<H>);
struct Cell(Shared<H>, String);
fn name(k: &metrics::Key) -> String {
    let l: Vec<String> = k.labels().map(|l| format!("{}={}", l.key(), l.value())).collect();
    format!("{} {}", k.name(), l.join(","))
}
impl metrics::CounterFn for Cell {
    fn increment(&self, v: u64) {
        self.0.with(|h| *h.counters.entry(self.1.clone()).or_default() += v);
    }
    fn absolute(&self, v: u64) {
        self.0.with(|h| h.counters.insert(self.1.clone(), v));
    }
}
impl metrics::GaugeFn for Cell {
    fn increment(&self, v: f64) {
        self.0.with(|h| *h.gauges.entry(self.1.clone()).or_default() += v);
    }
    fn decrement(&self, v: f64) {
        self.0.with(|h| *h.gauges.entry(self.1.clone()).or_default() -= v);
    }
    fn set(&self, v: f64) {
        self.0.with(|h| h.gauges.insert(self.1.clone(), v));
    }
}
impl metrics::Recorder for Rec {
    fn describe_counter(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_gauge(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn describe_histogram(&self, _: metrics::KeyName, _: Option<metrics::Unit>, _: metrics::SharedString) {}
    fn register_counter(&self, k: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Counter {
        metrics::Counter::from_arc(Arc::new(Cell(self.0.clone(), name(k))))
    }
    fn register_gauge(&self, k: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Gauge {
        metrics::Gauge::from_arc(Arc::new(Cell(self.0.clone(), name(k))))
    }
    fn register_histogram(&self, _: &metrics::Key, _: &metrics::Metadata<'_>) -> metrics::Histogram {
        metrics::Histogram::noop()
    }
}
// ---------------------------------------------------------------- upstreams
struct Ups {
    h: Shared<H>,
    ops: Vec<Op>,
}
impl Ups {
    fn behaviour(&self, what: &str, u: usize) -> (i64, i64) {
        let t = now() * 1000.0;
        let o = self.ops.iter().filter(|o| o.k == what && o.u(0) as usize == u && o.arg(1) as f64 <= t).last();
        o.map(|o| (o.arg(2), o.arg(3))).unwrap_or((0, 0))
    }
}
/// What the gateway learns from one poll, once it has learnt it.
struct Poll(Shared<H>, usize, bool);
impl Drop for Poll {
    fn drop(&mut self) {
        self.0.with(|h| h.know[self.1].push((now(), self.2)));
    }
}
struct Try(Shared<H>, usize);
impl Drop for Try {
    fn drop(&mut self) {
        self.0.with(|h| {
            let a = &mut h.attempts[self.1];
            if a.how.is_empty() {
                a.how = "none";
                a.end = now();
            }
        });
    }
}
fn which(ask: &Ask) -> usize {
    (ask.url.port().unwrap() - 1000) as usize
}
fn is_poll(ask: &Ask) -> bool {
    ask.url.path().starts_with("/health")
}
fn head(a: &Ask, k: &str) -> String {
    let all: Vec<String> = a.headers.get_all(k).iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect();
    all.join(" & ")
}
fn chunks(v: Vec<(u64, Result<Bytes, ()>)>, fin: bool, guard: impl FnMut() + Send + 'static, keep: impl Send + 'static) -> BoxStream<'static, Result<Bytes, ()>> {
    let it = std::collections::VecDeque::from(v);
    futures::stream::unfold((it, fin, guard, keep), |(mut it, fin, mut guard, keep)| async move {
        match it.pop_front() {
            Some((d, c)) => {
                if d > 0 {
                    tokio::time::sleep(Duration::from_millis(d)).await;
                }
                Some((c, (it, fin, guard, keep)))
            }
            None if fin => {
                guard();
                None
            }
            None => std::future::pending().await,
        }
    })
    .boxed()
}
impl Upstream for Ups {
    fn connect(&self, ask: Arc<Ask>) -> BoxFuture<'static, Result<(), ()>> {
        let u = which(&ask);
        if is_poll(&ask) {
            self.h.with(|h| h.polls[u].push(now()));
            let (k, _) = self.behaviour("rd", u);
            let p = Poll(self.h.clone(), u, false);
            return Box::pin(async move {
                let _p = &p;
                match k {
                    2 => Err(()),
                    3 => std::future::pending().await,
                    _ => {
                        std::mem::forget(p);
                        Ok(())
                    }
                }
            });
        }
        let (k, _) = self.behaviour("rpc", u);
        let a = Attempt {
            up: u,
            at: now(),
            method: ask.method.to_string(),
            body: ask.body.to_vec(),
            xff: head(&ask, "x-forwarded-for"),
            proto: head(&ask, "x-forwarded-proto"),
            hop: head(&ask, "x-tn-gateway"),
            ctype: head(&ask, "content-type"),
            tag: head(&ask, "content-type").split("r=").nth(1).and_then(|t| t.parse().ok()),
            ..Default::default()
        };
        let n = self.h.with(|h| {
            h.attempts.push(a);
            h.attempts.len() - 1
        });
        let t = Try(self.h.clone(), n);
        Box::pin(async move {
            match k {
                1 => {
                    t.0.with(|h| {
                        h.attempts[n].how = "refused";
                        h.attempts[n].end = now();
                    });
                    Err(())
                }
                2 => std::future::pending().await,
                _ => {
                    std::mem::forget(t);
                    Ok(())
                }
            }
        })
    }
    fn serve(&self, ask: Arc<Ask>) -> BoxFuture<'static, Result<Answer, ()>> {
        let u = which(&ask);
        let h = self.h.clone();
        let mut headers = HeaderMap::new();
        if is_poll(&ask) {
            let (k, arg) = self.behaviour("rd", u);
            let mut p = Poll(h, u, false);
            return Box::pin(async move {
                if k == 7 {
                    tokio::time::sleep(ms(arg)).await;
                }
                let ok = json!({"version": 1, "workers": [{"worker_id": 77, "accepting_transactions": k == 6}, {"worker_id": u, "accepting_transactions": k != 1}]});
                let (body, yes) = match k {
                    1 => (ok.to_string(), false),
                    5 => ("{\"version\":1,\"work".to_string(), false),
                    6 => (json!({"version": 1, "workers": [{"worker_id": 77, "accepting_transactions": true}]}).to_string(), false),
                    8 => (json!({"version": 2, "more": [1], "workers": [{"worker_id": u, "accepting_transactions": true, "x": {}}]}).to_string(), true),
                    _ => (ok.to_string(), k != 4 && k != 9),
                };
                let status = if k == 4 { 503 } else { 200 };
                let half = body.len() / 2;
                let b = Bytes::from(body.into_bytes());
                let body = if k == 9 {
                    chunks(vec![(0, Ok(b.slice(..half))), (20, Err(()))], true, || (), p)
                } else {
                    p.2 = false;
                    let mut p = p;
                    // known when the last of it was read
                    chunks(vec![(0, Ok(b.slice(..half))), (0, Ok(b.slice(half..)))], true, move || { let p = &mut p; p.2 = yes; }, ())
                };
                Ok(Answer { status: status.try_into().unwrap(), headers, body })
            });
        }
        let tag = head(&ask, "content-type").split("r=").nth(1).and_then(|t| t.parse::<usize>().ok());
        let n = h.with(|h| h.attempts.iter().rposition(|a| a.up == u && a.tag == tag && a.body == ask.body && a.how.is_empty()).unwrap());
        let (k, arg) = self.behaviour("rpc", u);
        let t = Try(h.clone(), n);
        Box::pin(async move {
            match k {
                3 => std::future::pending().await,
                4 => tokio::time::sleep(ms(arg)).await,
                5 => {
                    tokio::time::sleep(ms(arg.min(300))).await;
                    t.0.with(|h| {
                        h.attempts[n].how = "broke";
                        h.attempts[n].end = now();
                    });
                    return Err(());
                }
                _ => (),
            }
            let status = if k == 10 { *[400u16, 500, 503, 429].get(arg as usize % 4).unwrap() } else { 200 };
            let len = if k == 9 { 150_000 } else { 20 + arg as usize % 500 };
            let mut body = format!("UP{u}.{n}.").into_bytes();
            body.extend((0..len).map(|i| (i % 26) as u8 + 97));
            let ctype = if k == 10 { "text/plain" } else { "application/json" };
            headers.insert("content-type", ctype.parse().unwrap());
            headers.insert("x-from-upstream", "1".parse().unwrap());
            h.with(|h| {
                let a = &mut h.attempts[n];
                a.how = "head";
                a.end = now();
                a.status = status;
                a.sent_ctype = ctype.into();
                a.reply = body.clone();
            });
            let b = Bytes::from(body);
            let half = b.len() / 2;
            let h2 = h.clone();
            let full = move || h2.with(|h| h.attempts[n].full = Some(now()));
            let body = match k {
                6 => chunks(vec![(0, Ok(b.slice(..half))), (50, Err(()))], true, || (), t),
                7 => chunks(vec![(0, Ok(b.slice(..half)))], false, || (), t),
                8 => chunks((0..4).map(|i| (arg as u64, Ok(b.slice(i * b.len() / 4..(i + 1) * b.len() / 4)))).collect(), true, full, t),
                _ => chunks(vec![(0, Ok(b.slice(..half))), (0, Ok(b.slice(half..)))], true, full, t),
            };
            Ok(Answer { status: status.try_into().unwrap(), headers, body })
        })
    }
}
// ---------------------------------------------------------------- clients
/// One response, or why there is none.
async fn read_resp(rd: &mut (impl AsyncReadExt + Unpin), buf: &mut Vec<u8>, slow: Option<(usize, u64)>, h: &Shared<H>, ri: usize) -> Result<Resp, String> {
    async fn more(rd: &mut (impl AsyncReadExt + Unpin), buf: &mut Vec<u8>, slow: Option<(usize, u64)>) -> Result<bool, String> {
        let mut b = [0u8; 8192];
        let n = slow.map(|s| s.0).unwrap_or(8192);
        if let Some((_, d)) = slow {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        let n = rd.read(&mut b[..n]).await.map_err(|e| format!("{:?}", e.kind()))?;
        buf.extend_from_slice(&b[..n]);
        Ok(n > 0)
    }
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
        if !more(rd, buf, slow).await? {
            return Err(if buf.is_empty() { "closed".into() } else { "closed in the head".into() });
        }
    };
    let text = String::from_utf8_lossy(&buf[..end]).to_ascii_lowercase();
    buf.drain(..end + 4);
    let mut r = Resp { at: now(), ..Default::default() };
    r.status = text.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|v| v.trim().to_string()));
    r.ctype = field("content-type:").unwrap_or_default();
    h.with(|h| h.reqs[ri].resp = Some(r.clone()));
    if let Some(n) = field("content-length:").and_then(|v| v.parse::<usize>().ok()) {
        while buf.len() < n && matches!(more(rd, buf, slow).await, Ok(true)) {}
        r.complete = buf.len() >= n;
        r.body = buf.drain(..n.min(buf.len())).collect();
    } else if field("transfer-encoding:").is_some_and(|v| v == "chunked") {
        loop {
            while let Some(p) = buf.windows(2).position(|w| w == b"\r\n") {
                let n = usize::from_str_radix(&String::from_utf8_lossy(&buf[..p]), 16).unwrap_or(usize::MAX / 2);
                if buf.len() < p + 2 + n + 2 {
                    break;
                }
                r.body.extend_from_slice(&buf[p + 2..p + 2 + n]);
                buf.drain(..p + 4 + n);
                if n == 0 {
                    r.complete = true;
                    break;
                }
            }
            if r.complete || !matches!(more(rd, buf, slow).await, Ok(true)) {
                break;
            }
        }
    } else {
        r.ctype += " (no length)";
    }
    r.end = now();
    h.with(|h| h.reqs[ri].resp = Some(r.clone()));
    Ok(r)
}
fn build(o: &Op, tag: usize, max: usize) -> Req {
    let kind = o.u(2);
    let size = (o.u(3) as usize).min(max.saturating_sub(260));
    let pad = "p".repeat(size);
    let mut q = Req { kind, method: "POST", path: "/", conn: o.u(0) as usize, ..Default::default() };
    q.ctype = Some(format!("application/json; r={tag}"));
    let id = if tag % 3 == 0 { json!(format!("id-{tag}")) } else { json!(tag) };
    let call = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p, "id": id}).to_string().into_bytes();
    q.id = id.clone();
    match kind {
        1 => {
            q.body = json!([{"jsonrpc": "2.0", "method": "eth_chainId", "id": tag, "pad": pad}]).to_string().into_bytes();
            q.id = Value::Null;
        }
        2 => q.body = call("eth_sendRawTransaction", json!([TX])),
        3 => q.body = call("eth_sendRawTransaction", json!([if tag % 2 == 0 { "0xdeadbeef" } else { "0xzz" }])),
        4 => q.body = call("eth_sendRawTransaction", json!({"raw": pad})),
        5 | 6 => {
            q.method = "GET";
            q.path = if kind == 5 { "/health" } else { "/ready" };
            q.id = Value::Null;
        }
        7 => q.body = call("eth_call", json!(["x".repeat(max)])),
        9 => {
            q.hop = true;
            q.body = call("eth_chainId", json!([pad]));
        }
        13 => {
            q.method = "GET";
            q.path = "/some/where?x=1";
            q.id = Value::Null;
        }
        15 => {
            q.body = format!("not json {pad}").into_bytes();
            q.id = Value::Null;
        }
        16 => {
            q.xff = "192.0.2.7, 198.51.100.3";
            q.body = call("eth_getLogs", json!([pad]));
        }
        _ => q.body = call("eth_call", json!([pad])),
    }
    if kind == 14 {
        q.ctype = None;
    }
    q
}
async fn client(h: Shared<H>, sc: Scenario, c: Op) {
    let ci = c.u(0) as usize;
    let (kind, arg) = (c.u(3), c.u(4));
    tokio::time::sleep(ms(c.arg(1))).await;
    let peer = SocketAddr::new(ip_of(c.u(2)), 4000 + ci as u16);
    h.with(|h| {
        h.conns.insert(ci, Conn { ip: c.u(2), kind, tried: now(), ..Default::default() });
    });
    let Some(s) = tokio::net::connect(ci, peer, 16_384, sc.p("chunk").max(1) as usize) else {
        h.with(|h| h.conns.get_mut(&ci).unwrap().refused = true);
        return;
    };
    let leave = |s: &str| {
        h.with(|h| {
            h.conns.get_mut(&ci).unwrap().left.get_or_insert(now());
        });
        simrt::event(3, hash_str(s));
    };
    let (mut rd, mut wr) = tokio::io::split(s);
    let mut buf = vec![];
    let mut prev = 0.0;
    for o in sc.ops.iter().filter(|o| o.k == "req" && o.u(0) as usize == ci) {
        tokio::time::sleep(ms(o.arg(1))).await;
        let (trickle, chunked) = (o.u(4), o.u(5) == 1 || o.u(2) == 8);
        let ri = h.with(|h| {
            let mut q = build(o, h.reqs.len(), sc.p("maxbody").max(1) as usize);
            if q.kind == 8 {
                q.body = vec![b'z'; sc.p("maxbody") as usize + 1 + o.u(3) as usize % 500];
                q.id = Value::Null;
            }
            q.prev = prev;
            h.reqs.push(q);
            h.reqs.len() - 1
        });
        let q = h.with(|h| h.reqs[ri].clone());
        let mut head = format!("{} {} HTTP/1.1\r\nhost: gw\r\n", q.method, q.path);
        if let Some(t) = &q.ctype {
            head += &format!("content-type: {t}\r\n");
        }
        if q.hop {
            head += "x-tn-gateway: 1\r\n";
        }
        if !q.xff.is_empty() {
            head += &format!("x-forwarded-for: {}\r\n", q.xff);
        }
        if q.method == "POST" {
            head += &if chunked { "transfer-encoding: chunked\r\n".into() } else { format!("content-length: {}\r\n", q.body.len()) };
        }
        head += "\r\n";
        if q.kind == 12 {
            head = "NONSENSE\r\n\r\n".into();
        }
        // headers that never end
        let stall = q.kind == 11;
        let abort = q.kind == 10;
        let h2 = h.clone();
        let w = async {
            let r: std::io::Result<()> = async {
                if stall {
                    wr.write_all(&head.as_bytes()[..head.len() / 2]).await?;
                    return std::future::pending().await;
                }
                if trickle >= 300 && q.kind != 14 {
                    let (a, b) = head.as_bytes().split_at(head.len() / 3);
                    wr.write_all(a).await?;
                    tokio::time::sleep(Duration::from_millis(trickle.min(300))).await;
                    wr.write_all(b).await?;
                } else {
                    wr.write_all(head.as_bytes()).await?;
                }
                h2.with(|h| h.reqs[ri].head = Some(now()));
                let body = if abort { &q.body[..q.body.len() / 2] } else { &q.body[..] };
                let parts = if trickle > 0 || q.kind == 14 { 5 } else { 1 };
                let step = (body.len() / parts).max(1);
                for part in body.chunks(step) {
                    if parts > 1 {
                        tokio::time::sleep(Duration::from_millis(if q.kind == 14 { 100 + trickle * 4 } else { trickle })).await;
                    }
                    if chunked {
                        wr.write_all(format!("{:x}\r\n", part.len()).as_bytes()).await?;
                    }
                    wr.write_all(part).await?;
                    if chunked {
                        wr.write_all(b"\r\n").await?;
                    }
                }
                if abort {
                    return Err(std::io::ErrorKind::Other.into());
                }
                if q.method == "POST" && chunked {
                    wr.write_all(b"0\r\n\r\n").await?;
                }
                h2.with(|h| h.reqs[ri].sent = Some(now()));
                Ok(())
            }
            .await;
            if r.is_ok() || !abort {
                // the response tells
                std::future::pending::<()>().await;
            }
        };
        let slow = match kind {
            1 => Some((700usize, arg.min(500))),
            2 => Some((1, u64::MAX / 2_000_000)),
            _ => None,
        };
        let r = tokio::select! {
            r = read_resp(&mut rd, &mut buf, slow, &h, ri) => r,
            _ = w => { leave("abort"); return; }
            _ = tokio::time::sleep(Duration::from_secs(400)) => Err("silence".into()),
            // a client that goes away while it waits
            _ = tokio::time::sleep(Duration::from_millis(if kind == 3 { arg } else { u64::MAX / 2_000_000 })) => { leave("gone"); return; }
        };
        match r {
            Ok(r) => {
                prev = now();
                simrt::event(1, r.status as u64);
                let whole = h.with(|h| h.reqs[ri].sent.is_some());
                if !whole || !r.complete {
                    leave("half");
                    return;
                }
            }
            Err(e) => {
                simrt::event(2, hash_str(&e));
                h.with(|h| h.reqs[ri].lost = Some((e, now())));
                leave("lost");
                return;
            }
        }
    }
    leave("end");
}
fn nz(v: i64) -> NonZeroU32 {
    NonZeroU32::new(v.max(1) as u32).unwrap()
}
fn run(sc: &Scenario) {
    let h = Shared::new(H::default());
    let nup = sc.p("nup").max(0) as usize;
    h.with(|h| {
        h.know = vec![vec![]; nup];
        h.polls = vec![vec![]; nup];
    });
    let (h2, sc2) = (h.clone(), sc.clone());
    let end = sc.p("stop_ms") + sc.p("graceful_ms") + 10_000;
    let fin = process("gateway", (end as u64 + 5_000) * 1_000_000, move || {
        let _ = metrics::set_global_recorder(Rec(h2.clone()));
        reqwest::set_upstream(Arc::new(Ups { h: h2.clone(), ops: sc2.ops.clone() }));
        let h3 = h2.clone();
        tokio::net::world(|w| {
            w.observer = Some(Arc::new(move |id, open| {
                h3.with(|h| {
                    let c = h.conns.get_mut(&id).unwrap();
                    *(if open { &mut c.accepted } else { &mut c.gone }) = Some(now());
                })
            }))
        });
        let w = sc2.p("workers");
        let rt = if w == 0 {
            tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(w as usize).enable_time().build().unwrap()
        };
        rt.block_on(gateway(h2.clone(), sc2));
        rt.shutdown_background();
    });
    h.with(|h| judge(sc, h, fin));
}
async fn gateway(h: Shared<H>, sc: Scenario) {
    let ups: Vec<UpstreamWorker> = (0..sc.p("nup").max(0))
        .map(|u| UpstreamWorker {
            worker_id: u as u16,
            rpc_url: format!("http://up:{}/", 1000 + u).parse().unwrap(),
            readiness_url: format!("http://up:{}/health/workers", 1000 + u).parse().unwrap(),
        })
        .collect();
    let readiness = Arc::new(GatewayReadiness::new(&ups));
    let limit = |b: &str, r: &str| (sc.p(b) > 0).then(|| RateLimit::new(nz(sc.p(r)), nz(sc.p(b))));
    let prefix = PrefixPolicy::new(PrefixLen::v4(sc.p("v4") as u8).unwrap(), PrefixLen::v6(sc.p("v6") as u8).unwrap());
    let limiters = RateLimiters::new(limit("ipburst", "iprate"), limit("gburst", "grate"), sc.p("entries").max(1) as usize, prefix);
    let proxy = reqwest::Client::builder().connect_timeout(ms(sc.p("connect_ms"))).timeout(ms(sc.p("request_ms"))).build().unwrap();
    let polls = reqwest::Client::builder().connect_timeout(ms(sc.p("connect_ms"))).build().unwrap();
    let stop = Notifier::new();
    let h2 = h.clone();
    let poller = run_poller(readiness.clone(), polls, ms(sc.p("poll_ms").max(1)), ms(sc.p("polltimeout_ms")), stop.subscribe());
    tokio::spawn(async move {
        let _ = poller.await;
        h2.with(|h| h.poller_end = Some(now()));
    });
    if let Some(l) = &limiters {
        tokio::spawn(run_gc(l.clone(), stop.subscribe()));
    }
    let limits = ServerLimits {
        header_read_timeout: ms(sc.p("header_ms")),
        request_deadline: ms(sc.p("request_ms") + sc.p("header_ms")),
        max_connections: NonZeroUsize::new(sc.p("maxconn").max(1) as usize).unwrap(),
        tcp_user_timeout: (sc.p("usertimeout_ms") > 0).then(|| ms(sc.p("usertimeout_ms"))),
        max_connection_duration: (sc.p("cap_ms") > 0).then(|| ms(sc.p("cap_ms"))),
        max_request_bytes: sc.p("maxbody").max(1) as usize,
    };
    let state = AppState { readiness, http: proxy };
    let server = serve("127.0.0.1:8545".parse().unwrap(), state, limits, limiters, ms(sc.p("graceful_ms")), stop.subscribe());
    let h2 = h.clone();
    let server = tokio::spawn(async move {
        let r = server.await;
        h2.with(|h| h.served = Some((now(), r.is_ok())));
    });
    for c in sc.ops.iter().filter(|o| o.k == "conn") {
        tokio::spawn(client(h.clone(), sc.clone(), c.clone()));
    }
    for f in sc.faults.iter().filter(|o| o.k == "acceptfail") {
        let f = f.clone();
        tokio::spawn(async move {
            tokio::time::sleep(ms(f.arg(0))).await;
            simrt::fault("accept-error");
            tokio::net::world(|w| w.accept_errors = f.u(1));
        });
    }
    tokio::time::sleep(ms(sc.p("stop_ms"))).await;
    stop.notify();
    let _ = tokio::time::timeout(ms(sc.p("graceful_ms") + 5_000), server).await;
    tokio::time::sleep(ms(10)).await;
    h.with(|h| h.done = true);
}
include!("judge.rs");
