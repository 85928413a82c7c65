//! P15 shutdown and cancel notifications, P16 keyed read notifications, P17 channel wrappers, P18 task manager.
use crate::base::*;
use simcore::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use tn_types::{Notifier, ShutdownNotifier, TnReceiver, TnSender};
use tn_utils::NotifyRead;

const ASSUME: &[&str] = &["one thread runs at a time; preemption happens at libc calls, atomic waits and instrumented basic blocks of the crates under test"];
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
        std::thread::park();
    }
}
fn nap(ns: u64) {
    if ns > 0 {
        std::thread::sleep(Duration::from_nanos(ns));
    }
}
/// Yields to the executor n times.
struct Yield(u32);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn times(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => 0,
        1 => r.below(2_000) as i64,
        _ => r.below(6) as i64 * 1_000_000,
    }
}
// ---------------------------------------------------------------- P15
pub const NOTIFY: Check = Check {
    id: "P15",
    rule: "an evaluation is one seeded schedule of subscribers, waiters and notifiers on real threads or a real tokio runtime; non-trivial if an oracle comparison ran and there was a scheduling choice; distinct by schedule and event hash",
    real: &["tn-types notifier", "parking_lot, tokio runtime and timers, std threads (preempted at basic blocks)"],
    stub: &["kernel: threads, futexes, clock, epoll"],
    assumptions: ASSUME,
    gen: gen_notify,
    run: run_notify,
    runs: (40_000, 400_000),
    wall: (20, 600),
    stuck_is_violation: true,
    max_steps: 3_000_000,
};
fn gen_notify(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P15", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("tokio", r.below(3) as i64); // 0 threads, 1 multi thread runtime, 2 current thread
    sc.set("kinds", r.below(3) as i64);
    let many = if r.chance(1, 10) { 6 + r.below(30) } else { 0 };
    for _ in 0..1 + r.below(6) + many {
        // mode: 0 wait, 1 polled with one waker then another, 2 asked again and again, 3 dropped, 4 select loop with timeouts
        sc.ops.push(Op::new("sub", &[pick_kind(&sc, &mut r), times(&mut r), times(&mut r), r.below(5) as i64]));
    }
    for _ in 0..1 + r.below(3) {
        sc.ops.push(Op::new("notify", &[pick_kind(&sc, &mut r), times(&mut r), r.below(3) as i64]));
    }
    r.shuffle(&mut sc.ops);
    sc
}
fn pick_kind(sc: &Scenario, r: &mut Rng) -> i64 {
    match sc.p("kinds") {
        0 => 0,
        1 => 1,
        _ => r.below(2) as i64,
    }
}
#[derive(Default, Clone)]
struct Sub {
    kind: u64,
    start: u64,
    end: u64,
    resolved: Option<u64>,
    dropped: bool,
}
#[derive(Default)]
struct NH {
    clock: u64,
    subs: Vec<Sub>,
    /// (kind, start, end or MAX)
    notes: Vec<(u64, u64, u64)>,
}
impl NH {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}
async fn wait_async(n: tn_types::Noticer, mode: u64) {
    match mode {
        4 => {
            let mut n = n;
            loop {
                tokio::select! {
                    _ = &mut n => return,
                    _ = tokio::time::sleep(Duration::from_micros(700)) => {}
                }
            }
        }
        1 => {
            let mut n = Box::pin(n);
            let first = std::task::Waker::noop();
            if n.as_mut().poll(&mut Context::from_waker(first)).is_ready() {
                return;
            }
            n.await
        }
        2 => {
            while !n.noticed() {
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
            n.await
        }
        _ => {
            Yield(2).await;
            (&n).await
        }
    }
}
fn run_notify(sc: &Scenario) {
    let h = Shared::new(NH::default());
    let (n0, n1) = (Notifier::new(), ShutdownNotifier::new());
    let tk = sc.p("tokio");
    let (sc2, h2) = (sc.clone(), h.clone());
    let g = simrt::spawn_group("node", move || {
        let sub = {
            let (n0, n1, h) = (n0.clone(), n1.clone(), h2.clone());
            move |kind: u64| {
                let id = h.with(|h| {
                    let start = h.tick();
                    h.subs.push(Sub { kind, start, ..Default::default() });
                    h.subs.len() - 1
                });
                let n = if kind == 0 { n0.subscribe() } else { n1.subscribe() };
                h.with(|h| h.subs[id].end = h.tick());
                (id, n)
            }
        };
        let done = {
            let h = h2.clone();
            move |id: usize| {
                h.with(|h| {
                    let t = h.tick();
                    h.subs[id].resolved = Some(t);
                    simrt::event(3, id as u64);
                })
            }
        };
        let note = {
            let (n0, n1, h) = (n0.clone(), n1.clone(), h2.clone());
            move |kind: u64| {
                let i = h.with(|h| {
                    let t = h.tick();
                    h.notes.push((kind, t, u64::MAX));
                    simrt::event(4, kind);
                    h.notes.len() - 1
                });
                if kind == 0 {
                    n0.notify()
                } else {
                    n1.notify()
                }
                h.with(|h| h.notes[i].2 = h.tick());
            }
        };
        if tk == 0 {
            for o in sc2.ops.clone() {
                let (sub, done, note, h) = (sub.clone(), done.clone(), note.clone(), h2.clone());
                std::thread::spawn(move || {
                    nap(o.u(1));
                    if o.k == "notify" {
                        for _ in 0..1 + o.u(2) {
                            note(o.u(0));
                        }
                        return;
                    }
                    let (id, mut n) = sub(o.u(0));
                    nap(o.u(2));
                    match o.u(3) {
                        1 => {
                            let w = Waker::noop();
                            if Pin::new(&mut n).poll(&mut Context::from_waker(w)).is_pending() {
                                block_on(n);
                            }
                        }
                        2 => {
                            while !n.noticed() {
                                nap(50_000);
                            }
                            block_on(n);
                        }
                        3 => {
                            h.with(|h| h.subs[id].dropped = true);
                            drop(n);
                            return;
                        }
                        _ => block_on(&n),
                    }
                    done(id);
                });
            }
        } else {
            let rt = if tk == 1 {
                tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap()
            } else {
                tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
            };
            let f = async move {
                let mut js = vec![];
                for o in sc2.ops.clone() {
                    let (sub, done, note, h) = (sub.clone(), done.clone(), note.clone(), h2.clone());
                    js.push(tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_nanos(o.u(1))).await;
                        if o.k == "notify" {
                            for _ in 0..1 + o.u(2) {
                                note(o.u(0));
                            }
                            return;
                        }
                        let (id, n) = sub(o.u(0));
                        if o.u(2) > 0 {
                            tokio::time::sleep(Duration::from_nanos(o.u(2))).await;
                        }
                        if o.u(3) == 3 {
                            h.with(|h| h.subs[id].dropped = true);
                            return;
                        }
                        wait_async(n, o.u(3)).await;
                        done(id);
                    }));
                }
                for j in js {
                    let _ = j.await;
                }
            };
            rt.block_on(f);
            return;
        }
        std::thread::sleep(Duration::from_secs(3));
    });
    simrt::wait_group(g, 2_000_000_000);
    let p = simrt::sim().groups[g as usize].panics.clone();
    simrt::kill_group(g);
    if let Some(p) = p.first() {
        violate("panic", p.clone());
    }
    h.with(|h| {
        state(hash_str(&format!("{:?}", h.subs.iter().map(|s| (s.kind, s.start, s.end, s.resolved)).collect::<Vec<_>>())));
        for (i, n) in h.notes.iter().enumerate() {
            check!(n.2 != u64::MAX, "notify-blocks", "notification {i} never returned");
        }
        check!(h.notes.len() as u64 == sc.ops.iter().filter(|o| o.k == "notify").map(|o| 1 + o.u(2)).sum::<u64>(), "notify-blocks", "only {} notifications ran", h.notes.len());
        check!(h.subs.len() == sc.ops.iter().filter(|o| o.k == "sub").count(), "subscribe-blocks", "only {} subscriptions ran", h.subs.len());
        for (i, s) in h.subs.iter().enumerate() {
            check!(s.end > 0, "subscribe-blocks", "subscription {i} never returned");
            if s.dropped {
                continue;
            }
            match s.resolved {
                Some(t) => {
                    // something must have caused it
                    let cause = h.notes.iter().any(|n| n.0 == s.kind && n.1 < t && (s.kind == 1 || n.2 > s.start));
                    check!(cause, "spurious", "subscriber {i} (kind {}) resolved at {t} with no notification that could reach it: subscribed {}..{}, notifications {:?}", s.kind, s.start, s.end, h.notes);
                }
                None => {
                    let due = h.notes.iter().any(|n| n.0 == s.kind && (s.kind == 1 || n.1 > s.end));
                    check!(!due, "lost-wakeup", "subscriber {i} (kind {}) is never resolved although notified: subscribed {}..{}, notifications {:?}", s.kind, s.start, s.end, h.notes);
                }
            }
        }
    });
}
// ---------------------------------------------------------------- P16
pub const READS: Check = Check {
    id: "P16",
    rule: "an evaluation is one seeded schedule of registrations, cancellations and notifications; non-trivial if an oracle comparison ran and there was a scheduling choice; distinct by schedule and event hash",
    real: &["tn-utils notify_read", "tokio oneshot, runtime and timers, std threads"],
    stub: &["kernel: threads, futexes, clock, epoll"],
    assumptions: ASSUME,
    gen: gen_reads,
    run: run_reads,
    runs: (40_000, 400_000),
    wall: (20, 600),
    stuck_is_violation: true,
    max_steps: 3_000_000,
};
fn gen_reads(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P16", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("tokio", r.below(2) as i64);
    let keys = *r.pick(&[1u64, 2, 3, 400]);
    for _ in 0..1 + r.below(6) {
        // at, how many keys, first key, mode (0 wait, 1 give up after a time, 2 drop at once, 3 wait for part), time
        sc.ops.push(Op::new("read", &[times(&mut r), 1 + r.below(4) as i64, r.below(keys) as i64, r.below(4) as i64, times(&mut r), keys as i64]));
    }
    for _ in 0..1 + r.below(5) {
        sc.ops.push(Op::new("notify", &[times(&mut r), r.below(keys) as i64, 1 + r.below(3) as i64, keys as i64]));
    }
    r.shuffle(&mut sc.ops);
    sc
}
#[derive(Default, Clone)]
struct Reg {
    key: u64,
    start: u64,
    end: u64,
    got: Option<(u64, u64)>,
    gone: bool,
}
#[derive(Default)]
struct RH {
    clock: u64,
    regs: Vec<Reg>,
    /// key, start, end, value
    notes: Vec<(u64, u64, u64, u64)>,
    pending: usize,
    finished: bool,
}
impl RH {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}
fn run_reads(sc: &Scenario) {
    let h = Shared::new(RH::default());
    let (sc2, h2) = (sc.clone(), h.clone());
    let tk = sc.p("tokio") == 1;
    let g = simrt::spawn_group("node", move || {
        let nr: &'static NotifyRead<u64, u64> = Box::leak(Box::new(NotifyRead::new()));
        let notify = {
            let h = h2.clone();
            move |o: &Op| {
                for k in 0..o.u(2) {
                    let key = (o.u(1) + k) % o.u(3).max(1);
                    let (i, v) = h.with(|h| {
                        let t = h.tick();
                        h.notes.push((key, t, u64::MAX, t));
                        (h.notes.len() - 1, t)
                    });
                    nr.notify(&key, &v);
                    h.with(|h| h.notes[i].2 = h.tick());
                }
            }
        };
        let begin = {
            let h = h2.clone();
            move |o: &Op| {
                let n = o.u(1).max(1);
                let keys: Vec<u64> = (0..n).map(|k| (o.u(2) + k) % o.u(5).max(1)).collect();
                let first = h.with(|h| {
                    let start = h.tick();
                    let first = h.regs.len();
                    for k in &keys {
                        h.regs.push(Reg { key: *k, start, ..Default::default() });
                    }
                    first
                });
                let regs = if n == 1 { vec![nr.register_one(&keys[0])] } else { nr.register_all(keys.clone()) };
                h.with(|h| {
                    let t = h.tick();
                    for i in 0..keys.len() {
                        h.regs[first + i].end = t;
                    }
                });
                (first, regs)
            }
        };
        let got = {
            let h = h2.clone();
            move |i: usize, v: u64| {
                h.with(|h| {
                    let t = h.tick();
                    h.regs[i].got = Some((t, v));
                    simrt::event(5, v);
                })
            }
        };
        let gone = {
            let h = h2.clone();
            move |i: usize| h.with(|h| h.regs[i].gone = true)
        };
        if tk {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
            for o in sc2.ops.clone() {
                let (notify, begin, got, gone) = (notify.clone(), begin.clone(), got.clone(), gone.clone());
                rt.spawn(async move {
                    tokio::time::sleep(Duration::from_nanos(o.u(0))).await;
                    if o.k == "notify" {
                        notify(&o);
                        return;
                    }
                    let (first, regs) = begin(&o);
                    match o.u(3) {
                        0 => {
                            for (i, v) in futures::future::join_all(regs).await.into_iter().enumerate() {
                                got(first + i, v);
                            }
                        }
                        1 => {
                            for (i, r) in regs.into_iter().enumerate() {
                                gone(first + i);
                                if let Ok(v) = tokio::time::timeout(Duration::from_nanos(o.u(4)), r).await {
                                    got(first + i, v);
                                }
                            }
                        }
                        2 => {
                            for i in 0..regs.len() {
                                gone(first + i);
                            }
                            drop(regs);
                        }
                        _ => {
                            // the first one to come; the rest is dropped
                            for i in 0..regs.len() {
                                gone(first + i);
                            }
                            let f = futures::future::select_all(regs);
                            if let Ok((v, i, rest)) = tokio::time::timeout(Duration::from_nanos(o.u(4) + 1_000_000_000), f).await {
                                // select_all swaps the finished one out
                                let _ = (v, i);
                                drop(rest);
                            }
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_secs(3));
            h2.with(|h| {
                h.pending = nr.num_pending();
                h.finished = true
            });
            std::mem::forget(rt);
        } else {
            for o in sc2.ops.clone() {
                let (notify, begin, got, gone) = (notify.clone(), begin.clone(), got.clone(), gone.clone());
                std::thread::spawn(move || {
                    nap(o.u(0));
                    if o.k == "notify" {
                        notify(&o);
                        return;
                    }
                    let (first, regs) = begin(&o);
                    for (i, mut r) in regs.into_iter().enumerate() {
                        if o.u(3) == 2 || (o.u(3) == 3 && i > 0) {
                            gone(first + i);
                            nap(o.u(4));
                            drop(r);
                        } else if o.u(3) == 1 {
                            gone(first + i);
                            if let Poll::Ready(v) = Pin::new(&mut r).poll(&mut Context::from_waker(Waker::noop())) {
                                got(first + i, v);
                            } else {
                                nap(o.u(4));
                            }
                        } else {
                            let v = block_on(r);
                            got(first + i, v);
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_secs(3));
            h2.with(|h| {
                h.pending = nr.num_pending();
                h.finished = true
            });
        }
    });
    simrt::wait_group(g, 4_000_000_000);
    let p = simrt::sim().groups[g as usize].panics.clone();
    simrt::kill_group(g);
    if let Some(p) = p.first() {
        violate("panic", p.clone());
    }
    h.with(|h| {
        state(hash_str(&format!("{:?}", h.regs.iter().map(|s| (s.key, s.start, s.end, s.got, s.gone)).collect::<Vec<_>>())));
        check!(h.finished, "stuck", "the history did not finish");
        for (i, n) in h.notes.iter().enumerate() {
            check!(n.2 != u64::MAX, "notify-blocks", "notification {i} never returned");
        }
        for (i, s) in h.regs.iter().enumerate() {
            if s.end == 0 {
                violate("register-blocks", format!("registration {i} never returned"));
            }
            match s.got {
                Some((t, v)) => {
                    let Some(n) = h.notes.iter().find(|n| n.3 == v) else { violate("invented", format!("registration {i} got {v}, never published")) };
                    check!(n.0 == s.key, "wrong-key", "registration {i} of key {} got a value of key {}", s.key, n.0);
                    check!(n.1 < t && n.2 > s.start, "wrong-time", "registration {i} of {}..{} got the value published in {}..{}", s.start, s.end, n.1, n.2);
                    // of the notifications that began after it was registered, none may have ended before the one it got began
                    let skipped = h.notes.iter().any(|m| m.0 == s.key && m.1 > s.end && m.2 < n.1);
                    check!(!skipped, "skipped", "registration {i} missed an earlier notification");
                }
                None if !s.gone => {
                    let due = h.notes.iter().any(|m| m.0 == s.key && m.1 > s.end);
                    // a thread waits for its registrations in turn: only the first unresolved one counts there
                    let blocked_before = h.regs[..i].iter().any(|p| p.start == s.start && p.got.is_none() && !p.gone);
                    let all_due = h.regs.iter().filter(|p| p.start == s.start).all(|p| p.got.is_some() || h.notes.iter().any(|m| m.0 == p.key && m.1 > p.end));
                    if tk {
                        check!(!all_due, "lost-wakeup", "registration {i} of key {} is never resolved although every key of it was published later", s.key);
                    } else {
                        check!(blocked_before || !due, "lost-wakeup", "registration {i} of key {} is never resolved although its key was published later", s.key);
                    }
                }
                None => {}
            }
        }
        if !tk {
            // threads that wait hold exactly the registrations nobody notified
            let held = h.regs.iter().filter(|s| s.got.is_none() && !s.gone).filter(|s| !h.notes.iter().any(|m| m.0 == s.key && m.2 > s.start)).count();
            let maybe = h.regs.iter().filter(|s| s.got.is_none() && !s.gone).count();
            check!(h.pending >= held && h.pending <= maybe, "count", "{} registrations counted as pending, between {held} and {maybe} are", h.pending);
        } else {
            let maybe = h.regs.iter().filter(|s| s.got.is_none() && !s.gone).count();
            check!(h.pending <= maybe, "count", "{} registrations counted as pending, at most {maybe} are", h.pending);
        }
    });
}
// ---------------------------------------------------------------- P17
pub const CHANNELS: Check = Check {
    id: "P17",
    rule: "an evaluation is one seeded schedule of senders and receivers on the channel wrappers; non-trivial if an oracle comparison ran and there was a scheduling choice; distinct by schedule and event hash",
    real: &["tn-types sync (sender and receiver wrappers)", "tokio mpsc and broadcast, runtime and timers"],
    stub: &["kernel: threads, futexes, clock, epoll"],
    assumptions: ASSUME,
    gen: gen_chan,
    run: run_chan,
    runs: (40_000, 400_000),
    wall: (20, 600),
    stuck_is_violation: true,
    max_steps: 3_000_000,
};
fn gen_chan(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P17", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("broadcast", r.below(2) as i64);
    sc.set("cap", *r.pick(&[1i64, 2, 4, 16]));
    sc.set("workers", 1 + r.below(3) as i64);
    for _ in 0..1 + r.below(4) {
        // messages, pause, mode: 0 send, 1 try_send
        sc.ops.push(Op::new("tx", &[1 + r.below(20) as i64, times(&mut r), r.below(2) as i64]));
    }
    let nrx = if sc.p("broadcast") == 1 { 1 + r.below(3) } else { 1 };
    for _ in 0..nrx {
        // pause between receives, mode: 0 recv, 1 try_recv poll, 2 poll_recv (mpsc), 3 stop early, 4 recv raced with a timer
        sc.ops.push(Op::new("rx", &[times(&mut r), r.below(5) as i64, 1 + r.below(12) as i64]));
    }
    sc
}
#[derive(Default)]
struct CH {
    /// per sender: accepted sequence numbers
    sent: Vec<Vec<u64>>,
    refused: u64,
    /// per receiver
    got: Vec<Vec<(u64, u64)>>,
    lagged: u64,
    ended: Vec<bool>,
    stopped: Vec<bool>,
    finished: bool,
}
type Msg = (u64, u64);
async fn sender<T: TnSender<Msg>>(tx: T, id: u64, o: Op, h: Shared<CH>, broadcast: bool) {
    for k in 0..o.u(0) {
        if o.u(1) > 0 && k % 3 == 0 {
            tokio::time::sleep(Duration::from_nanos(o.u(1))).await;
        }
        let ok = if o.u(2) == 0 {
            match tx.send((id, k)).await {
                Ok(()) => true,
                Err(e) => {
                    check!(e.0 == (id, k), "refused-other", "a refused send handed back {:?}", e.0);
                    false
                }
            }
        } else {
            match tx.try_send((id, k)) {
                Ok(()) => true,
                Err(tn_types::TrySendError::Full(v)) => {
                    check!(v == (id, k) && !broadcast, "refused-other", "a full channel handed back {v:?}");
                    false
                }
                Err(tn_types::TrySendError::Closed(v)) => {
                    check!(v == (id, k), "refused-other", "a closed channel handed back {v:?}");
                    let alive = h.with(|h| h.stopped.iter().any(|s| !s));
                    check!(!alive, "closed-early", "the channel reports closed while its receiver lives");
                    false
                }
                Err(tn_types::TrySendError::Broadcast(v)) => violate("refused-other", format!("a broadcast refused {v:?}")),
            }
        };
        h.with(|h| if ok { h.sent[id as usize].push(k) } else { h.refused += 1 });
    }
}
async fn receiver<R: TnReceiver<Msg>>(mut rx: R, id: usize, o: Op, h: Shared<CH>, broadcast: bool) {
    let mut n = 0;
    loop {
        if o.u(0) > 0 {
            tokio::time::sleep(Duration::from_nanos(o.u(0))).await;
        }
        let v = match o.u(1) {
            1 => match rx.try_recv() {
                Ok(v) => Some(v),
                Err(tn_types::TryRecvError::Empty) => {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                    continue;
                }
                Err(tn_types::TryRecvError::Lagged) => {
                    check!(broadcast, "lagged", "a queue reports it lost messages");
                    h.with(|h| h.lagged += 1);
                    continue;
                }
                Err(tn_types::TryRecvError::Disconnected) => None,
            },
            2 if !broadcast => std::future::poll_fn(|cx| rx.poll_recv(cx)).await,
            4 => tokio::select! {
                v = rx.recv() => v,
                _ = tokio::time::sleep(Duration::from_micros(150)) => continue,
            },
            _ => rx.recv().await,
        };
        match v {
            Some(v) => {
                h.with(|h| h.got[id].push(v));
                simrt::event(6, v.0 * 1000 + v.1);
                n += 1;
                if o.u(1) == 3 && n >= o.u(2) {
                    h.with(|h| h.stopped[id] = true);
                    return;
                }
            }
            None => {
                h.with(|h| h.ended[id] = true);
                return;
            }
        }
    }
}
fn run_chan(sc: &Scenario) {
    let h = Shared::new(CH::default());
    let bc = sc.p("broadcast") == 1;
    let (sc2, h2) = (sc.clone(), h.clone());
    let txs: Vec<Op> = sc.ops.iter().filter(|o| o.k == "tx").cloned().collect();
    let rxs: Vec<Op> = sc.ops.iter().filter(|o| o.k == "rx").cloned().collect();
    if txs.is_empty() || rxs.is_empty() {
        return;
    }
    let nrx = if bc { rxs.len() } else { 1 };
    h.with(|h| {
        h.sent = vec![vec![]; txs.len()];
        h.got = vec![vec![]; nrx];
        h.ended = vec![false; nrx];
        h.stopped = vec![false; nrx];
    });
    let (t2, r2) = (txs.clone(), rxs.clone());
    let fin = process("node", 60_000_000_000, move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(sc2.p("workers").max(1) as usize).enable_time().build().unwrap();
        let h = h2.clone();
        rt.block_on(async move {
            let mut js = vec![];
            let cap = sc2.p("cap").max(1) as usize;
            if bc {
                let (tx, rx0) = tokio::sync::broadcast::channel::<Msg>(cap);
                for (i, o) in r2.iter().enumerate() {
                    js.push(tokio::spawn(receiver(tx.subscribe(), i, o.clone(), h2.clone(), true)));
                }
                drop(rx0);
                for (i, o) in t2.iter().enumerate() {
                    js.push(tokio::spawn(sender(tx.clone(), i as u64, o.clone(), h2.clone(), true)));
                }
            } else {
                let (tx, rx) = tokio::sync::mpsc::channel::<Msg>(cap);
                js.push(tokio::spawn(receiver(rx, 0, r2[0].clone(), h2.clone(), false)));
                for (i, o) in t2.iter().enumerate() {
                    js.push(tokio::spawn(sender(tx.clone(), i as u64, o.clone(), h2.clone(), false)));
                }
            }
            for j in js {
                j.await.unwrap();
            }
        });
        h.with(|h| h.finished = true);
    });
    let cap = (sc.p("cap").max(1) as u64).next_power_of_two();
    h.with(|h| {
        state(hash_str(&format!("{:?} {:?} {}", h.got, h.sent, h.refused)));
        if h.lagged > 0 {
            simrt::probe("lagged");
        }
        check!(fin && h.finished, "stuck", "the senders or receivers never finished: ended {:?}", h.ended);
        let total: u64 = h.sent.iter().map(|s| s.len() as u64).sum();
        for (i, g) in h.got.iter().enumerate() {
            let mut last: BTreeMap<u64, u64> = BTreeMap::new();
            for (s, k) in g {
                if let Some(l) = last.get(s) {
                    check!(k > l, "order", "receiver {i} got message {k} of sender {s} after {l}");
                }
                last.insert(*s, *k);
                check!(*k < txs[*s as usize].u(0), "invented", "message {k} of sender {s} was never sent");
            }
            if h.ended[i] {
                if !bc {
                    check!(g.len() as u64 == total, "lost", "{total} messages accepted, {} received before the end", g.len());
                } else {
                    // lag loses the oldest; the last `cap` must arrive
                    check!(g.len() as u64 >= total.min(cap), "lost", "receiver {i} got {} of {total} messages, capacity {cap}", g.len());
                }
            }
        }
    });
}
// ---------------------------------------------------------------- P18
pub const TASKS: Check = Check {
    id: "P18",
    rule: "an evaluation is one seeded schedule of tasks that end, fail, panic, ignore or honour shutdown under one task manager; non-trivial if an oracle comparison ran and there was a scheduling choice; distinct by schedule and event hash",
    real: &["tn-types task_manager, notifier", "tokio runtime and timers"],
    stub: &["kernel: threads, futexes, clock, epoll"],
    assumptions: ASSUME,
    gen: gen_tasks,
    run: run_tasks,
    runs: (40_000, 400_000),
    wall: (20, 600),
    stuck_is_violation: true,
    max_steps: 3_000_000,
};
fn gen_tasks(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P18", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("workers", r.below(3) as i64);
    sc.set("split", r.below(2) as i64);
    sc.set("wait_ms", *r.pick(&[20i64, 200, 2000]));
    sc.set("shutdown_ms", if r.chance(1, 2) { r.below(60) as i64 } else { 500 });
    sc.set("linger_ms", r.below(3) as i64 * 15);
    sc.set("many", if r.chance(1, 12) { 40 + r.below(200) as i64 } else { 0 });
    for _ in 0..1 + r.below(7) {
        let critical = r.chance(1, 3) as i64;
        // via (0 manager, 1 spawner, 2 spawner later), critical, end (0 never, 1 ok, 2 error, 3 panic), end ms, on shutdown (0 leaves at once, 1 ignores, 2 leaves late), spawn ms
        sc.ops.push(Op::new("task", &[r.below(3) as i64, critical, if critical == 1 && r.chance(1, 2) { 0 } else { r.below(4) as i64 }, r.below(60) as i64, r.below(3) as i64, r.below(80) as i64]));
    }
    sc
}
#[derive(Default, Clone)]
struct T {
    spawned: Option<u64>,
    /// last moment the task was seen running
    last: u64,
    ended: Option<u64>,
}
#[derive(Default)]
struct TH {
    t: Vec<T>,
    shutdown_at: Option<u64>,
    noticed: Option<u64>,
    result: Option<Result<(), String>>,
    returned: Option<u64>,
    dropped: Option<u64>,
    fin: bool,
}
fn now() -> u64 {
    simrt::now_ns()
}
fn run_tasks(sc: &Scenario) {
    let h = Shared::new(TH::default());
    h.with(|h| h.t = vec![T::default(); sc.ops.len()]);
    let (sc2, h2) = (sc.clone(), h.clone());
    let (fin, panics) = process_may_panic("node", 60_000_000_000, move || {
        let w = sc2.p("workers");
        let rt = if w == 0 {
            tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(w as usize).enable_time().build().unwrap()
        };
        rt.block_on(async {
            let mut tm = tn_types::TaskManager::new("sim");
            tm.set_join_wait(sc2.p("wait_ms") as u64);
            let shutdown = ShutdownNotifier::new();
            let body = {
                let (h, shutdown) = (h2.clone(), shutdown.clone());
                move |i: usize, o: Op| {
                    let h = h.clone();
                    let n = shutdown.subscribe();
                    async move {
                        h.with(|h| {
                            h.t[i].spawned.get_or_insert(now());
                        });
                        let t0 = now();
                        let mut noticed: Option<u64> = None;
                        loop {
                            h.with(|h| h.t[i].last = now());
                            if o.u(2) > 0 && now() >= t0 + o.u(3) * 1_000_000 {
                                break;
                            }
                            if n.noticed() && noticed.is_none() {
                                noticed = Some(now());
                            }
                            if let Some(t) = noticed {
                                if o.u(4) == 0 || (o.u(4) == 2 && now() > t + 30_000_000) {
                                    h.with(|h| h.t[i].ended = Some(now()));
                                    return Ok(());
                                }
                            }
                            tokio::time::sleep(Duration::from_millis(3)).await;
                        }
                        h.with(|h| h.t[i].ended = Some(now()));
                        simrt::event(9, i as u64);
                        match o.u(2) {
                            1 => Ok(()),
                            2 => Err(tn_types::TaskError::from_message(format!("task {i} fails"))),
                            _ => panic!("PLANNED {i}"),
                        }
                    }
                }
            };
            let spawner = tm.get_spawner();
            for i in 0..sc2.p("many") {
                let n = shutdown.subscribe();
                let idle = async move {
                    n.await;
                    Ok(())
                };
                if i % 2 == 0 {
                    tm.spawn_task(format!("idle-{i}"), idle);
                } else {
                    spawner.spawn_task(format!("idle-{i}"), idle);
                }
            }
            let mut late = vec![];
            for (i, o) in sc2.ops.iter().enumerate() {
                let name = format!("task-{i}-x");
                let (b, crit) = (body.clone(), o.u(1) == 1);
                match o.u(0) {
                    0 if crit => tm.spawn_critical_task(name, b(i, o.clone())),
                    0 => tm.spawn_task(name, b(i, o.clone())),
                    1 if crit => spawner.spawn_critical_task(name, b(i, o.clone())),
                    1 => spawner.spawn_task(name, b(i, o.clone())),
                    _ => {
                        let (s, o) = (spawner.clone(), o.clone());
                        late.push(tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(o.u(5))).await;
                            if crit {
                                s.spawn_critical_task(name, b(i, o.clone()))
                            } else {
                                s.spawn_task(name, b(i, o.clone()))
                            }
                        }));
                    }
                }
            }
            let (sd, h3, at) = (shutdown.clone(), h2.clone(), sc2.p("shutdown_ms") as u64);
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                h3.with(|h| h.shutdown_at = Some(now()));
                sd.notify();
            });
            let (watch, h3) = (shutdown.subscribe(), h2.clone());
            tokio::spawn(async move {
                watch.await;
                h3.with(|h| h.noticed = Some(now()));
            });
            let r = if sc2.p("split") == 1 {
                let r = tm.until_task_ends(shutdown.clone()).await;
                let early = shutdown.subscribe().noticed();
                check!(early, "no-shutdown", "the manager returned without telling the others to stop");
                tm.wait_for_task_shutdown().await;
                r
            } else {
                tm.join(shutdown.clone()).await
            };
            h2.with(|h| {
                h.result = Some(r.map_err(|e| e.to_string()));
                h.returned = Some(now());
            });
            tokio::time::sleep(Duration::from_millis(sc2.p("linger_ms") as u64)).await;
            drop(tm);
            h2.with(|h| h.dropped = Some(now()));
            // everything must wind down, tasks spawned from now on included
            tokio::time::sleep(Duration::from_millis(300)).await;
            h2.with(|h| h.fin = true);
        });
        std::mem::forget(rt);
    });
    for p in &panics {
        if !p.contains("PLANNED") {
            violate("panic", p.clone());
        }
    }
    let wait = sc.p("wait_ms") as u64 * 1_000_000;
    h.with(|h| {
        state(hash_str(&format!("{:?} {:?}", h.result, h.t.iter().map(|t| (t.spawned.is_some(), t.ended.is_some())).collect::<Vec<_>>())));
        check!(fin && h.fin, "stuck", "the task manager never returned (result {:?})", h.result);
        let (ret, dropped) = (h.returned.unwrap(), h.dropped.unwrap());
        // critical tasks that ended of themselves
        let crit: Vec<(usize, u64)> = sc.ops.iter().enumerate().filter(|(i, o)| o.u(1) == 1 && h.t[*i].ended.is_some()).map(|(i, _)| (i, h.t[i].ended.unwrap())).collect();
        let sd = h.shutdown_at.filter(|t| *t <= ret);
        match h.result.clone().unwrap() {
            Ok(()) => {
                check!(sd.is_some(), "false-ok", "the manager reports a normal end although nobody asked for shutdown; ended critical tasks {crit:?}");
            }
            Err(e) => {
                let Some((i, at)) = crit.iter().find(|(i, _)| e.contains(&format!("task-{i}-x"))).copied() else { violate("false-error", format!("the manager reports {e}, but the critical tasks that ended are {crit:?}")) };
                simrt::probe("critical_end");
                match sc.ops[i].u(2) {
                    2 => check!(e.contains(&format!("task {i} fails")), "error-lost", "the manager reports {e}, the task's own error is missing"),
                    1 => check!(e.ends_with(": OK"), "error-lost", "task {i} ended normally, reported as {e}"),
                    _ => {}
                }
                check!(sd.map(|s| at <= s + 1_000_000).unwrap_or(true), "false-error", "task {i} ended at {at} after shutdown at {sd:?}, reported as {e}");
            }
        }
        // how soon
        let first = crit.iter().map(|c| c.1).chain(sd).min();
        if let Some(f) = first {
            check!(ret <= f + wait + 50_000_000, "late", "the manager returned {} ms after the first reason to stop, waiting is limited to {} ms", (ret - f) / 1_000_000, wait / 1_000_000);
        }
        check!(h.noticed.map(|n| n <= ret + 20_000_000).unwrap_or(false), "no-shutdown", "shutdown was not announced");
        // tasks that leave on shutdown are waited for
        for (i, o) in sc.ops.iter().enumerate() {
            if h.t[i].spawned.map(|s| s + 5_000_000 < h.noticed.unwrap()).unwrap_or(false) && h.t[i].ended.is_none() && o.u(4) == 0 && o.u(0) == 0 {
                check!(h.t[i].last > ret || wait < 10_000_000, "not-waited", "task {i} obeys shutdown but never got to its end");
            }
            // (a task that was handed over only just before may not be known yet)
            let known = h.t[i].spawned.is_some_and(|s| s + 5_000_000 < h.noticed.unwrap());
            let needs = [Some(15_000_000), None, Some(60_000_000)][o.u(4) as usize];
            if known && needs.is_some_and(|n| n < wait) {
                check!(h.t[i].ended.is_some_and(|e| e <= ret), "not-waited", "task {i} obeys shutdown but the manager did not wait for it (ended {:?}, returned {ret})", h.t[i].ended);
            }
            // a task started after the end may take its first step before it notices
            let until = dropped.max(h.t[i].spawned.unwrap_or(0)) + 20_000_000;
            check!(h.t[i].last <= until, "orphan", "task {i} still runs {} ms after its manager is gone", (h.t[i].last.saturating_sub(dropped)) / 1_000_000);
        }
        // a task that is not critical never stops the manager
        if crit.is_empty() {
            check!(sd.is_some(), "stopped-early", "the manager stopped with no critical task ended and no shutdown");
        }
    });
}
