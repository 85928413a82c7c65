//! P27: retried operations.
use crate::base::*;
use simcore::*;
use std::time::Duration;
use tn_config::RetryConfig;
use tokio::time::Instant;

pub const CHECK: Check = Check {
    id: "P27",
    rule: "an evaluation is one seeded set of operations retried side by side, each with its own configuration and script of outcomes and durations, on a clock that stalls; judged at every attempt and at the end; non-trivial if an oracle comparison ran and there was a fault or choice; distinct by schedule and event hash",
    real: &["tn-config RetryConfig", "backoff", "tokio runtime and timers"],
    stub: &["kernel: threads, clock, epoll"],
    assumptions: &["intervals of at least a millisecond", "the runtime polls a timer within 3 ms of its time unless the process is stalled"],
    gen,
    run,
    runs: (20_000, 400_000),
    wall: (12, 400),
    stuck_is_violation: true,
    max_steps: 20_000_000,
};
const MS: f64 = 1e6;
fn gen(seed: u64, _i: u64) -> Scenario {
    let mut sc = Scenario::new("P27", seed);
    let mut r = Rng::new(simrt::mix(seed, "gen"));
    sc.set("mt", r.chance(1, 3) as i64);
    let stalls = r.chance(1, 3);
    for _ in 0..1 + r.below(4) {
        // initial ms, cap ms, multiplier %, spread %, total ms (-1: none, -2: the defaults)
        let total = *r.pick(&[-2i64, -1, 0, 1, 50, 1_000, 10_000, 30_000, 30_000, 120_000]);
        let init = *r.pick(&[1i64, 5, 50, 500, 500, 3_000]);
        sc.ops.push(Op::new("op", &[init, *r.pick(&[init, init + 1, 2 * init, 15_000.max(init)]), *r.pick(&[100i64, 110, 150, 200, 700]), *r.pick(&[0i64, 30, 30, 50, 100]), total, r.below(40) as i64]));
        // what the attempts do: outcome (0 transient, 1 success, 2 permanent), ms it takes, asked delay ms
        let n = *r.pick(&[0u64, 1, 2, 5, 12, 40]);
        for _ in 0..n {
            sc.ops.push(Op::new("try", &[0, *r.pick(&[0i64, 0, 0, 1, 20, 400, 9_000]), if r.chance(1, 12) { r.below(2_000) as i64 } else { -1 }]));
        }
        sc.ops.push(Op::new("try", &[*r.pick(&[0i64, 1, 1, 2]), *r.pick(&[0i64, 0, 30]), -1]));
        if stalls {
            sc.ops.push(Op::new("stall", &[r.below(20_000) as i64, *r.pick(&[1i64, 30, 2_000])]));
        }
    }
    sc
}
/// One retried operation, as the harness has seen it.
#[derive(Default)]
struct Seen {
    n: usize,
    /// when the last attempt ended, and what it said
    ended: f64,
    asked: Option<f64>,
    /// how many waits were of the configuration's choosing
    waits: u32,
}
fn stalls_in(st: &[(f64, f64)], from: f64, to: f64) -> f64 {
    st.iter().filter(|(a, d)| *a < to && a + d > from).map(|(_, d)| d).sum()
}
async fn one(o: Op, script: Vec<Op>, stalls: Shared<Vec<(f64, f64)>>) {
    let d = Duration::from_millis;
    let c = match o.arg(4) {
        -2 => RetryConfig::default(),
        t => RetryConfig {
            initial_retry_interval: d(o.u(0)),
            max_retry_interval: d(o.u(1)),
            retry_delay_multiplier: o.u(2) as f64 / 100.0,
            retry_delay_rand_factor: o.u(3) as f64 / 100.0,
            retrying_max_elapsed_time: (t >= 0).then(|| d(t as u64)),
        },
    };
    let (init, cap, mul, spread) = match o.arg(4) {
        -2 => (500.0, 15_000.0, 1.5, 0.3),
        _ => (o.u(0) as f64, o.u(1) as f64, o.u(2) as f64 / 100.0, o.u(3) as f64 / 100.0),
    };
    let total = match o.arg(4) {
        -2 => Some(30_000.0),
        t => (t >= 0).then_some(t as f64),
    };
    tokio::time::sleep(d(o.u(5))).await;
    let nominal = |k: u32| (0..k).fold(init, |v, _| (v * mul).min(cap)).min(if k > 0 { cap } else { init });
    let t0 = Instant::now();
    let at = move || t0.elapsed().as_nanos() as f64 / MS;
    let base = simrt::now_ns() as f64 / MS;
    let seen = Shared::new(Seen::default());
    let (s2, st) = (seen.clone(), stalls.clone());
    // an attempt must not begin late by more than the runtime's own slowness
    let slack = move |from: f64, to: f64| 3.0 + st.with(|s| stalls_in(s, base + from, base + to));
    let sl = slack.clone();
    let script2 = script.clone();
    let res = c
        .retry(move || {
            let (seen, slack, script) = (s2.clone(), sl.clone(), script2.clone());
            async move {
                let now = at();
                let n = seen.with(|s| s.n);
                if n > 0 {
                    let (ended, asked, waits) = seen.with(|s| (s.ended, s.asked, s.waits));
                    let waited = now - ended;
                    let (lo, hi) = match asked {
                        Some(a) => (a, a),
                        None => (nominal(waits) * (1.0 - spread), nominal(waits) * (1.0 + spread)),
                    };
                    check!(waited >= lo - 1e-3 && waited <= hi + slack(ended, now), "interval",
                        "attempt {n} began {waited:.3} ms after the last one failed; the interval is {lo:.3} to {hi:.3} ms");
                    if let (Some(t), None) = (total, asked) {
                        check!(now <= t + slack(0.0, now), "too_late", "attempt {n} began at {now:.3} ms; retrying ends after {t} ms");
                    }
                    if asked.is_none() {
                        seen.with(|s| s.waits += 1);
                    }
                } else {
                    check!(now <= slack(0.0, now), "first", "the first attempt began only after {now:.3} ms");
                }
                let Some(t) = script.get(n.min(script.len() - 1)) else { unreachable!() };
                seen.with(|s| s.n += 1);
                simrt::event(1, n as u64);
                if t.arg(1) > 0 {
                    tokio::time::sleep(d(t.u(1))).await;
                }
                seen.with(|s| {
                    s.ended = at();
                    s.asked = (t.arg(2) >= 0).then(|| t.arg(2) as f64);
                });
                let last = n + 1 >= script.len() && n >= 60;
                match t.arg(0) {
                    _ if last => Err(backoff::Error::permanent(n as i64)),
                    0 if t.arg(2) >= 0 => Err(backoff::Error::retry_after(n as i64, d(t.u(2)))),
                    0 => Err(backoff::Error::transient(n as i64)),
                    1 => Ok(n as i64),
                    _ => Err(backoff::Error::permanent(n as i64)),
                }
            }
        })
        .await;
    let now = at();
    let (n, ended, asked, waits) = seen.with(|s| (s.n, s.ended, s.asked, s.waits));
    simrt::event(2, n as u64);
    state(simrt::mix(n as u64, if res.is_ok() { "ok" } else { "err" }));
    check!(n > 0, "never_tried", "the operation was never tried");
    check!(now - ended <= slack(ended, now), "late_answer", "the answer came {:.3} ms after the attempt that decided it", now - ended);
    let t = &script[(n - 1).min(script.len() - 1)];
    let said = match res {
        Ok(v) => (true, v),
        Err(v) => (false, v),
    };
    check!(said.1 == n as i64 - 1, "other_answer", "attempt {} was the last, the answer is that of attempt {}", n - 1, said.1);
    let capped = n >= script.len() && n > 60;
    match t.arg(0) {
        1 if !capped => check!(said.0, "success_lost", "attempt {} succeeded, and the caller got an error", n - 1),
        2 => check!(!said.0, "error_lost", "attempt {} failed for good, and the caller got a success", n - 1),
        _ if capped => {}
        _ => {
            check!(!said.0, "error_lost", "attempt {} failed, and the caller got a success", n - 1);
            // it gave up: only the time limit allows that
            let Some(limit) = total else { violate("gave_up", format!("gave up after {n} attempts, with no time limit")) };
            check!(asked.is_none(), "gave_up", "gave up after attempt {}, which asked for a retry", n - 1);
            let next = ended + nominal(waits) * (1.0 + spread);
            check!(next >= limit - 3.0 - slack(0.0, now), "gave_up",
                "gave up after {n} attempts at {now:.3} ms; the next attempt was due at {next:.3} ms at the latest, the limit is {limit} ms");
        }
    }
    // transient ones must have been followed by another attempt
    for (i, t) in script.iter().take(n - 1).enumerate() {
        check!(t.arg(0) == 0, "went_on", "attempt {i} ended with {}, and another followed", t.arg(0));
    }
}
fn run(sc: &Scenario) {
    let stalls: Shared<Vec<(f64, f64)>> = Shared::new(vec![]);
    let sc = sc.clone();
    let mt = sc.p("mt") == 1;
    process("life", u64::MAX >> 8, move || {
        let rt = if mt { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build() } else { tokio::runtime::Builder::new_current_thread().enable_all().build() };
        rt.unwrap().block_on(async {
            let mut js = vec![];
            for (k, o) in sc.ops.iter().enumerate() {
                let st = stalls.clone();
                match o.k.as_str() {
                    "op" => {
                        let script: Vec<Op> = sc.ops[k + 1..].iter().take_while(|t| t.k == "try").cloned().collect();
                        if !script.is_empty() {
                            js.push(tokio::spawn(one(o.clone(), script, st)));
                        }
                    }
                    "stall" => {
                        let (at, len) = (o.u(0), o.u(1));
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(at)).await;
                            simrt::fault("stall");
                            let len = len as f64;
                            st.with(|s| s.push((simrt::now_ns() as f64 / MS, len)));
                            // the whole process stands still
                            simrt::sim().now += (len * MS) as u64;
                        });
                    }
                    _ => {}
                }
            }
            for j in js {
                j.await.unwrap();
            }
        });
    });
}
