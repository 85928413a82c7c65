//! Self-tests of the simulator.
use simcore::*;
use std::sync::{Arc, Condvar, Mutex};
const BASE: Check = Check { id: "", rule: "", real: &[], stub: &[], assumptions: &[], gen: g, run: threads, runs: (64, 256), wall: (60, 60), stuck_is_violation: true, max_steps: 2_000_000 };
fn g(seed: u64, _i: u64) -> Scenario {
    Scenario::new("smoke", seed)
}
pub const THREADS: Check = Check { id: "S01", run: threads, ..BASE };
pub const TOKIO: Check = Check { id: "S02", run: tok, ..BASE };
pub const TOKIO_MT: Check = Check { id: "S03", run: tok_mt, ..BASE };
pub const REDB: Check = Check { id: "S04", run: redb_, ..BASE };
fn threads(_sc: &Scenario) {
    let m = Arc::new((Mutex::new(0u64), Condvar::new()));
    let mut hs = vec![];
    for i in 0..4 {
        let m = m.clone();
        hs.push(std::thread::spawn(move || {
            for k in 0..20 {
                let mut g = m.0.lock().unwrap();
                *g += 1;
                m.1.notify_all();
                drop(g);
                if k % 5 == 0 {
                    std::thread::sleep(std::time::Duration::from_millis(i));
                }
                std::thread::yield_now();
            }
        }));
    }
    let mut g = m.0.lock().unwrap();
    while *g < 80 {
        g = m.1.wait(g).unwrap();
    }
    drop(g);
    for h in hs {
        h.join().unwrap();
    }
    check!(true, "x", "");
    simrt::note(|| format!("done at {:?}", std::time::Instant::now()));
}
async fn work() {
    let (tx, mut rx) = tokio::sync::mpsc::channel(4);
    let mut js = vec![];
    for i in 0..4u64 {
        let tx = tx.clone();
        js.push(tokio::spawn(async move {
            for k in 0..10u64 {
                tokio::time::sleep(std::time::Duration::from_millis(i * 7 + k)).await;
                tx.send((i, k)).await.unwrap();
            }
        }));
    }
    drop(tx);
    let mut n = 0;
    while let Some((i, k)) = rx.recv().await {
        simrt::event(i, k);
        simrt::note(|| format!("got {i} {k}"));
        n += 1;
    }
    for j in js {
        j.await.unwrap();
    }
    let x = tokio::task::spawn_blocking(|| {
        std::thread::sleep(std::time::Duration::from_secs(3600));
        7
    })
    .await
    .unwrap();
    check!(n == 40 && x == 7, "bad", "n={n}");
}
fn tok(_sc: &Scenario) {
    let g = simrt::spawn_group("node", || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(work());
    });
    check!(simrt::wait_group(g, 1 << 50), "notdone", "group not done");
}
fn tok_mt(_sc: &Scenario) {
    let g = simrt::spawn_group("node", || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
        rt.block_on(work());
    });
    check!(simrt::wait_group(g, 1 << 50), "notdone", "group not done");
}
const T: redb::TableDefinition<u64, u64> = redb::TableDefinition::new("t");
fn redb_(sc: &Scenario) {
    use redb::ReadableDatabase;
    simrt::sim().disk.mkvol("a");
    let mut r = Rng::new(sc.seed);
    let g = simrt::spawn_group("init", || drop(redb::Database::create("/sim/a/db.redb").unwrap()));
    simrt::wait_group(g, 1 << 50);
    simrt::sim().disk.sync_all("a");
    for inc in 0..3u64 {
        let done = Arc::new(Mutex::new(0u64));
        let d2 = done.clone();
        let g = simrt::spawn_group("node", move || {
            let db = redb::Database::create("/sim/a/db.redb").unwrap();
            for k in 0..20u64 {
                let w = db.begin_write().unwrap();
                {
                    let mut t = w.open_table(T).unwrap();
                    t.insert(k, k + inc).unwrap();
                }
                w.commit().unwrap();
                *d2.lock().unwrap() = k + 1;
            }
        });
        simrt::wait_group(g, r.below(3_000_000) + 1000);
        simrt::kill_group(g);
        simrt::sim().disk.power_loss("a", r.below(5), &mut r);
        let n = *done.lock().unwrap();
        simrt::note(|| format!("committed {n}"));
        let g = simrt::spawn_group("reader", move || {
            let db = redb::Database::create("/sim/a/db.redb").unwrap();
            let rt = db.begin_read().unwrap();
            if let Ok(t) = rt.open_table(T) {
                for k in 0..n {
                    let v = t.get(k).unwrap().map(|v| v.value());
                    check!(v == Some(k + inc), "lost", "key {k} {v:?} inc {inc}");
                }
            } else {
                check!(n == 0, "lost", "no table, n={n}");
            }
        });
        simrt::wait_group(g, 1 << 50);
        simrt::kill_group(g);
    }
}
