use crate::cluster::*;
use simcore::*;

fn gen(seed: u64, i: u64) -> Scenario {
    let mut sc = Scenario::new("N00", simrt::mix(seed, &format!("n{i}")));
    sc.sched.preempt = 0;
    sc
}
struct Trace;
struct V(String);
impl tracing::field::Visit for V {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, " {}={:?}", f.name(), v);
    }
}
impl tracing::Subscriber for Trace {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        let t = T.get_or_init(|| std::env::var("SIM_TRACE").unwrap_or_default().split(',').map(|s| s.to_string()).collect());
        *m.level() <= tracing::Level::INFO || t.iter().any(|p| p.len() > 1 && m.target().starts_with(p.as_str()))
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut v = V(String::new());
        e.record(&mut v);
        let g = if simrt::on() { simrt::sim().groups[simrt::my_group() as usize].name.clone() } else { "?".into() };
        let s: String = v.0.chars().take(400).collect();
        eprintln!("{:>9.4} {g} {} {}{}", simrt::now_ns() as f64 / 1e9, e.metadata().level(), e.metadata().target(), s);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn trace() {
    if std::env::var("SIM_TRACE").is_ok() {
        let _ = tracing::subscriber::set_global_default(Trace);
    }
}
fn run(sc: &Scenario) {
    trace();
    let mut params = tn_config::Parameters::default();
    params.min_header_delay = std::time::Duration::from_millis(200);
    params.max_header_delay = std::time::Duration::from_millis(500);
    let mut c = Cluster::new(Setup { seed: sc.seed, validators: 4, committee: 4, observers: 0, epoch_secs: 20, rotate: false, params, twin: None });
    for i in 0..4 {
        c.start(i);
    }
    for _ in 0..6 {
        secs(5);
        for i in 0..4 {
            let b = c.blocks(i);
            simrt::note(|| format!("n{i} running {} blocks {} steps {}", c.running(i), b.len(), simrt::sim().stats.steps));
        }
    }
}
pub const NODES: Check = Check {
    id: "N00",
    rule: "four nodes, no faults",
    real: &[],
    stub: &[],
    assumptions: &[],
    gen,
    run,
    runs: (4, 8),
    wall: (60, 60),
    stuck_is_violation: true,
    max_steps: 200_000_000,
};
