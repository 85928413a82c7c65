//! Stand-in for reth-metrics: handles that record nowhere.
pub use metrics;
pub use reth_metrics_derive::Metrics;
pub trait Noop {
    fn make() -> Self;
}
impl Noop for metrics::Counter {
    fn make() -> Self {
        metrics::Counter::noop()
    }
}
impl Noop for metrics::Gauge {
    fn make() -> Self {
        metrics::Gauge::noop()
    }
}
impl Noop for metrics::Histogram {
    fn make() -> Self {
        metrics::Histogram::noop()
    }
}
