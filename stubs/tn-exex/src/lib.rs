//! Stand-in: no execution extension is installed in the simulation.
use std::future::Future;
use std::pin::Pin;
use tokio::sync::{broadcast, mpsc};

pub struct TnExExContext;
pub type ExExInstallFn =
    Box<dyn FnOnce(TnExExContext) -> Pin<Box<dyn Future<Output = eyre::Result<()>> + Send>> + Send + Sync>;
#[derive(Debug)]
pub struct TnExExNotification;
#[derive(Debug)]
pub struct TnExExEvent;
impl TnExExContext {
    pub fn new<C>(
        _: mpsc::Receiver<TnExExNotification>,
        _: mpsc::Sender<TnExExEvent>,
        _: tn_reth::RethEnv,
        _: C,
    ) -> Self {
        Self
    }
}
pub struct TnExExManager;
impl TnExExManager {
    pub fn new<S, A, B>(
        _: S,
        _: broadcast::Receiver<A>,
        _: broadcast::Receiver<B>,
        _: Vec<(String, mpsc::Sender<TnExExNotification>)>,
        _: Vec<mpsc::Receiver<TnExExEvent>>,
    ) -> (Self, ()) {
        (Self, ())
    }
    pub async fn run(self) -> eyre::Result<()> {
        std::future::pending().await
    }
}
pub const fn exex_channel_capacity() -> usize {
    64
}
pub fn resolve_exex_channel_capacity(capacity: usize) -> usize {
    capacity.max(1)
}
