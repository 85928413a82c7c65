//! Stand-in for tn-reth: the execution layer the simulated nodes run on.
//!
//! `payload.rs` and `system_calls.rs` are the repository's own files. The rest is a small execution layer with the
//! same interface: blocks are built from batch payloads with every header field filled as the real one does, the state
//! root is a hash chain over the parent's root and the transactions, blocks become durable in one atomic append to a
//! file on the simulated disk, and the registry's epoch state is a function of the closing blocks on the chain.
use std::sync::Arc;

mod env;
pub mod error;
pub mod payload;
mod pool;
pub mod snapshot;
pub mod system_calls;
pub mod worker;

pub use env::*;
pub use error::{PoolTransactionError, ProviderError, RethError, StaticFileSegment};
pub use pool::*;
pub use worker::{RpcServer, RpcServerHandle};

use tn_types::{Address, BlsPublicKey, Epoch, RpcInfo, TaskSpawner};

/// What a simulated chain is: its genesis and its registry.
pub struct SimChain {
    pub genesis: tn_types::Genesis,
    /// Every validator: execution address and the BLS key bytes the registry stores.
    pub validators: Vec<(Address, Vec<u8>)>,
    /// Seconds.
    pub epoch_duration: u32,
    /// The validators (by index) of an epoch's committee.
    pub committee: Box<dyn Fn(Epoch) -> Vec<usize> + Send + Sync>,
    pub base_fee: u64,
}
impl std::fmt::Debug for SimChain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimChain")
    }
}

#[derive(Clone, Debug)]
pub struct RethConfig(pub Arc<SimChain>);

#[derive(Clone, Debug)]
pub struct ChainSpec(pub Arc<SimChain>);
impl ChainSpec {
    pub fn chain_id(&self) -> u64 {
        self.0.genesis.config.chain_id
    }
    pub fn sealed_genesis_block(&self) -> tn_types::SealedBlock {
        tn_types::SealedBlock { header: env::genesis_header(&self.0), body: Default::default() }
    }
}

pub fn report_db_metrics(_: &RethDb) {}

/// Where an observer sends transactions: the simulator registers a function.
pub type ForwardFn = Arc<dyn Fn(Vec<Vec<u8>>, Vec<BlsPublicKey>) -> bool + Send + Sync>;
#[derive(Clone, Copy, Debug)]
pub enum ForwardTargetPolicy {
    PublicOnly,
    AllowPrivate,
}
impl ForwardTargetPolicy {
    pub fn from_allow_private(allow: bool) -> Self {
        if allow {
            Self::AllowPrivate
        } else {
            Self::PublicOnly
        }
    }
}
#[derive(Clone)]
pub struct WorkerRpcForwarder {
    pool: Option<WorkerTxPool>,
}
impl std::fmt::Debug for WorkerRpcForwarder {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "WorkerRpcForwarder")
    }
}
impl WorkerRpcForwarder {
    pub fn new(_: TaskSpawner, _: ForwardTargetPolicy, pool: Option<WorkerTxPool>) -> Self {
        Self { pool }
    }
}
impl tn_types::TxnForwarder for WorkerRpcForwarder {
    fn forward_txns(
        &self,
        transactions: Vec<Vec<u8>>,
        committee_slots: Vec<BlsPublicKey>,
        _: Vec<(BlsPublicKey, RpcInfo)>,
    ) -> bool {
        let f = self.pool.as_ref().and_then(|p| p.forward());
        f.map(|f| f(transactions, committee_slots)).unwrap_or(true)
    }
}
