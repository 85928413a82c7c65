//! The error types of tn-reth that its users match on.
pub type TnRethResult<T> = Result<T, TnRethError>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum StaticFileSegment {
    Headers,
}
#[derive(Debug, thiserror::Error)]
pub enum ProviderError {
    #[error("unexpected static file block number {1}, expected {2}")]
    UnexpectedStaticFileBlockNumber(StaticFileSegment, u64, u64),
    #[error("header {0} not found")]
    HeaderNotFound(u64),
    #[error("{0}")]
    Other(String),
}
#[derive(Debug, thiserror::Error)]
#[error("reth")]
pub struct RethError;
pub trait PoolTransactionError {
    fn is_bad_transaction(&self) -> bool;
    fn as_any(&self) -> &dyn std::any::Any;
}
#[derive(Debug, thiserror::Error)]
pub enum TnRethError {
    #[error(transparent)]
    Provider(#[from] ProviderError),
    #[error("{0}")]
    RecoverTransactionBytes(String),
    #[error("{0}")]
    EVMCustom(String),
    #[error("Failed to forward engine update to consensus.")]
    EngineUpdateChannelClosed,
    #[error("finalized marker {finalized} is ahead of the persisted canonical tip {tip}")]
    FinalizedMarkerAheadOfTip { finalized: u64, tip: u64 },
    #[error("snapshot: {0}")]
    Snapshot(String),
}
#[derive(Debug, thiserror::Error)]
pub enum StateReadError {
    #[error("provider fault reading pinned chain state: {0}")]
    Provider(String),
    #[error("{0}")]
    ChainGlobal(String),
}
pub type StateReadResult<T> = Result<T, StateReadError>;
