//! Stand-in for the few reth-primitives names that tn-types re-exports. Only `SealedHeader` is used by the
//! crates built here: a header with its cached hash, as in reth.
use alloy::consensus::{EthereumTxEnvelope, Header, TxEip4844};
use alloy::eips::BlockNumHash;
use alloy::primitives::{BlockHash, Sealable};
use std::ops::Deref;

pub type TransactionSigned = EthereumTxEnvelope<TxEip4844>;
pub type Transaction = TransactionSigned;
pub type Block = alloy::consensus::Block<TransactionSigned>;
pub type BlockBody = alloy::consensus::BlockBody<TransactionSigned>;
pub type PooledTransaction = TransactionSigned;
pub type Receipt = alloy::consensus::Receipt;
pub type Account = ();
#[derive(Debug, Clone, Copy, Default)]
pub struct EthPrimitives;
pub trait NodePrimitives {}
impl NodePrimitives for EthPrimitives {}
pub use alloy::consensus::transaction::Recovered;
/// A header, its hash and the block's transactions.
#[derive(Debug, Clone)]
pub struct SealedBlock {
    pub header: SealedHeader,
    pub body: BlockBody,
}
impl SealedBlock {
    pub fn clone_sealed_header(&self) -> SealedHeader {
        self.header.clone()
    }
}
impl Deref for SealedBlock {
    type Target = SealedHeader;
    fn deref(&self) -> &SealedHeader {
        &self.header
    }
}
#[derive(Debug, Clone)]
pub struct RecoveredBlock<B = Block> {
    pub block: SealedBlock,
    pub kind: std::marker::PhantomData<B>,
}
impl<B> RecoveredBlock<B> {
    pub fn sealed_block(&self) -> &SealedBlock {
        &self.block
    }
    pub fn clone_sealed_header(&self) -> SealedHeader {
        self.block.header.clone()
    }
}
impl<B> Deref for RecoveredBlock<B> {
    type Target = SealedBlock;
    fn deref(&self) -> &SealedBlock {
        &self.block
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct SealedHeader<H = Header> {
    hash: BlockHash,
    header: H,
}
impl<H> SealedHeader<H> {
    pub const fn new(header: H, hash: BlockHash) -> Self {
        Self { hash, header }
    }
    pub const fn header(&self) -> &H {
        &self.header
    }
    pub fn clone_header(&self) -> H
    where
        H: Clone,
    {
        self.header.clone()
    }
    pub fn unseal(self) -> H {
        self.header
    }
    pub const fn hash(&self) -> BlockHash {
        self.hash
    }
    pub fn split(self) -> (H, BlockHash) {
        (self.header, self.hash)
    }
}
impl<H: Sealable> SealedHeader<H> {
    pub fn seal_slow(header: H) -> Self {
        let hash = header.hash_slow();
        Self { hash, header }
    }
}
impl SealedHeader<Header> {
    pub fn num_hash(&self) -> BlockNumHash {
        BlockNumHash::new(self.header.number, self.hash)
    }
}
impl<H> Deref for SealedHeader<H> {
    type Target = H;
    fn deref(&self) -> &H {
        &self.header
    }
}
impl<H: Sealable + Default> Default for SealedHeader<H> {
    fn default() -> Self {
        Self::seal_slow(H::default())
    }
}
