//! A transaction pool: what was submitted and is neither in a sealed batch nor executed.
use crate::{error::TnRethError, ForwardFn};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use tn_types::{
    Address, Decodable2718 as _, Recovered, SealedBlock, TransactionSigned, TransactionTrait as _, TxHash, B256, U256,
};

pub trait TxnSize {
    fn size(&self) -> usize;
}
impl TxnSize for TransactionSigned {
    fn size(&self) -> usize {
        use tn_types::Encodable2718 as _;
        self.encode_2718_len() + 64
    }
}
#[derive(Debug, Clone)]
pub struct ChangedAccount {
    pub address: Address,
    pub nonce: u64,
    pub balance: U256,
}
#[derive(Debug, Clone)]
pub struct PoolTxn {
    tx: Recovered<TransactionSigned>,
    cost: U256,
}
impl PoolTxn {
    pub fn gas_limit(&self) -> u64 {
        self.tx.gas_limit()
    }
    pub fn to_consensus(&self) -> Recovered<TransactionSigned> {
        self.tx.clone()
    }
    pub fn hash(&self) -> &TxHash {
        self.tx.inner().hash()
    }
    pub fn sender(&self) -> Address {
        self.tx.signer()
    }
    pub fn nonce(&self) -> u64 {
        self.tx.nonce()
    }
    pub fn cost(&self) -> &U256 {
        &self.cost
    }
}
#[derive(Debug)]
pub struct BestTxns {
    list: std::vec::IntoIter<Arc<PoolTxn>>,
    skip: HashSet<Address>,
}
impl BestTxns {
    fn drop_sender(&mut self, tx: &Arc<PoolTxn>) {
        self.skip.insert(tx.sender());
    }
    pub fn exceeds_gas_limit(&mut self, tx: &Arc<PoolTxn>, _: u64) {
        self.drop_sender(tx);
    }
    pub fn max_batch_size(&mut self, tx: &Arc<PoolTxn>, _: usize, _: usize) {
        self.drop_sender(tx);
    }
    pub fn ignore_eip4844(&mut self, tx: &Arc<PoolTxn>) {
        self.drop_sender(tx);
    }
    pub fn ignore_eip7702(&mut self, tx: &Arc<PoolTxn>) {
        self.drop_sender(tx);
    }
}
impl Iterator for BestTxns {
    type Item = Arc<PoolTxn>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let tx = self.list.next()?;
            if !self.skip.contains(&tx.sender()) {
                return Some(tx);
            }
        }
    }
}
pub trait TxPool {
    fn best_transactions(&self) -> BestTxns;
    fn get_pending_base_fee(&self) -> u64;
    fn remove_eip4844_txs(&mut self, blobs: Vec<TxHash>);
    fn remove_unsupported_txs(&mut self, txs: Vec<TxHash>);
    fn get_account_balance(&self, address: Address) -> U256;
}
#[derive(Debug, Clone, Default)]
pub struct BlockInfo {
    pub pending_basefee: u64,
    pub last_seen_block_hash: B256,
    pub last_seen_block_number: u64,
}
pub struct PoolSize {
    pub pending: usize,
}
#[derive(Default)]
struct Inner {
    seq: u64,
    txs: BTreeMap<u64, Arc<PoolTxn>>,
    by_hash: HashMap<TxHash, u64>,
    executed: HashSet<TxHash>,
    info: BlockInfo,
    forward: Option<ForwardFn>,
}
#[derive(Clone, Default)]
pub struct WorkerTxPool(Arc<Mutex<Inner>>);
impl std::fmt::Debug for WorkerTxPool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "WorkerTxPool")
    }
}
#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct PoolError(pub &'static str);

impl WorkerTxPool {
    pub fn block_info(&self) -> BlockInfo {
        self.0.lock().unwrap().info.clone()
    }
    pub fn set_block_info(&self, info: BlockInfo) {
        self.0.lock().unwrap().info = info;
    }
    pub fn set_forward(&self, f: ForwardFn) {
        self.0.lock().unwrap().forward = Some(f);
    }
    pub fn forward(&self) -> Option<ForwardFn> {
        self.0.lock().unwrap().forward.clone()
    }
    pub fn add(&self, tx: Recovered<TransactionSigned>) -> Result<(), PoolError> {
        let mut p = self.0.lock().unwrap();
        let hash = *tx.inner().hash();
        if p.executed.contains(&hash) || p.by_hash.contains_key(&hash) {
            return Err(PoolError("already known"));
        }
        let cost = U256::from(tx.gas_limit()) * U256::from(tx.max_fee_per_gas()) + tx.value();
        p.seq += 1;
        let n = p.seq;
        p.by_hash.insert(hash, n);
        p.txs.insert(n, Arc::new(PoolTxn { tx, cost }));
        Ok(())
    }
    pub async fn add_recovered_transaction_external(&self, tx: Recovered<TransactionSigned>) -> Result<(), PoolError> {
        self.add(tx)
    }
    pub fn pending_transactions(&self) -> Vec<Arc<PoolTxn>> {
        self.0.lock().unwrap().txs.values().cloned().collect()
    }
    pub fn pool_size(&self) -> PoolSize {
        PoolSize { pending: self.0.lock().unwrap().txs.len() }
    }
    fn remove(&self, txs: &[TxHash], executed: bool) {
        let mut p = self.0.lock().unwrap();
        for h in txs {
            if let Some(n) = p.by_hash.remove(h) {
                p.txs.remove(&n);
            }
            if executed {
                p.executed.insert(*h);
            }
        }
    }
    pub fn update_canonical_state(
        &self,
        _: &SealedBlock,
        _: u64,
        _: Option<u128>,
        mined: Vec<TxHash>,
        _: Vec<ChangedAccount>,
    ) {
        self.remove(&mined, false);
    }
    pub(crate) fn executed(&self, txs: &[TxHash]) {
        self.remove(txs, true);
    }
}
impl TxPool for WorkerTxPool {
    fn best_transactions(&self) -> BestTxns {
        BestTxns { list: self.pending_transactions().into_iter(), skip: HashSet::new() }
    }
    fn get_pending_base_fee(&self) -> u64 {
        self.0.lock().unwrap().info.pending_basefee
    }
    fn remove_eip4844_txs(&mut self, blobs: Vec<TxHash>) {
        self.remove(&blobs, false);
    }
    fn remove_unsupported_txs(&mut self, txs: Vec<TxHash>) {
        self.remove(&txs, false);
    }
    fn get_account_balance(&self, _: Address) -> U256 {
        U256::MAX
    }
}

pub fn recover_signed_transaction(tx: &[u8]) -> Result<TransactionSigned, TnRethError> {
    Ok(recover_raw_transaction(tx)?.into_inner())
}
pub fn recover_raw_transaction(tx: &[u8]) -> Result<Recovered<TransactionSigned>, TnRethError> {
    use alloy::consensus::transaction::SignerRecoverable as _;
    let tx = TransactionSigned::decode_2718_exact(tx)
        .map_err(|e| TnRethError::RecoverTransactionBytes(format!("{e:?}")))?;
    let signer = tx.recover_signer().map_err(|e| TnRethError::RecoverTransactionBytes(format!("{e:?}")))?;
    Ok(Recovered::new_unchecked(tx, signer))
}
