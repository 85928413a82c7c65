use crate::error::*;
use crate::payload::TNPayload;
use crate::system_calls::{ConsensusRegistry, EpochState};
use crate::worker::{RpcServer, RpcServerHandle, WorkerNetwork};
use crate::{ChainSpec, RethConfig, SimChain, WorkerTxPool};
use alloy::consensus::proofs;
use alloy::primitives::keccak256;

use std::fs::File;
use std::io::Read as _;
use std::ops::RangeInclusive;
use std::os::unix::fs::FileExt as _;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, RwLock};
use tn_types::gas_accumulator::{GasAccumulator, WorkerConfigEntry, WorkerFeeConfig};
use tn_types::{
    Address, BlockHash, BlockNumHash, Bytes, ConsensusNumHash, EngineUpdate, Epoch, ExecHeader, RecoveredBlock, Round,
    SealedBlock, SealedHeader, TaskManager, TaskSpawner, B256, U256,
};
use tokio::sync::broadcast;
use tokio_stream::wrappers::BroadcastStream;

pub type RethDb = Arc<SimDb>;

pub fn genesis_header(chain: &SimChain) -> SealedHeader {
    let g = &chain.genesis;
    SealedHeader::seal_slow(ExecHeader {
        timestamp: g.timestamp,
        gas_limit: g.gas_limit,
        extra_data: g.extra_data.clone(),
        base_fee_per_gas: Some(chain.base_fee),
        state_root: keccak256(serde_json_free(g)),
        ..Default::default()
    })
}
fn serde_json_free(g: &tn_types::Genesis) -> Vec<u8> {
    format!("{:?}{:?}", g.config.chain_id, g.timestamp).into_bytes()
}

/// A block with what the registry holds after it.
#[derive(Debug, Clone)]
pub struct Stored {
    pub header: SealedHeader,
    pub txs: Vec<Vec<u8>>,
    pub epoch: Epoch,
    pub first_block: u64,
}

/// The durable execution database: an append-only file, one checksummed record per executed output.
#[derive(Debug)]
pub struct SimDb {
    path: PathBuf,
    inner: Mutex<DbInner>,
}
#[derive(Debug)]
struct DbInner {
    file: File,
    len: u64,
    blocks: Vec<Stored>,
}
fn sum(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend((b.len() as u32).to_le_bytes());
    out.extend(b);
}
fn get<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
    let r = b.get(4..4 + n)?;
    *b = &b[4 + n..];
    Some(r)
}
impl Stored {
    fn encode(&self, out: &mut Vec<u8>) {
        put(out, &alloy::rlp::encode(self.header.header()));
        out.extend(self.epoch.to_le_bytes());
        out.extend(self.first_block.to_le_bytes());
        out.extend((self.txs.len() as u32).to_le_bytes());
        self.txs.iter().for_each(|t| put(out, t));
    }
    fn decode(b: &mut &[u8]) -> Option<Self> {
        let mut h = get(b)?;
        let header = <ExecHeader as alloy::rlp::Decodable>::decode(&mut h).ok()?;
        let epoch = u32::from_le_bytes(b.get(..4)?.try_into().ok()?);
        let first_block = u64::from_le_bytes(b.get(4..12)?.try_into().ok()?);
        let n = u32::from_le_bytes(b.get(12..16)?.try_into().ok()?);
        *b = &b[16..];
        let mut txs = Vec::new();
        for _ in 0..n {
            txs.push(get(b)?.to_vec());
        }
        Some(Self { header: SealedHeader::seal_slow(header), txs, epoch, first_block })
    }
    /// The records of a database file, up to the first that is torn.
    pub fn read_all(bytes: &[u8]) -> (Vec<Stored>, u64) {
        let mut at = 0usize;
        let mut blocks = Vec::new();
        while let Some(h) = bytes.get(at..at + 12) {
            let n = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
            let Some(body) = bytes.get(at + 12..at + 12 + n) else { break };
            if n == 0 || sum(body) != u64::from_le_bytes(h[4..].try_into().unwrap()) {
                break;
            }
            let mut b = body;
            while !b.is_empty() {
                let Some(s) = Stored::decode(&mut b) else { return (blocks, at as u64) };
                blocks.push(s);
            }
            at += 12 + n;
        }
        (blocks, at as u64)
    }
}
impl SimDb {
    fn open(path: &Path) -> std::io::Result<Self> {
        std::fs::create_dir_all(path)?;
        let path = path.join("chain.log");
        let mut file = File::options().read(true).write(true).create(true).truncate(false).open(&path)?;
        let mut bytes = Vec::new();
        file.read_to_end(&mut bytes)?;
        let (blocks, len) = Stored::read_all(&bytes);
        file.set_len(len)?;
        file.sync_all()?;
        Ok(Self { path, inner: Mutex::new(DbInner { file, len, blocks }) })
    }
    fn append(&self, blocks: &[ExecutedBlock]) -> std::io::Result<()> {
        let mut body = Vec::new();
        blocks.iter().for_each(|b| b.stored.encode(&mut body));
        let mut rec = Vec::new();
        rec.extend((body.len() as u32).to_le_bytes());
        rec.extend(sum(&body).to_le_bytes());
        rec.extend(body);
        let mut d = self.inner.lock().unwrap();
        let next = d.blocks.last().map(|b| b.header.number + 1).unwrap_or(1);
        if blocks[0].stored.header.number != next {
            return Err(std::io::Error::other(format!("{}: appending block {} after {}", self.path.display(),
                blocks[0].stored.header.number, next - 1)));
        }
        let at = d.len;
        let r = d.file.write_all_at(&rec, at).and_then(|_| d.file.sync_data());
        if let Err(e) = r {
            // the transaction is not committed: nothing of it may be found by the next start
            let _ = d.file.set_len(at);
            return Err(e);
        }
        d.len += rec.len() as u64;
        d.blocks.extend(blocks.iter().map(|b| b.stored.clone()));
        Ok(())
    }
}

#[derive(Debug, Clone, Default)]
pub struct DeferredTrieData;
#[derive(Debug, Clone)]
pub struct ExecutedBlock {
    pub recovered_block: Arc<RecoveredBlock>,
    stored: Stored,
}
impl ExecutedBlock {
    pub fn trie_data_handle(&self) -> DeferredTrieData {
        DeferredTrieData
    }
}
pub enum NewCanonicalChain {
    Commit { new: Vec<ExecutedBlock> },
    Reorg { new: Vec<ExecutedBlock>, old: Vec<ExecutedBlock> },
}
#[derive(Debug, Clone)]
pub struct CanonStateNotification(Vec<ExecutedBlock>);
impl CanonStateNotification {
    pub fn tip(&self) -> &RecoveredBlock {
        &self.0.last().expect("a notification has a block").recovered_block
    }
}
/// The notifications; a lagging reader skips what it missed, as reth's stream does.
#[derive(Debug)]
pub struct CanonStateNotificationStream(BroadcastStream<CanonStateNotification>);
impl futures::Stream for CanonStateNotificationStream {
    type Item = CanonStateNotification;
    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        loop {
            match futures::ready!(std::pin::Pin::new(&mut self.0).poll_next(cx)) {
                Some(Ok(n)) => return std::task::Poll::Ready(Some(n)),
                Some(Err(_)) => continue,
                None => return std::task::Poll::Ready(None),
            }
        }
    }
}

#[derive(Debug)]
struct Mem {
    /// Executed and not yet finalized.
    chain: Vec<Stored>,
    head: SealedHeader,
}
#[derive(Clone, Debug)]
pub struct CanonicalInMemoryState {
    mem: Arc<RwLock<Mem>>,
}
impl CanonicalInMemoryState {
    pub fn set_pending_block(&self, _: ExecutedBlock) {}
    pub fn update_chain(&self, c: NewCanonicalChain) {
        let mut m = self.mem.write().unwrap();
        let (new, old) = match c {
            NewCanonicalChain::Commit { new } => (new, vec![]),
            NewCanonicalChain::Reorg { new, old } => (new, old),
        };
        for b in &old {
            m.chain.retain(|s| s.header.hash() != b.stored.header.hash());
        }
        m.chain.extend(new.into_iter().map(|b| b.stored));
    }
    pub fn set_canonical_head(&self, h: SealedHeader) {
        self.mem.write().unwrap().head = h;
    }
    pub fn get_canonical_head(&self) -> SealedHeader {
        self.mem.read().unwrap().head.clone()
    }
}

struct Inner {
    chain: Arc<SimChain>,
    genesis: Stored,
    db: RethDb,
    mem: CanonicalInMemoryState,
    spawner: TaskSpawner,
    notify: broadcast::Sender<CanonStateNotification>,
    pools: Mutex<Vec<WorkerTxPool>>,
}
#[derive(Clone)]
pub struct RethEnv {
    inner: Arc<Inner>,
}
impl std::fmt::Debug for RethEnv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "RethEnv")
    }
}
/// Called with every pool a node creates, so that the simulated clients can submit to it.
pub type PoolHook = Arc<dyn Fn(&Path, WorkerTxPool) + Send + Sync>;
static POOL_HOOK: RwLock<Option<PoolHook>> = RwLock::new(None);
pub fn set_pool_hook(h: PoolHook) {
    *POOL_HOOK.write().unwrap() = Some(h);
}

impl RethEnv {
    pub fn new_database<P: AsRef<Path>>(_: &RethConfig, path: P) -> eyre::Result<RethDb> {
        Ok(Arc::new(SimDb::open(path.as_ref())?))
    }
    pub fn new(
        config: &RethConfig,
        task_manager: &TaskManager,
        db: RethDb,
        _: Option<Address>,
        _: GasAccumulator,
    ) -> eyre::Result<Self> {
        let chain = config.0.clone();
        let header = genesis_header(&chain);
        let genesis = Stored { header: header.clone(), txs: vec![], epoch: 0, first_block: 0 };
        let head = db.inner.lock().unwrap().blocks.last().map(|b| b.header.clone()).unwrap_or(header);
        Ok(Self {
            inner: Arc::new(Inner {
                chain,
                genesis,
                db,
                mem: CanonicalInMemoryState { mem: Arc::new(RwLock::new(Mem { chain: vec![], head })) },
                spawner: task_manager.get_spawner(),
                notify: broadcast::channel(256).0,
                pools: Mutex::new(vec![]),
            }),
        })
    }
    pub fn get_task_spawner(&self) -> &TaskSpawner {
        &self.inner.spawner
    }
    pub fn chainspec(&self) -> ChainSpec {
        ChainSpec(self.inner.chain.clone())
    }
    pub fn get_debug_max_round(&self) -> Option<u64> {
        None
    }
    pub fn init_txn_pool(&self) -> eyre::Result<WorkerTxPool> {
        let pool = WorkerTxPool::default();
        let hook = POOL_HOOK.read().unwrap().clone();
        if let Some(hook) = hook {
            hook(&self.inner.db.path, pool.clone());
        }
        self.inner.pools.lock().unwrap().push(pool.clone());
        Ok(pool)
    }
    pub fn get_rpc_server(&self, _: WorkerTxPool, _: WorkerNetwork, _: ()) -> eyre::Result<RpcServer> {
        Ok(RpcServer)
    }
    pub async fn start_rpc(&self, _: &RpcServer) -> TnRethResult<RpcServerHandle> {
        Ok(RpcServerHandle)
    }

    // ---- reads

    fn by_number(&self, n: u64) -> Option<Stored> {
        if n == 0 {
            return Some(self.inner.genesis.clone());
        }
        let mem = self.inner.mem.mem.read().unwrap().chain.iter().find(|s| s.header.number == n).cloned();
        mem.or_else(|| self.inner.db.inner.lock().unwrap().blocks.get(n as usize - 1).cloned())
    }
    fn by_hash(&self, h: B256) -> Option<Stored> {
        if h == self.inner.genesis.header.hash() {
            return Some(self.inner.genesis.clone());
        }
        let mem = self.inner.mem.mem.read().unwrap().chain.iter().find(|s| s.header.hash() == h).cloned();
        mem.or_else(|| self.inner.db.inner.lock().unwrap().blocks.iter().rev().find(|s| s.header.hash() == h).cloned())
    }
    fn pinned(&self, h: B256) -> StateReadResult<Stored> {
        self.by_hash(h).ok_or_else(|| StateReadError::Provider(format!("no state for block {h}")))
    }
    fn persisted_tip(&self) -> SealedHeader {
        let d = self.inner.db.inner.lock().unwrap();
        d.blocks.last().map(|b| b.header.clone()).unwrap_or_else(|| self.inner.genesis.header.clone())
    }
    pub fn heal_finalized_to_persisted_tip(&self) -> TnRethResult<()> {
        Ok(())
    }
    pub fn lookup_head(&self) -> TnRethResult<SealedHeader> {
        Ok(self.persisted_tip())
    }
    pub fn canonical_tip(&self) -> SealedHeader {
        self.inner.mem.get_canonical_head()
    }
    pub fn finalized_header(&self) -> TnRethResult<Option<SealedHeader>> {
        let tip = self.persisted_tip();
        Ok((tip.number > 0).then_some(tip))
    }
    pub fn last_finalized_block_number(&self) -> TnRethResult<u64> {
        Ok(self.persisted_tip().number)
    }
    pub fn last_block_number(&self) -> TnRethResult<u64> {
        Ok(self.persisted_tip().number)
    }
    pub fn finalized_block_hash_number_for_startup(&self) -> TnRethResult<BlockNumHash> {
        Ok(self.persisted_tip().num_hash())
    }
    pub fn header_by_number(&self, n: u64) -> TnRethResult<Option<ExecHeader>> {
        Ok(self.by_number(n).map(|s| s.header.header().clone()))
    }
    pub fn sealed_header_by_number(&self, n: u64) -> TnRethResult<Option<SealedHeader>> {
        Ok(self.by_number(n).map(|s| s.header))
    }
    pub fn sealed_block_by_number(&self, n: u64) -> TnRethResult<Option<SealedBlock>> {
        Ok(self.by_number(n).map(|s| SealedBlock { header: s.header, body: Default::default() }))
    }
    pub fn blocks_for_range(&self, range: RangeInclusive<u64>) -> TnRethResult<Vec<SealedHeader>> {
        Ok(range.filter_map(|n| self.by_number(n)).map(|s| s.header).collect())
    }
    pub fn canonical_in_memory_state(&self) -> CanonicalInMemoryState {
        self.inner.mem.clone()
    }
    pub fn canonical_block_stream(&self) -> CanonStateNotificationStream {
        CanonStateNotificationStream(BroadcastStream::new(self.inner.notify.subscribe()))
    }

    // ---- the registry

    fn info(&self, s: &Stored) -> ConsensusRegistry::EpochInfo {
        let c = &self.inner.chain;
        ConsensusRegistry::EpochInfo {
            committee: (c.committee)(s.epoch).into_iter().map(|i| c.validators[i].0).collect(),
            epochIssuance: U256::ZERO,
            blockHeight: s.first_block,
            epochId: s.epoch,
            epochDuration: c.epoch_duration,
            stakeVersion: 0,
        }
    }
    fn keys(&self, epoch: Epoch) -> Vec<Bytes> {
        let c = &self.inner.chain;
        (c.committee)(epoch).into_iter().map(|i| c.validators[i].1.clone().into()).collect()
    }
    pub fn epoch_state_at_header(&self, header: &SealedHeader) -> StateReadResult<EpochState> {
        let s = self.pinned(header.hash())?;
        let closing = s.first_block.saturating_sub(1);
        let start = self
            .by_number(closing)
            .ok_or_else(|| StateReadError::Provider(format!("missing block {closing}")))?
            .header
            .timestamp;
        let c = &self.inner.chain;
        Ok(EpochState {
            epoch: s.epoch,
            epoch_info: self.info(&s),
            validators: (c.committee)(s.epoch)
                .into_iter()
                .map(|i| ConsensusRegistry::ValidatorInfo {
                    validatorAddress: c.validators[i].0,
                    activationEpoch: 0,
                    exitEpoch: u32::MAX,
                    currentStatus: ConsensusRegistry::ValidatorStatus::Active,
                    isRetired: false,
                    stakeVersion: 0,
                    region: 0,
                })
                .collect(),
            bls_pubkeys: self.keys(s.epoch),
            epoch_start: start,
        })
    }
    pub fn epoch_state_from_canonical_tip(&self) -> eyre::Result<EpochState> {
        Ok(self.epoch_state_at_header(&self.canonical_tip())?)
    }
    pub fn epoch_state_at_epoch_start_from_tip(
        &self,
        tip: &SealedHeader,
    ) -> StateReadResult<(EpochState, SealedHeader)> {
        let s = self.pinned(tip.hash())?;
        let pin = s.first_block.saturating_sub(1);
        let header = self
            .by_number(pin)
            .ok_or_else(|| StateReadError::Provider(format!("missing block {pin}")))?
            .header;
        Ok((self.epoch_state_at_header(&header)?, header))
    }
    pub fn get_current_epoch_info_at_header(
        &self,
        header: &SealedHeader,
    ) -> StateReadResult<(Epoch, ConsensusRegistry::EpochInfo)> {
        let s = self.pinned(header.hash())?;
        Ok((s.epoch, self.info(&s)))
    }
    pub fn get_worker_fee_configs_at_block(&self, hash: B256) -> StateReadResult<(usize, Vec<WorkerConfigEntry>)> {
        self.pinned(hash)?;
        let config = WorkerFeeConfig::Static { fee: self.inner.chain.base_fee };
        Ok((1, vec![WorkerConfigEntry { config, data: Default::default() }]))
    }
    pub fn bls_pubkeys_for_epoch_at_header(&self, epoch: u32, header: &SealedHeader) -> StateReadResult<Vec<Bytes>> {
        self.bls_pubkeys_for_epochs_at_block(&[epoch], header.hash()).map(|mut v| v.remove(0))
    }
    pub fn bls_pubkeys_for_epochs_at_header(
        &self,
        epochs: &[Epoch],
        header: &SealedHeader,
    ) -> StateReadResult<Vec<Vec<Bytes>>> {
        self.bls_pubkeys_for_epochs_at_block(epochs, header.hash())
    }
    pub fn bls_pubkeys_for_epochs_at_block(&self, epochs: &[Epoch], hash: B256) -> StateReadResult<Vec<Vec<Bytes>>> {
        let s = self.pinned(hash)?;
        epochs
            .iter()
            .map(|e| {
                // the registry knows past committees and the two that follow the current epoch
                if *e > s.epoch + 2 {
                    return Err(StateReadError::ChainGlobal(format!("epoch {e} is not known at epoch {}", s.epoch)));
                }
                Ok(self.keys(*e))
            })
            .collect()
    }

    // ---- execution

    pub fn build_block_from_batch_payload(
        &self,
        payload: TNPayload,
        transactions: &Vec<Vec<u8>>,
        _: B256,
        _: &[DeferredTrieData],
    ) -> TnRethResult<ExecutedBlock> {
        let parent = self
            .by_hash(payload.parent_header.hash())
            .ok_or(ProviderError::HeaderNotFound(payload.parent_header.number))?;
        let mut root = parent.header.state_root.to_vec();
        root.extend(payload.close_epoch.map(|b| b.to_vec()).unwrap_or_default());
        root.extend(payload.beneficiary.to_vec());
        for tx in transactions {
            root.extend(keccak256(tx).to_vec());
        }
        let number = parent.header.number + 1;
        let header = ExecHeader {
            parent_hash: parent.header.hash(),
            ommers_hash: payload.batch_digest,
            beneficiary: payload.beneficiary,
            state_root: keccak256(&root),
            transactions_root: proofs::ordered_trie_root_with_encoder(transactions, |t, b| b.extend_from_slice(t)),
            difficulty: U256::from(payload.batch_index << 16 | payload.worker_id as usize),
            number,
            gas_limit: payload.gas_limit,
            gas_used: 21_000 * transactions.len() as u64,
            timestamp: payload.timestamp,
            extra_data: payload.close_epoch.map(|h| h.to_vec().into()).unwrap_or_default(),
            mix_hash: payload.prev_randao(),
            nonce: payload.nonce.into(),
            base_fee_per_gas: Some(payload.base_fee_per_gas),
            withdrawals_root: Some(proofs::calculate_withdrawals_root(&[])),
            blob_gas_used: Some(0),
            excess_blob_gas: Some(0),
            parent_beacon_block_root: payload.parent_beacon_block_root(),
            ..Default::default()
        };
        let header = SealedHeader::seal_slow(header);
        let (epoch, first_block) = match payload.close_epoch {
            Some(_) => (parent.epoch + 1, number + 1),
            None => (parent.epoch, parent.first_block),
        };
        let block = SealedBlock { header: header.clone(), body: Default::default() };
        Ok(ExecutedBlock {
            recovered_block: Arc::new(RecoveredBlock { block, kind: std::marker::PhantomData }),
            stored: Stored { header, txs: transactions.clone(), epoch, first_block },
        })
    }
    pub fn persist_executed_output(&self, blocks: &[ExecutedBlock]) -> TnRethResult<()> {
        if blocks.is_empty() {
            return Ok(());
        }
        self.inner.db.append(blocks).map_err(|e| ProviderError::Other(e.to_string()).into())
    }
    pub fn announce_executed_output(
        &self,
        blocks: Vec<ExecutedBlock>,
        update: Option<(Round, ConsensusNumHash, tokio::sync::mpsc::Sender<EngineUpdate>)>,
    ) -> TnRethResult<()> {
        let head = blocks.last().expect("an executed output has a block").recovered_block.clone_sealed_header();
        if let Some((round, num_hash, tx)) = update {
            tx.blocking_send((round, num_hash, Some(head))).map_err(|_| TnRethError::EngineUpdateChannelClosed)?;
        }
        let txs: Vec<_> =
            blocks.iter().flat_map(|b| b.stored.txs.iter()).map(|t| keccak256(t)).collect();
        for pool in self.inner.pools.lock().unwrap().iter() {
            pool.executed(&txs);
        }
        let _ = self.inner.notify.send(CanonStateNotification(blocks));
        Ok(())
    }
    pub fn finalize_block(&self, header: SealedHeader) -> TnRethResult<()> {
        self.inner.mem.mem.write().unwrap().chain.retain(|s| s.header.number > header.number);
        Ok(())
    }
}
impl tn_types::CanonicalExecutionReader for RethEnv {
    fn canonical_execution_hash(&self, number: u64) -> Option<BlockHash> {
        let d = self.inner.db.inner.lock().unwrap();
        if number == 0 {
            return Some(self.inner.genesis.header.hash());
        }
        d.blocks.get(number as usize - 1).map(|s| s.header.hash())
    }
}


