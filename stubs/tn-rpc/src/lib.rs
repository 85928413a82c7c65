//! Stand-in for the RPC namespace: nothing listens in the simulation.
use tn_types::{
    Address, AuthorityIdentifier, BlsPublicKey, ConsensusHeader, Epoch, EpochCertificate, EpochDigest, EpochRecord,
    Multiaddr, NetworkPublicKey, NodeMode,
};

#[derive(Debug, Clone)]
pub struct RpcNodeInfo {
    pub chain_id: u64,
    pub version: &'static str,
    pub name: String,
    pub bls_public_key: BlsPublicKey,
    pub authority_id: AuthorityIdentifier,
    pub execution_address: Address,
    pub primary_network_key: NetworkPublicKey,
    pub worker_network_key: NetworkPublicKey,
    pub primary_external_address: Multiaddr,
    pub worker_external_address: Multiaddr,
}
pub trait EngineToPrimary {
    fn get_latest_consensus_block(&self) -> ConsensusHeader;
    fn epoch(
        &self,
        epoch: Option<Epoch>,
        hash: Option<EpochDigest>,
    ) -> impl std::future::Future<Output = Option<(EpochRecord, EpochCertificate)>> + Send;
    fn node_info(&self) -> &RpcNodeInfo;
    fn node_mode(&self) -> NodeMode;
}
pub struct TelcoinNetworkRpcExt<E>(E);
impl<E> TelcoinNetworkRpcExt<E> {
    pub fn new(_: tn_reth::RethEnv, e: E) -> Self {
        Self(e)
    }
}
pub trait TelcoinNetworkRpcExtApiServer: Sized {
    fn into_rpc(self) {}
}
impl<E> TelcoinNetworkRpcExtApiServer for TelcoinNetworkRpcExt<E> {}
