//! Per-worker execution components.
use crate::{ChainSpec, WorkerTxPool};
use tn_worker::WorkerNetworkHandle;

#[derive(Debug, Clone)]
pub struct RpcServer;
#[derive(Debug, Clone)]
pub struct RpcServerHandle;
impl RpcServerHandle {
    pub fn http_client(&self) -> Option<jsonrpsee::http_client::HttpClient> {
        None
    }
    pub fn http_local_addr(&self) -> Option<std::net::SocketAddr> {
        None
    }
}
#[derive(Debug)]
pub struct WorkerComponents {
    rpc_handle: RpcServerHandle,
    pool: WorkerTxPool,
    network: WorkerNetwork,
}
impl WorkerComponents {
    pub fn new(rpc_handle: RpcServerHandle, pool: WorkerTxPool, network: WorkerNetwork) -> Self {
        Self { rpc_handle, pool, network }
    }
    pub fn rpc_handle(&self) -> &RpcServerHandle {
        &self.rpc_handle
    }
    pub fn pool(&self) -> WorkerTxPool {
        self.pool.clone()
    }
    pub fn worker_network(&self) -> &WorkerNetwork {
        &self.network
    }
}
#[derive(Debug, Clone)]
pub struct WorkerNetwork;
impl WorkerNetwork {
    pub fn new(_: ChainSpec, network: WorkerNetworkHandle, _: &'static str) -> Self {
        let this = Self;
        this.respawn_peer_count(network);
        this
    }
    pub fn respawn_peer_count(&self, network: WorkerNetworkHandle) {
        let spawner = network.get_task_spawner().clone();
        spawner.spawn_task("Worker Network Peers", async move {
            loop {
                let _ = network.connected_peers_count().await;
                tokio::time::sleep(std::time::Duration::from_secs(15)).await;
            }
        });
    }
}
