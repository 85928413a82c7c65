//! Stand-in: only the name of the client type is used; no RPC server runs in the simulation.
pub mod http_client {
    #[derive(Debug, Clone)]
    pub struct HttpClient;
}
