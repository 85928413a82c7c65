//! Stand-in for the one trait that tn-reth's payload type implements.
pub mod helpers {
    pub mod pending_block {
        pub trait BuildPendingEnv<H> {
            fn build_pending_env(parent: &reth_primitives::SealedHeader<H>) -> Self;
        }
    }
}
