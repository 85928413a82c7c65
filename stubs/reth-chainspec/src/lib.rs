//! Stand-in: a chain spec is the genesis it was built from.
use alloy::genesis::Genesis;
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct ChainSpec {
    pub genesis: Genesis,
}
impl From<Genesis> for ChainSpec {
    fn from(genesis: Genesis) -> Self {
        Self { genesis }
    }
}
