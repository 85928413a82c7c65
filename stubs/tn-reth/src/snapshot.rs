//! State export is not part of the simulation (`enable_state_export` is off).
use crate::{error::TnRethError, RethEnv};
use std::path::Path;
use tn_storage::exec_state_pack::ExecStateStats;
use tn_types::{BlockNumHash, ExecHeader, SealedHeader, B256};

pub fn check_entry_readiness(_: &RethEnv, _: &SealedHeader) -> Result<(), TnRethError> {
    Ok(())
}
pub struct PinnedStateView;
impl PinnedStateView {
    pub fn verify_tip(&self, _: BlockNumHash) -> Result<bool, TnRethError> {
        Ok(false)
    }
    pub fn export_state_pack(&self, _: B256, _: &[ExecHeader], _: &Path) -> Result<ExecStateStats, TnRethError> {
        Err(TnRethError::Snapshot("not part of the simulation".into()))
    }
}
impl RethEnv {
    pub fn pin_state_view(&self) -> Result<PinnedStateView, TnRethError> {
        Ok(PinnedStateView)
    }
}
