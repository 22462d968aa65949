//! Optimistic commits: put-if-absent of the next version, and delta-rs' conflict checks on a retry.
use crate::kernel::{Action, CommitInfo, Remove};
use crate::logstore::LogStore;
use crate::protocol::DeltaOperation;
use crate::table::{commit_path, read_commit, DeltaTableState};
use crate::{DeltaResult, DeltaTableError};
use futures::future::BoxFuture;
use object_store::{PutMode, PutOptions};
use std::collections::HashSet;
use std::future::IntoFuture;
use std::sync::Arc;

const MAX_RETRIES: i64 = 15;

#[derive(Default)]
pub struct CommitBuilder {
    actions: Vec<Action>,
}
pub struct PreCommit {
    actions: Vec<Action>,
    log_store: Arc<dyn LogStore>,
    read: Option<DeltaTableState>,
}
pub struct FinalizedCommit {
    pub version: i64,
}

impl CommitBuilder {
    pub fn with_actions(mut self, actions: Vec<Action>) -> Self {
        self.actions = actions;
        self
    }
    pub fn build(mut self, table: Option<&DeltaTableState>, log_store: Arc<dyn LogStore>, op: DeltaOperation) -> PreCommit {
        if !self.actions.iter().any(|a| matches!(a, Action::CommitInfo(_))) {
            self.actions.push(Action::CommitInfo(CommitInfo {
                timestamp: Some(chrono::Utc::now().timestamp_millis()),
                operation: Some(op.name().into()),
                info: Default::default(),
            }));
        }
        PreCommit { actions: self.actions, log_store, read: table.cloned() }
    }
}

fn removed(actions: &[Action]) -> HashSet<&String> {
    actions
        .iter()
        .filter_map(|a| match a {
            Action::Remove(Remove { path, .. }) => Some(path),
            _ => None,
        })
        .collect()
}

impl IntoFuture for PreCommit {
    type Output = DeltaResult<FinalizedCommit>;
    type IntoFuture = BoxFuture<'static, Self::Output>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let mut body = String::new();
            for a in &self.actions {
                body.push_str(&serde_json::to_string(a)?);
                body.push('\n');
            }
            let store = self.log_store.object_store();
            let first = self.read.as_ref().map_or(0, |s| s.version + 1);
            for version in first..first + MAX_RETRIES {
                let r = store
                    .put_opts(
                        &commit_path(version),
                        body.clone().into(),
                        PutOptions { mode: PutMode::Create, ..Default::default() },
                    )
                    .await;
                match r {
                    Ok(_) => return Ok(FinalizedCommit { version }),
                    Err(object_store::Error::AlreadyExists { .. }) if self.read.is_some() => {
                        let winning = read_commit(&self.log_store, version).await?;
                        if winning.iter().any(|a| matches!(a, Action::Metadata(_))) {
                            return Err(DeltaTableError::CommitConflict("Metadata changed since last commit.".into()));
                        }
                        // no read predicate is ever given, so only deletions can collide
                        let ours = removed(&self.actions);
                        if removed(&winning).iter().any(|p| ours.contains(p)) {
                            return Err(DeltaTableError::CommitConflict(
                                "This transaction attempted to delete one or more files that were deleted by a concurrent update.".into(),
                            ));
                        }
                    }
                    Err(object_store::Error::AlreadyExists { .. }) => {
                        return Err(DeltaTableError::VersionAlreadyExists(version))
                    }
                    Err(e) => return Err(e.into()),
                }
            }
            Err(DeltaTableError::CommitConflict(format!("gave up after {MAX_RETRIES} attempts")))
        })
    }
}
