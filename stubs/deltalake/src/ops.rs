pub mod create {
    use crate::commit::CommitBuilder;
    use crate::kernel::{Action, Metadata, StructField};
    use crate::logstore::LogStore;
    use crate::protocol::DeltaOperation;
    use crate::{DeltaResult, DeltaTable, DeltaTableError};
    use futures::future::BoxFuture;
    use std::future::IntoFuture;
    use std::sync::Arc;

    #[derive(Default)]
    pub struct CreateBuilder {
        name: Option<String>,
        comment: Option<String>,
        columns: Vec<StructField>,
        log_store: Option<Arc<dyn LogStore>>,
        pub(crate) actions: Vec<Action>,
    }
    impl CreateBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_table_name(mut self, n: impl Into<String>) -> Self {
            self.name = Some(n.into());
            self
        }
        pub fn with_comment(mut self, c: impl Into<String>) -> Self {
            self.comment = Some(c.into());
            self
        }
        pub fn with_log_store(mut self, l: Arc<dyn LogStore>) -> Self {
            self.log_store = Some(l);
            self
        }
        pub fn with_columns(mut self, c: impl IntoIterator<Item = impl Into<StructField>>) -> Self {
            self.columns = c.into_iter().map(Into::into).collect();
            self
        }
    }
    impl IntoFuture for CreateBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log_store = self.log_store.ok_or(DeltaTableError::NotInitialized)?;
                if self.columns.is_empty() {
                    return Err(DeltaTableError::Generic("At least one column must be defined to create a table.".into()));
                }
                if log_store.is_delta_table_location().await? {
                    return Err(DeltaTableError::Generic("A Delta Lake table already exists at that location.".into()));
                }
                let mut actions = vec![Action::Metadata(Metadata {
                    id: uuid::Uuid::new_v4(),
                    name: self.name,
                    description: self.comment,
                    schema: arrow_schema::Schema::new(self.columns),
                    created_time: chrono::Utc::now().timestamp_millis(),
                })];
                actions.extend(self.actions);
                CommitBuilder::default().with_actions(actions).build(None, log_store.clone(), DeltaOperation::Create).await?;
                let mut t = DeltaTable::new(log_store, Default::default());
                t.load().await?;
                Ok(t)
            })
        }
    }
}

pub mod convert_to_delta {
    use super::create::CreateBuilder;
    use crate::kernel::{Action, Add, Schema};
    use crate::logstore::LogStore;
    use crate::protocol::SaveMode;
    use crate::{DeltaResult, DeltaTable, DeltaTableError};
    use futures::future::BoxFuture;
    use futures::TryStreamExt;
    use object_store::ObjectMeta;
    use parquet::arrow::arrow_reader::{ArrowReaderMetadata, ArrowReaderOptions};
    use std::future::IntoFuture;
    use std::sync::Arc;

    #[derive(Default)]
    pub struct ConvertToDeltaBuilder {
        name: Option<String>,
        comment: Option<String>,
        log_store: Option<Arc<dyn LogStore>>,
    }
    impl ConvertToDeltaBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_table_name(mut self, n: impl Into<String>) -> Self {
            self.name = Some(n.into());
            self
        }
        pub fn with_comment(mut self, c: impl Into<String>) -> Self {
            self.comment = Some(c.into());
            self
        }
        pub fn with_log_store(mut self, l: Arc<dyn LogStore>) -> Self {
            self.log_store = Some(l);
            self
        }
        pub fn with_save_mode(self, _m: SaveMode) -> Self {
            self
        }
    }
    impl IntoFuture for ConvertToDeltaBuilder {
        type Output = DeltaResult<DeltaTable>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                let log_store = self.log_store.ok_or(DeltaTableError::NotInitialized)?;
                if log_store.is_delta_table_location().await? {
                    return Err(DeltaTableError::Generic("The given location is already a delta table location".into()));
                }
                let store = log_store.object_store();
                let mut all: Vec<ObjectMeta> = store.list(None).try_collect().await?;
                all.sort_by(|a, b| a.location.cmp(&b.location));
                let mut schema: Option<arrow_schema::Schema> = None;
                let mut adds = vec![];
                for m in all.into_iter().filter(|m| m.location.extension() == Some("parquet")) {
                    let data = store.get(&m.location).await?.bytes().await?;
                    let meta = ArrowReaderMetadata::load(&data, ArrowReaderOptions::default())?;
                    let s = meta.schema().as_ref().clone();
                    schema = Some(match schema {
                        None => s,
                        Some(o) => arrow_schema::Schema::try_merge([o, s])?,
                    });
                    adds.push(Action::Add(Add {
                        path: m.location.to_string(),
                        size: m.size as i64,
                        data_change: true,
                        modification_time: m.last_modified.timestamp_millis(),
                        ..Default::default()
                    }));
                }
                let schema = schema.ok_or_else(|| {
                    DeltaTableError::Generic("No parquet file is found in the given location".into())
                })?;
                let cols = Schema::try_from(&schema)?;
                let mut b = CreateBuilder::new().with_log_store(log_store).with_columns(cols.0);
                if let Some(n) = self.name {
                    b = b.with_table_name(n);
                }
                if let Some(c) = self.comment {
                    b = b.with_comment(c);
                }
                b.actions = adds;
                b.await
            })
        }
    }
}

pub mod vacuum {
    use crate::commit::CommitBuilder;
    use crate::logstore::LogStore;
    use crate::protocol::DeltaOperation;
    use crate::table::DeltaTableState;
    use crate::{DeltaResult, DeltaTable, DeltaTableError};
    use chrono::Duration;
    use futures::future::BoxFuture;
    use futures::{stream, StreamExt, TryStreamExt};
    use object_store::ObjectMeta;
    use std::collections::HashSet;
    use std::future::IntoFuture;
    use std::sync::Arc;

    pub struct VacuumBuilder {
        snapshot: DeltaTableState,
        log_store: Arc<dyn LogStore>,
        retention: Duration,
        enforce: bool,
        dry_run: bool,
    }
    #[derive(Debug, Default)]
    pub struct VacuumMetrics {
        pub dry_run: bool,
        pub files_deleted: Vec<String>,
    }
    impl VacuumBuilder {
        pub fn new(log_store: Arc<dyn LogStore>, snapshot: DeltaTableState) -> Self {
            VacuumBuilder { snapshot, log_store, retention: Duration::days(7), enforce: true, dry_run: false }
        }
        pub fn with_retention_period(mut self, r: Duration) -> Self {
            self.retention = r;
            self
        }
        pub fn with_enforce_retention_duration(mut self, e: bool) -> Self {
            self.enforce = e;
            self
        }
        pub fn with_dry_run(mut self, d: bool) -> Self {
            self.dry_run = d;
            self
        }
    }
    impl IntoFuture for VacuumBuilder {
        type Output = DeltaResult<(DeltaTable, VacuumMetrics)>;
        type IntoFuture = BoxFuture<'static, Self::Output>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(async move {
                if self.enforce && self.retention < Duration::days(7) {
                    return Err(DeltaTableError::Generic(
                        "Invalid retention period, minimum retention for vacuum is configured to be greater than 168 hours".into(),
                    ));
                }
                let now = chrono::Utc::now().timestamp_millis();
                let before = now - self.retention.num_milliseconds();
                let expired: HashSet<&str> = self
                    .snapshot
                    .tombstones
                    .iter()
                    .filter(|t| t.deletion_timestamp.unwrap_or(0) < before)
                    .map(|t| t.path.as_str())
                    .collect();
                let valid: HashSet<&str> = self.snapshot.files.iter().map(|f| f.path.as_str()).collect();
                let store = self.log_store.object_store();
                let all: Vec<ObjectMeta> = store.list(None).try_collect().await?;
                let mut doomed = vec![];
                for m in all {
                    let p = m.location.as_ref();
                    let hidden = p.starts_with('_') || p.starts_with('.');
                    if !valid.contains(p) && expired.contains(p) && !hidden {
                        doomed.push(m.location);
                    }
                }
                let mut files_deleted = vec![];
                if !doomed.is_empty() && !self.dry_run {
                    CommitBuilder::default()
                        .build(Some(&self.snapshot), self.log_store.clone(), DeltaOperation::VacuumStart)
                        .await?;
                    files_deleted = store
                        .delete_stream(stream::iter(doomed).map(Ok).boxed())
                        .map(|r| match r {
                            Ok(p) => Ok(p.to_string()),
                            Err(object_store::Error::NotFound { path, .. }) => Ok(path),
                            Err(e) => Err(e),
                        })
                        .try_collect()
                        .await?;
                    CommitBuilder::default()
                        .build(Some(&self.snapshot), self.log_store.clone(), DeltaOperation::VacuumEnd)
                        .await?;
                } else if self.dry_run {
                    files_deleted = doomed.iter().map(|p| p.to_string()).collect();
                }
                let mut t = DeltaTable::new(self.log_store, Default::default());
                t.load().await?;
                Ok((t, VacuumMetrics { dry_run: self.dry_run, files_deleted }))
            })
        }
    }
}
