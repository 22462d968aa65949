use crate::kernel::{Action, Add, CommitInfo, Metadata, Remove};
use crate::logstore::LogStore;
use crate::storage::ObjectStoreRef;
use crate::{DeltaResult, DeltaTableError};
use arrow::array::{new_null_array, ArrayRef, BooleanArray, UInt64Array};
use arrow::compute::cast;
use arrow_schema::{DataType, SchemaRef};
use chrono::{DateTime, Utc};
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::{Column, DFSchema, ScalarValue};
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::datasource::TableType;
use datafusion::error::{DataFusionError, Result};
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::logical_expr::utils::conjunction;
use datafusion::logical_expr::{Expr, TableProviderFilterPushDown};
use datafusion::physical_optimizer::pruning::{PruningPredicate, PruningStatistics};
use datafusion::physical_plan::ExecutionPlan;
use futures::TryStreamExt;
use object_store::path::Path;
use object_store::ObjectMeta;
use serde_json::Value;
use std::any::Any;
use std::collections::HashSet;
use std::fmt;
use std::sync::Arc;

pub fn commit_path(version: i64) -> Path {
    Path::from(format!("_delta_log/{version:020}.json"))
}

pub async fn read_commit(ls: &Arc<dyn LogStore>, version: i64) -> DeltaResult<Vec<Action>> {
    let data = ls.object_store().get(&commit_path(version)).await?.bytes().await?;
    data.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(|l| Ok(serde_json::from_slice(l)?)).collect()
}

/// The commits there are: version and time of writing in milliseconds.
async fn versions(ls: &Arc<dyn LogStore>) -> DeltaResult<Vec<(i64, i64)>> {
    let all: Vec<ObjectMeta> = ls.object_store().list(Some(&ls.log_path())).try_collect().await?;
    let mut v: Vec<(i64, i64)> = all
        .iter()
        .filter_map(|m| {
            let n = m.location.filename()?.strip_suffix(".json")?;
            Some((n.parse().ok()?, m.last_modified.timestamp_millis()))
        })
        .collect();
    v.sort();
    Ok(v)
}

#[derive(Debug, Clone)]
pub struct DeltaTableState {
    pub version: i64,
    pub metadata: Metadata,
    pub schema: SchemaRef,
    /// Newest first, as delta-rs replays the log.
    pub files: Vec<Add>,
    pub tombstones: Vec<Remove>,
}

impl DeltaTableState {
    pub fn file_actions(&self) -> DeltaResult<Vec<Add>> {
        Ok(self.files.clone())
    }
    pub fn version(&self) -> i64 {
        self.version
    }
    fn bounds(&self, column: &Column, get: impl Fn(&crate::kernel::Stats) -> Option<Value>) -> Option<ArrayRef> {
        let f = self.schema.field_with_name(&column.name).ok()?;
        let vals: Vec<ScalarValue> = self
            .files
            .iter()
            .map(|a| {
                let null = ScalarValue::Null;
                let Ok(Some(s)) = a.get_json_stats() else { return null };
                match (get(&s), f.data_type()) {
                    (Some(Value::Bool(b)), _) => ScalarValue::Boolean(Some(b)),
                    (Some(Value::String(s)), _) => ScalarValue::Utf8(Some(s)),
                    (Some(Value::Number(n)), DataType::Float32 | DataType::Float64) => ScalarValue::Float64(n.as_f64()),
                    (Some(Value::Number(n)), _) => ScalarValue::Int64(n.as_i64()),
                    _ => null,
                }
            })
            .collect();
        let proto = vals.iter().find(|v| !v.is_null()).map(|v| v.data_type());
        let arr = match proto {
            None => return Some(new_null_array(f.data_type(), self.files.len())),
            Some(t) => {
                let typed = vals.into_iter().map(|v| if v.is_null() { ScalarValue::try_from(&t).unwrap() } else { v });
                ScalarValue::iter_to_array(typed).ok()?
            }
        };
        cast(&arr, f.data_type()).ok()
    }
}

impl PruningStatistics for DeltaTableState {
    fn min_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s| s.min_values.get(&column.name).cloned())
    }
    fn max_values(&self, column: &Column) -> Option<ArrayRef> {
        self.bounds(column, |s| s.max_values.get(&column.name).cloned())
    }
    fn num_containers(&self) -> usize {
        self.files.len()
    }
    fn null_counts(&self, column: &Column) -> Option<ArrayRef> {
        let v: Vec<Option<u64>> = self
            .files
            .iter()
            .map(|a| a.get_json_stats().ok().flatten().and_then(|s| s.null_count.get(&column.name).map(|n| *n as u64)))
            .collect();
        Some(Arc::new(UInt64Array::from(v)))
    }
    fn row_counts(&self, _column: &Column) -> Option<ArrayRef> {
        let v: Vec<Option<u64>> =
            self.files.iter().map(|a| a.get_json_stats().ok().flatten().map(|s| s.num_records as u64)).collect();
        Some(Arc::new(UInt64Array::from(v)))
    }
    fn contained(&self, _column: &Column, _values: &HashSet<ScalarValue>) -> Option<BooleanArray> {
        None
    }
}

#[derive(Debug, Clone, Default)]
pub struct DeltaTableConfig {}

#[derive(Clone)]
pub struct DeltaTable {
    state: Option<DeltaTableState>,
    log_store: Arc<dyn LogStore>,
}

impl DeltaTable {
    pub fn new(log_store: Arc<dyn LogStore>, _config: DeltaTableConfig) -> Self {
        DeltaTable { state: None, log_store }
    }
    pub fn log_store(&self) -> Arc<dyn LogStore> {
        self.log_store.clone()
    }
    pub fn object_store(&self) -> ObjectStoreRef {
        self.log_store.object_store()
    }
    pub fn table_uri(&self) -> String {
        self.log_store.root_uri()
    }
    pub fn version(&self) -> i64 {
        self.state.as_ref().map_or(-1, |s| s.version)
    }
    pub fn snapshot(&self) -> DeltaResult<&DeltaTableState> {
        self.state.as_ref().ok_or(DeltaTableError::NotInitialized)
    }
    pub fn get_files_count(&self) -> usize {
        self.state.as_ref().map_or(0, |s| s.files.len())
    }
    pub async fn load(&mut self) -> DeltaResult<()> {
        let v = versions(&self.log_store).await?;
        let last = v.last().ok_or_else(|| self.not_a_table())?.0;
        self.load_version(last).await
    }
    fn not_a_table(&self) -> DeltaTableError {
        DeltaTableError::NotATable(format!("no log files at {}", self.table_uri()))
    }
    pub async fn load_version(&mut self, version: i64) -> DeltaResult<()> {
        let mut metadata = None;
        let mut files: Vec<Add> = vec![];
        let mut tombstones: Vec<Remove> = vec![];
        let from = match &self.state {
            Some(s) if s.version <= version => {
                metadata = Some(s.metadata.clone());
                files = s.files.clone();
                tombstones = s.tombstones.clone();
                s.version + 1
            }
            _ => 0,
        };
        for v in from..=version {
            let mut added = vec![];
            for a in read_commit(&self.log_store, v).await.map_err(|e| match e {
                DeltaTableError::ObjectStore { source: object_store::Error::NotFound { .. } } => {
                    DeltaTableError::InvalidVersion(v)
                }
                e => e,
            })? {
                match a {
                    Action::Metadata(m) => metadata = Some(m),
                    Action::Add(a) => {
                        tombstones.retain(|t| t.path != a.path);
                        added.push(a)
                    }
                    Action::Remove(r) => {
                        files.retain(|f| f.path != r.path);
                        tombstones.push(r);
                    }
                    Action::CommitInfo(_) => {}
                }
            }
            added.extend(files);
            files = added;
        }
        let metadata = metadata.ok_or_else(|| self.not_a_table())?;
        let schema = Arc::new(metadata.schema.clone());
        self.state = Some(DeltaTableState { version, metadata, schema, files, tombstones });
        Ok(())
    }
    /// The newest version not written after `when`, as delta-rs finds it by bisection; the oldest if there is none.
    pub async fn load_with_datetime(&mut self, when: DateTime<Utc>) -> DeltaResult<()> {
        let all = versions(&self.log_store).await?;
        let lowest = all.first().ok_or_else(|| self.not_a_table())?.0;
        let target = when.timestamp_millis();
        let (mut min, mut max) = (lowest, all.last().unwrap().0);
        let mut version = min;
        while min <= max {
            let pivot = (max + min) / 2;
            version = pivot;
            let at = all.iter().find(|(v, _)| *v == pivot).ok_or(DeltaTableError::InvalidVersion(pivot))?.1;
            match at.cmp(&target) {
                std::cmp::Ordering::Equal => break,
                std::cmp::Ordering::Less => min = pivot + 1,
                std::cmp::Ordering::Greater => {
                    max = pivot - 1;
                    version = max;
                }
            }
        }
        self.load_version(version.max(lowest)).await
    }
    /// Commit information, newest first.
    pub async fn history(&self, limit: Option<usize>) -> DeltaResult<Vec<CommitInfo>> {
        let mut out = vec![];
        let mut v = self.version();
        while v >= 0 && limit.map_or(true, |l| out.len() < l) {
            for a in read_commit(&self.log_store, v).await? {
                if let Action::CommitInfo(c) = a {
                    out.push(c);
                }
            }
            v -= 1;
        }
        if let Some(l) = limit {
            out.truncate(l);
        }
        Ok(out)
    }
}

impl fmt::Display for DeltaTable {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        writeln!(f, "DeltaTable({})", self.table_uri())?;
        writeln!(f, "\tversion: {}", self.version())
    }
}
impl fmt::Debug for DeltaTable {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DeltaTable <{}>", self.table_uri())
    }
}

fn scan_files(
    session: &dyn Session,
    ls: &Arc<dyn LogStore>,
    schema: SchemaRef,
    files: &[Add],
    projection: Option<&Vec<usize>>,
    limit: Option<usize>,
) -> Result<Arc<dyn ExecutionPlan>> {
    let u = ls.root_url();
    let name: String = format!("{}{}", u.host_str().unwrap_or("-"), u.path())
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
        .collect();
    let url = ObjectStoreUrl::parse(format!("delta-rs://{}-{name}", u.scheme()))?;
    session.runtime_env().register_object_store(url.as_ref(), ls.object_store());
    let group: Vec<PartitionedFile> = files.iter().map(|a| PartitionedFile::new(a.path.clone(), a.size as u64)).collect();
    let cfg = FileScanConfig::new(url, schema)
        .with_file_group(group)
        .with_projection(projection.cloned())
        .with_limit(limit);
    Ok(ParquetExecBuilder::new(cfg).build_arc())
}

/// The files a filter cannot rule out, by their statistics.
fn pruned(state: &DeltaTableState, filters: &[Expr]) -> Result<Vec<Add>> {
    let Some(filter) = conjunction(filters.iter().cloned()) else { return Ok(state.files.clone()) };
    let df_schema = DFSchema::try_from(state.schema.as_ref().clone())?;
    let expr = datafusion::physical_expr::create_physical_expr(
        &filter,
        &df_schema,
        &datafusion::execution::context::ExecutionProps::new(),
    )
    .or_else(|_| {
        // filters may carry the qualifier of the table
        use datafusion::common::tree_node::{Transformed, TreeNode};
        let f = filter
            .clone()
            .transform(|e| {
                Ok(match e {
                    Expr::Column(c) => Transformed::yes(Expr::Column(Column::new_unqualified(c.name))),
                    e => Transformed::no(e),
                })
            })?
            .data;
        datafusion::physical_expr::create_physical_expr(
            &f,
            &df_schema,
            &datafusion::execution::context::ExecutionProps::new(),
        )
    })?;
    let keep = PruningPredicate::try_new(expr, state.schema.clone())?.prune(state)?;
    Ok(state.files.iter().zip(keep).filter(|(_, k)| *k).map(|(a, _)| a.clone()).collect())
}

#[async_trait::async_trait]
impl TableProvider for DeltaTable {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        // delta-rs panics here on a table that was not loaded
        self.snapshot().expect("Tried to access schema of a table that was not loaded").schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    fn supports_filters_pushdown(&self, f: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; f.len()])
    }
    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let s = self.snapshot().map_err(DataFusionError::from)?;
        let files = pruned(s, filters)?;
        scan_files(session, &self.log_store, s.schema.clone(), &files, projection, limit)
    }
}

#[derive(Debug, Clone, Default)]
pub struct DeltaScanConfig {}

#[derive(Debug, Clone)]
pub struct DeltaTableProvider {
    snapshot: DeltaTableState,
    log_store: Arc<dyn LogStore>,
    files: Option<Vec<Add>>,
}
impl DeltaTableProvider {
    pub fn try_new(snapshot: DeltaTableState, log_store: Arc<dyn LogStore>, _c: DeltaScanConfig) -> DeltaResult<Self> {
        Ok(DeltaTableProvider { snapshot, log_store, files: None })
    }
    pub fn with_files(mut self, files: Vec<Add>) -> Self {
        self.files = Some(files);
        self
    }
}
#[async_trait::async_trait]
impl TableProvider for DeltaTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        self.snapshot.schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    fn supports_filters_pushdown(&self, f: &[&Expr]) -> Result<Vec<TableProviderFilterPushDown>> {
        Ok(vec![TableProviderFilterPushDown::Inexact; f.len()])
    }
    async fn scan(
        &self,
        session: &dyn Session,
        projection: Option<&Vec<usize>>,
        filters: &[Expr],
        limit: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        let files = match &self.files {
            Some(f) => f.clone(),
            None => pruned(&self.snapshot, filters)?,
        };
        scan_files(session, &self.log_store, self.snapshot.schema.clone(), &files, projection, limit)
    }
}
