//! Stand-in for delta-rs: tables as a log of JSON commits (`_delta_log/<version>.json`) in an object
//! store, optimistic commits with delta-rs' conflict rules, scans through DataFusion's ParquetExec.
//! No checkpoints, no partition columns, no deletion vectors.
pub mod commit;
pub mod ops;
pub mod table;

pub use datafusion;
pub use object_store::path::Path;
pub use parquet;
pub use table::DeltaTable;

pub type DeltaResult<T, E = errors::DeltaTableError> = Result<T, E>;
pub use errors::DeltaTableError;

pub mod errors {
    use datafusion::error::DataFusionError;
    #[derive(Debug, thiserror::Error)]
    pub enum DeltaTableError {
        #[error("Failed to read delta log object: {source}")]
        ObjectStore {
            #[from]
            source: object_store::Error,
        },
        #[error("Not a Delta table: {0}")]
        NotATable(String),
        #[error("Invalid table version: {0}")]
        InvalidVersion(i64),
        #[error("Invalid table location: {0}")]
        InvalidTableLocation(String),
        #[error("Delta transaction failed, version {0} already exists.")]
        VersionAlreadyExists(i64),
        #[error("Transaction failed: {0}")]
        CommitConflict(String),
        #[error("Table has not yet been initialized")]
        NotInitialized,
        #[error("{0}")]
        Generic(String),
        #[error("Invalid JSON in log record: {0}")]
        Json(#[from] serde_json::Error),
        #[error("Arrow error: {0}")]
        Arrow(#[from] arrow_schema::ArrowError),
        #[error("Parquet error: {0}")]
        Parquet(#[from] parquet::errors::ParquetError),
        #[error("{0}")]
        DataFusion(#[from] DataFusionError),
    }
    impl From<DeltaTableError> for DataFusionError {
        fn from(e: DeltaTableError) -> Self {
            match e {
                DeltaTableError::ObjectStore { source } => DataFusionError::ObjectStore(source),
                DeltaTableError::Arrow(a) => DataFusionError::ArrowError(a, None),
                DeltaTableError::DataFusion(d) => d,
                e => DataFusionError::External(Box::new(e)),
            }
        }
    }
}

pub mod kernel {
    use arrow_schema::{ArrowError, DataType, Field, TimeUnit};
    use serde::{Deserialize, Serialize};
    use serde_json::Value;
    use std::collections::HashMap;

    pub type StructField = Field;

    /// A Delta schema: arrow fields restricted to the types Delta has.
    #[derive(Debug, Clone, PartialEq)]
    pub struct Schema(pub Vec<StructField>);

    fn delta_type(t: &DataType) -> Result<DataType, ArrowError> {
        Ok(match t {
            DataType::Utf8 | DataType::LargeUtf8 => DataType::Utf8,
            DataType::Int64 | DataType::UInt64 => DataType::Int64,
            DataType::Int32 | DataType::UInt32 => DataType::Int32,
            DataType::Int16 | DataType::UInt16 => DataType::Int16,
            DataType::Int8 | DataType::UInt8 => DataType::Int8,
            DataType::Float32 | DataType::Float64 | DataType::Boolean => t.clone(),
            DataType::Binary | DataType::LargeBinary | DataType::FixedSizeBinary(_) => DataType::Binary,
            DataType::Decimal128(p, s) | DataType::Decimal256(p, s) => DataType::Decimal128(*p, *s),
            DataType::Date32 | DataType::Date64 => DataType::Date32,
            DataType::Timestamp(TimeUnit::Microsecond, None) => t.clone(),
            DataType::Timestamp(TimeUnit::Microsecond, Some(tz)) if tz.eq_ignore_ascii_case("utc") => t.clone(),
            DataType::List(_) | DataType::Struct(_) | DataType::Map(..) => t.clone(),
            t => return Err(ArrowError::SchemaError(format!("Invalid data type for Delta Lake: {t}"))),
        })
    }
    impl Schema {
        pub fn fields(&self) -> impl Iterator<Item = &StructField> {
            self.0.iter()
        }
    }
    impl TryFrom<&arrow_schema::Schema> for Schema {
        type Error = ArrowError;
        fn try_from(s: &arrow_schema::Schema) -> Result<Self, ArrowError> {
            Ok(Schema(
                s.fields()
                    .iter()
                    .map(|f| Ok(Field::new(f.name(), delta_type(f.data_type())?, f.is_nullable())))
                    .collect::<Result<_, ArrowError>>()?,
            ))
        }
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Add {
        pub path: String,
        pub partition_values: HashMap<String, Option<String>>,
        pub size: i64,
        pub modification_time: i64,
        pub data_change: bool,
        pub stats: Option<String>,
    }
    #[derive(Debug, Clone, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase", default)]
    pub struct Stats {
        pub num_records: i64,
        pub min_values: HashMap<String, Value>,
        pub max_values: HashMap<String, Value>,
        pub null_count: HashMap<String, i64>,
    }
    impl Add {
        pub fn get_json_stats(&self) -> Result<Option<Stats>, serde_json::Error> {
            self.stats.as_ref().map(|s| serde_json::from_str(s)).transpose()
        }
    }

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    pub struct DeletionVectorDescriptor {}

    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Remove {
        pub path: String,
        pub data_change: bool,
        pub deletion_timestamp: Option<i64>,
        pub extended_file_metadata: Option<bool>,
        pub partition_values: Option<HashMap<String, Option<String>>>,
        pub size: Option<i64>,
        pub tags: Option<HashMap<String, Option<String>>>,
        pub deletion_vector: Option<DeletionVectorDescriptor>,
        pub base_row_id: Option<i64>,
        pub default_row_commit_version: Option<i64>,
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct Metadata {
        pub id: uuid::Uuid,
        pub name: Option<String>,
        pub description: Option<String>,
        pub schema: arrow_schema::Schema,
        pub created_time: i64,
    }
    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
    pub struct CommitInfo {
        pub timestamp: Option<i64>,
        pub operation: Option<String>,
        #[serde(flatten)]
        pub info: HashMap<String, Value>,
    }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub enum Action {
        #[serde(rename = "metaData")]
        Metadata(Metadata),
        Add(Add),
        Remove(Remove),
        CommitInfo(CommitInfo),
    }
    impl Action {
        pub fn commit_info(info: HashMap<String, Value>) -> Self {
            Action::CommitInfo(CommitInfo {
                timestamp: Some(chrono::Utc::now().timestamp_millis()),
                operation: None,
                info,
            })
        }
    }
}

pub mod protocol {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum SaveMode {
        Append,
        Overwrite,
        ErrorIfExists,
        Ignore,
    }
    #[derive(Debug, Clone)]
    pub enum DeltaOperation {
        Create,
        Convert,
        Write { mode: SaveMode, partition_by: Option<Vec<String>>, predicate: Option<String> },
        Delete { predicate: Option<String> },
        VacuumStart,
        VacuumEnd,
    }
    impl DeltaOperation {
        pub fn name(&self) -> &str {
            match self {
                DeltaOperation::Create => "CREATE TABLE",
                DeltaOperation::Convert => "CONVERT",
                DeltaOperation::Write { .. } => "WRITE",
                DeltaOperation::Delete { .. } => "DELETE",
                DeltaOperation::VacuumStart => "VACUUM START",
                DeltaOperation::VacuumEnd => "VACUUM END",
            }
        }
    }
}

pub mod storage {
    use dashmap::DashMap;
    use object_store::path::Path;
    use std::collections::HashMap;
    use std::sync::{Arc, OnceLock};
    use url::Url;

    pub type ObjectStoreRef = Arc<dyn object_store::ObjectStore>;
    #[derive(Clone, Debug, Default)]
    pub struct StorageOptions(pub HashMap<String, String>);
    pub trait ObjectStoreFactory: Send + Sync {
        fn parse_url_opts(&self, url: &Url, options: &StorageOptions) -> crate::DeltaResult<(ObjectStoreRef, Path)>;
    }
    /// Real delta-rs keeps every registered factory for the life of the process; here they are dropped.
    #[derive(Clone, Default)]
    pub struct FactoryRegistry(Arc<DashMap<Url, ()>>);
    impl FactoryRegistry {
        pub fn insert(&self, url: Url, _f: Arc<dyn ObjectStoreFactory>) {
            self.0.insert(url, ());
        }
    }
    pub fn factories() -> FactoryRegistry {
        static R: OnceLock<FactoryRegistry> = OnceLock::new();
        R.get_or_init(Default::default).clone()
    }
}

pub mod logstore {
    use crate::storage::{ObjectStoreRef, StorageOptions};
    use crate::DeltaResult;
    use futures::StreamExt;
    use object_store::path::Path;
    use std::sync::Arc;
    use url::Url;

    #[async_trait::async_trait]
    pub trait LogStore: Send + Sync + std::fmt::Debug {
        fn name(&self) -> String;
        fn root_uri(&self) -> String;
        fn root_url(&self) -> &Url;
        fn object_store(&self) -> ObjectStoreRef;
        fn log_path(&self) -> Path {
            Path::from("_delta_log")
        }
        async fn is_delta_table_location(&self) -> DeltaResult<bool>;
    }
    pub type LogStoreRef = Arc<dyn LogStore>;

    #[derive(Debug, Clone)]
    pub struct DefaultLogStore {
        store: ObjectStoreRef,
        url: Url,
    }
    pub fn default_logstore(store: ObjectStoreRef, location: &Url, _o: &StorageOptions) -> Arc<dyn LogStore> {
        Arc::new(DefaultLogStore { store, url: location.clone() })
    }

    #[async_trait::async_trait]
    impl LogStore for DefaultLogStore {
        fn name(&self) -> String {
            "DefaultLogStore".into()
        }
        // delta-rs' `to_uri`: a path for local tables, the URL without its trailing slash otherwise
        fn root_uri(&self) -> String {
            match self.url.scheme() {
                "file" => self.url.path().trim_end_matches('/').to_string(),
                _ => self.url.as_str().trim_end_matches('/').to_string(),
            }
        }
        fn root_url(&self) -> &Url {
            &self.url
        }
        fn object_store(&self) -> ObjectStoreRef {
            self.store.clone()
        }
        async fn is_delta_table_location(&self) -> DeltaResult<bool> {
            let p = self.log_path();
            let mut s = self.store.list(Some(&p));
            match s.next().await {
                Some(Ok(_)) => Ok(true),
                Some(Err(object_store::Error::NotFound { .. })) | None => Ok(false),
                Some(Err(e)) => Err(e.into()),
            }
        }
    }
}

pub mod operations {
    pub use crate::commit as transaction;
    pub use crate::ops::{convert_to_delta, create, vacuum};
}

pub mod delta_datafusion {
    pub use crate::table::{DeltaScanConfig, DeltaTableProvider};
    use datafusion::catalog::{Session, TableProvider, TableProviderFactory};
    use datafusion::error::{DataFusionError, Result};
    use datafusion::logical_expr::CreateExternalTable;
    use std::sync::Arc;

    #[derive(Debug)]
    pub struct DeltaTableFactory {}
    #[async_trait::async_trait]
    impl TableProviderFactory for DeltaTableFactory {
        async fn create(&self, _s: &dyn Session, _c: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> {
            Err(DataFusionError::NotImplemented("external Delta tables".into()))
        }
    }
}

pub mod writer {
    use crate::kernel::Add;
    use crate::DeltaTableError;
    use indexmap::IndexMap;
    use parquet::file::metadata::RowGroupMetaData;
    use parquet::file::statistics::Statistics;
    use parquet::format::FileMetaData;
    use parquet::schema::types::{from_thrift, SchemaDescriptor};
    use serde_json::{json, Map, Value};
    use std::sync::Arc;

    fn value(s: &Statistics, max: bool, utf8: bool) -> Option<Value> {
        macro_rules! v {
            ($s:expr) => {
                if max {
                    $s.max_opt()
                } else {
                    $s.min_opt()
                }
            };
        }
        Some(match s {
            Statistics::Boolean(s) => json!(v!(s)?),
            Statistics::Int32(s) => json!(v!(s)?),
            Statistics::Int64(s) => json!(v!(s)?),
            Statistics::Float(s) => {
                let f = *v!(s)? as f64;
                f.is_finite().then(|| json!(f))?
            }
            Statistics::Double(s) => {
                let f = *v!(s)?;
                f.is_finite().then(|| json!(f))?
            }
            Statistics::ByteArray(s) if utf8 => json!(v!(s)?.as_utf8().ok()?),
            _ => return None,
        })
    }
    fn less(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
                (Some(x), Some(y)) => x < y,
                _ => x.as_f64() < y.as_f64(),
            },
            (Value::String(x), Value::String(y)) => x < y,
            (Value::Bool(x), Value::Bool(y)) => !*x & *y,
            _ => false,
        }
    }

    /// The `add` action of a written file: minimum, maximum and null count of every column.
    pub fn create_add(
        _partition_values: &IndexMap<String, Value>,
        path: String,
        size: i64,
        meta: &FileMetaData,
        _num_indexed_cols: i32,
        _stats_columns: &Option<Vec<impl AsRef<str>>>,
    ) -> Result<Add, DeltaTableError> {
        let schema = Arc::new(SchemaDescriptor::new(from_thrift(&meta.schema)?));
        let (mut min, mut max, mut nulls) = (Map::new(), Map::new(), Map::new());
        let cols = schema.num_columns();
        let (mut lost_min, mut lost_max) = (vec![false; cols], vec![false; cols]);
        for rg in &meta.row_groups {
            let rg = RowGroupMetaData::from_thrift(schema.clone(), rg.clone())?;
            for (i, c) in rg.columns().iter().enumerate() {
                if c.column_path().parts().len() != 1 {
                    continue;
                }
                let name = c.column_path().parts()[0].clone();
                let Some(s) = c.statistics() else {
                    (lost_min[i], lost_max[i]) = (true, true);
                    continue;
                };
                let descr = c.column_descr();
                // decimals, dates and timestamps are left without bounds
                let utf8 = matches!(descr.logical_type(), Some(parquet::basic::LogicalType::String));
                let plain = match descr.logical_type() {
                    None | Some(parquet::basic::LogicalType::String) | Some(parquet::basic::LogicalType::Integer { .. }) => true,
                    _ => false,
                };
                let null_count = s.null_count_opt().unwrap_or(0);
                let n = nulls.get(&name).and_then(|v: &Value| v.as_i64()).unwrap_or(0) + null_count as i64;
                nulls.insert(name.clone(), json!(n));
                if !plain || null_count as i64 == rg.num_rows() {
                    continue;
                }
                for (bounds, lost, is_max) in [(&mut min, &mut lost_min, false), (&mut max, &mut lost_max, true)] {
                    match value(s, is_max, utf8) {
                        None => lost[i] = true,
                        Some(v) => {
                            let better = match bounds.get(&name) {
                                None => true,
                                Some(o) => {
                                    if is_max {
                                        less(o, &v)
                                    } else {
                                        less(&v, o)
                                    }
                                }
                            };
                            if better {
                                bounds.insert(name.clone(), v);
                            }
                        }
                    }
                }
            }
        }
        for i in 0..cols {
            let name = &schema.column(i).path().parts()[0].clone();
            if lost_min[i] {
                min.remove(name);
            }
            if lost_max[i] {
                max.remove(name);
            }
        }
        let stats = json!({"numRecords": meta.num_rows, "minValues": min, "maxValues": max, "nullCount": nulls});
        Ok(Add {
            path,
            partition_values: Default::default(),
            size,
            modification_time: chrono::Utc::now().timestamp_millis(),
            data_change: true,
            stats: Some(stats.to_string()),
        })
    }
}
