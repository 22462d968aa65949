//! The catalog: the real SQLite one behind operations of the simulator. Each call takes effect at one
//! point or not at all (what happens inside one is the catalog simulator's matter).
use arrow_schema::Schema;
use asim::{op, Verdict};
use async_trait::async_trait;
use seafowl::repository::interface::*;
use seafowl::repository::sqlite::SqliteRepository;
use seafowl::wasm_udf::data_types::CreateFunctionDetails;
use sqlx::sqlite::SqliteJournalMode;
use std::future::Future;
use std::sync::Arc;
use uuid::Uuid;

pub struct Host {
    rt: tokio::runtime::Runtime,
    pub repo: SqliteRepository,
    written: std::sync::Mutex<Vec<String>>,
}
impl std::fmt::Debug for Host {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Host")
    }
}
impl Host {
    pub fn new() -> Arc<Host> {
        std::thread::scope(|s| {
            s.spawn(|| {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let repo = rt.block_on(SqliteRepository::try_new("sqlite://:memory:".into(), SqliteJournalMode::Memory)).unwrap();
                rt.block_on(async {
                    let d = repo.create_database("default").await.unwrap();
                    repo.create_collection(d, "public").await.unwrap();
                });
                Arc::new(Host { rt, repo, written: Default::default() })
            })
            .join()
            .unwrap()
        })
    }
    /// The changes since the last call.
    pub fn writes(&self) -> Vec<String> {
        std::mem::take(&mut self.written.lock().unwrap())
    }
    pub fn wrote(&self, what: &str) {
        self.written.lock().unwrap().push(what.into());
    }
    pub fn now<T: Send>(&self, f: impl Future<Output = T> + Send) -> T {
        std::thread::scope(|s| s.spawn(|| self.rt.block_on(f)).join().unwrap())
    }
}

#[derive(Debug, Clone)]
pub struct SimRepo(pub Arc<Host>);

fn broken() -> Error {
    Error::SqlxError(sqlx::Error::Io(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "injected")))
}

impl SimRepo {
    async fn at<T: Send>(&self, name: &str, write: bool, f: impl Future<Output = Result<T>> + Send) -> Result<T> {
        let v = op(format!("{}{name}", if write { "catalog-" } else { "catalog " }), true, write).await;
        if v == Verdict::Fail {
            return Err(broken());
        }
        let r = self.0.now(f);
        if write {
            self.0.written.lock().unwrap().push(name.to_string());
        }
        if v == Verdict::FailAfter {
            return Err(broken());
        }
        r
    }
}

macro_rules! forward {
    ($($w:literal $n:ident ($($a:ident : $t:ty),*) -> $r:ty;)*) => {
        #[async_trait]
        impl Repository for SimRepo {
            async fn setup(&self) {}
            $(async fn $n(&self, $($a: $t),*) -> $r {
                self.at(stringify!($n), $w, self.0.repo.$n($($a),*)).await
            })*
        }
    };
}
forward! {
    false list_collections(database_name: &str) -> Result<Vec<AllDatabaseColumnsResult>, Error>;
    false get_database(name: &str) -> Result<DatabaseRecord, Error>;
    false get_collection(database_name: &str, collection_name: &str) -> Result<CollectionRecord, Error>;
    false get_table(database_name: &str, collection_name: &str, table_name: &str) -> Result<TableRecord, Error>;
    true create_database(database_name: &str) -> Result<DatabaseId, Error>;
    true create_collection(database_id: DatabaseId, collection_name: &str) -> Result<CollectionId, Error>;
    true create_table(collection_id: CollectionId, table_name: &str, schema: &Schema, uuid: Uuid) -> Result<(TableId, TableVersionId), Error>;
    true delete_old_versions(table_id: TableId) -> Result<u64, Error>;
    true create_new_version(uuid: Uuid, version: i64) -> Result<TableVersionId, Error>;
    false get_all_versions(database_name: &str, table_names: Option<Vec<String>>) -> Result<Vec<TableVersionsResult>>;
    true rename_table(table_id: TableId, new_table_name: &str, new_collection_id: Option<CollectionId>) -> Result<(), Error>;
    true create_function(database_id: DatabaseId, function_name: &str, or_replace: bool, details: &CreateFunctionDetails) -> Result<FunctionId, Error>;
    false get_all_functions_in_database(database_id: DatabaseId) -> Result<Vec<AllDatabaseFunctionsResult>, Error>;
    true drop_function(database_id: DatabaseId, func_names: &[String]) -> Result<(), Error>;
    true delete_table(table_id: TableId) -> Result<(), Error>;
    true delete_collection(collection_id: CollectionId) -> Result<(), Error>;
    true delete_database(database_id: DatabaseId) -> Result<(), Error>;
    false get_dropped_tables(database_name: Option<String>) -> Result<Vec<DroppedTablesResult>>;
    true update_dropped_table(uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error>;
    true delete_dropped_table(uuid: Uuid) -> Result<(), Error>;
}
