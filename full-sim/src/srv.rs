//! A simulated server: the real context and front ends over a simulated object store.
use asim::store::SimStore;
use object_store_factory::ObjectStoreConfig;
use seafowl::catalog::metastore::Metastore;
use seafowl::config::context::build_context;
use seafowl::config::schema::{DataSyncConfig, Misc, SeafowlConfig};
use seafowl::context::SeafowlContext;
use seafowl::repository::interface::Repository;
use std::sync::Arc;

pub struct Conf {
    pub max_partition_size: u32,
    pub sync: DataSyncConfig,
}

pub async fn context(store: &SimStore, repo: Option<Arc<dyn Repository>>, conf: &Conf) -> SeafowlContext {
    asim::store::provide(Some(store.clone()));
    let config = SeafowlConfig {
        object_store: Some(ObjectStoreConfig::Memory),
        catalog: None,
        frontend: Default::default(),
        runtime: Default::default(),
        misc: Misc { max_partition_size: conf.max_partition_size, sync_conf: conf.sync.clone(), ..Default::default() },
    };
    let mut ctx = build_context(config).await.expect("context");
    asim::store::provide(None);
    if let Some(repo) = repo {
        let stores = ctx.metastore.object_stores.clone();
        ctx.metastore = Arc::new(Metastore::new_from_repository(repo, stores));
    }
    ctx
}

/// A directory of this run's own for temporary files.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let d = std::path::PathBuf::from(format!("/tmp/full-sim-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("TMPDIR", &d);
        Scratch(d)
    }
    pub fn files(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
