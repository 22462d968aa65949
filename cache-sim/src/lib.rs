// Partial crate root over /repo's own files (the whole crate needs forks that cannot be fetched).
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]
pub mod catalog {
    include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
}
pub mod config {
    #[path = "/repo/src/config/schema.rs"]
    pub mod schema;
}
pub mod object_store {
    #[path = "/repo/src/object_store/cache.rs"]
    pub mod cache;
    // what else in the repository the cache is asked to use
    #[path = "/repo/src/object_store/utils.rs"]
    pub mod utils;
}
