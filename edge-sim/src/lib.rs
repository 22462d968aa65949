// Partial crate root over /repo's own files (the whole crate needs forks that cannot be fetched).
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]
#[path = "/repo/src/wasm_udf/mod.rs"]
pub mod wasm_udf;
#[path = "/repo/src/memory_pool.rs"]
pub mod memory_pool;
pub mod object_store {
    #[path = "/repo/src/object_store/utils.rs"]
    pub mod utils;
}
