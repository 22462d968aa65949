// Partial crate root over /repo's own files (the whole crate needs forks that cannot be fetched).
#![feature(let_chains)]
#![allow(dead_code, unused_imports)]
#[path = "/repo/src/repository/mod.rs"]
pub mod repository;
#[path = "/repo/src/wasm_udf/mod.rs"]
pub mod wasm_udf;
pub mod catalog {
    include!(concat!(env!("OUT_DIR"), "/catalog_consts.rs"));
}
extern crate lazy_static;
