//! seafowl itself, from /repo's own files (see build.rs), over the stand-ins of stubs/.
#![feature(let_chains)]
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
extern crate lazy_static;
