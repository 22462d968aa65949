// src/catalog/mod.rs itself needs the iceberg fork, but the tests of src/repository need its
// DEFAULT_SCHEMA: take its string constants over verbatim.
use std::{env, fs, path::Path};

fn main() {
    let source = "/repo/src/catalog/mod.rs";
    println!("cargo:rerun-if-changed={source}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/migrations");
    println!("cargo:rerun-if-changed=/repo/resources");
    // check.sh: a change of content rebuilds whatever the file times say
    println!("cargo:rerun-if-env-changed=REPO_HASH");
    println!("cargo:rustc-env=REPO_HASH={}", env::var("REPO_HASH").unwrap_or_default());
    let consts: String = fs::read_to_string(source)
        .unwrap()
        .lines()
        .filter(|l| l.starts_with("pub const ") && l.ends_with("\";"))
        .map(|l| format!("{l}\n"))
        .collect();
    assert!(consts.contains("DEFAULT_SCHEMA"), "no DEFAULT_SCHEMA in {source}");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("catalog_consts.rs"), consts).unwrap();
}
