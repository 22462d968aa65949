// The whole crate from a copy of /repo/src in OUT_DIR: only src/context/iceberg.rs (it needs the
// iceberg fork and opendal, which cannot be fetched) is replaced. Child modules appended to a few
// files give the simulator access to what is crate-private there.
use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let target = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &target);
        } else {
            let text = fs::read(e.path()).unwrap();
            // keep the time stamp when nothing changed
            if fs::read(&target).ok().as_ref() != Some(&text) {
                fs::write(&target, text).unwrap();
            }
        }
    }
}

const ICEBERG: &str = r#"
use super::SeafowlContext;
use datafusion::error::{DataFusionError, Result};
use datafusion::physical_plan::ExecutionPlan;
use datafusion_common::TableReference;
use std::sync::Arc;
impl SeafowlContext {
    pub async fn plan_to_iceberg_table(
        &self,
        _name: impl Into<TableReference>,
        _plan: &Arc<dyn ExecutionPlan>,
    ) -> Result<()> {
        Err(DataFusionError::NotImplemented("iceberg".into()))
    }
}
"#;

const INJECT: &[(&str, &str)] = &[("frontend/flight/mod.rs", "flight.rs")];

const LIMITS: &[(&str, &str, &str)] = &[
    ("sync/planner.rs", "FINE_GRAINED_PRUNING_ROW_CRITERIA", "4"),
    ("sync/writer.rs", "MAX_ROWS_PER_SYNC", "6"),
    ("context/delta.rs", "PARTITION_FILE_MIN_PART_SIZE", "600"),
];

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=/repo/migrations");
    println!("cargo:rerun-if-env-changed=REPO_HASH");
    println!("cargo:rustc-env=REPO_HASH={}", env::var("REPO_HASH").unwrap_or_default());
    println!("cargo:rustc-env=VERGEN_RUSTC_SEMVER=1.85.0");
    let out = env::var("OUT_DIR").unwrap();
    let src = Path::new(&out).join("src");
    let _ = fs::remove_dir_all(&src);
    copy(Path::new("/repo/src"), &src);
    fs::write(src.join("context/iceberg.rs"), ICEBERG).unwrap();
    let here = env::var("CARGO_MANIFEST_DIR").unwrap();
    println!("cargo:rerun-if-changed={here}/src/inject");
    for (file, with) in INJECT {
        let mut text = fs::read_to_string(src.join(file)).unwrap();
        text.push_str(&format!("\n#[path = \"{here}/src/inject/{with}\"]\npub mod sim;\n"));
        fs::write(src.join(file), text).unwrap();
    }
    // limits far beyond what a simulated table holds: small ones, so that what lies behind them is
    // exercised too
    for (file, what, small) in LIMITS {
        let path = src.join(file);
        let text = fs::read_to_string(&path).unwrap();
        let lines: Vec<String> = text
            .lines()
            .map(|l| match l.strip_prefix("const ").and_then(|r| r.strip_prefix(what)) {
                Some(rest) if rest.starts_with(':') && l.ends_with(';') => {
                    let ty = rest[1..].split('=').next().unwrap().trim();
                    format!("const {what}: {ty} = {small};")
                }
                _ => l.to_string(),
            })
            .collect();
        fs::write(&path, lines.join("\n") + "\n").unwrap();
    }
    let mods: String = [
        "auth", "catalog", "config", "context", "datafusion", "frontend", "memory_pool", "nodes",
        "object_store", "provider", "repository", "sync", "system_tables", "utils", "version",
        "wasm_udf",
    ]
    .iter()
    .map(|m| {
        let file = [format!("{m}.rs"), format!("{m}/mod.rs")]
            .into_iter()
            .map(|f| src.join(f))
            .find(|f| f.exists())
            .unwrap_or_else(|| panic!("no module {m}"));
        format!("#[path = {file:?}]\npub mod {m};\n")
    })
    .collect();
    fs::write(Path::new(&out).join("mods.rs"), mods).unwrap();
}
