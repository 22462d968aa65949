#![feature(let_chains)]
mod model;
mod sim;
mod vfs;
mod world;
fn main() {
    simcore::main_for::<sim::CatalogSim>();
}
