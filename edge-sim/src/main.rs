mod files;
mod gate;
mod pool;
mod sim;
mod wasm;

#[global_allocator]
static ALLOC: wasm::Counting = wasm::Counting;

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    simcore::main_for::<sim::EdgeSim>();
}
