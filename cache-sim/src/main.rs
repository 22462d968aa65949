mod cache;

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    simcore::main_for::<cache::CacheSim>();
}
