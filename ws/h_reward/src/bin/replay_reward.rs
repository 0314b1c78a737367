#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_reward::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
