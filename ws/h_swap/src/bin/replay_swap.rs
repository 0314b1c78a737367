#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_swap::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
