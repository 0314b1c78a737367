#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_bitcoin::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
