#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_vault::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
