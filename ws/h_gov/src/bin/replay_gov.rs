#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_gov::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
