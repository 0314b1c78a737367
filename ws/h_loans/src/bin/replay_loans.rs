#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_loans::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
