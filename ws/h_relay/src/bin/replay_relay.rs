#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_relay::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
