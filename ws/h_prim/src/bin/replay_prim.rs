#[cfg(feature = "native")]
fn main() {
    sym::run_native(h_prim::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
