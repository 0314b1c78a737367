//! Stand-in for sp-core: the fixed-width types the pallets use.
pub use primitive_types::{H160, H256, U256};
