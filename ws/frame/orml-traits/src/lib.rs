//! Stand-in for orml-traits.
pub mod currency;
pub use currency::{GetByKey, LockIdentifier, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency};
pub use frame_support::traits::BalanceStatus;
pub use sp_runtime::FixedU128;

pub trait DataProvider<K, V> {
    fn get(key: &K) -> Option<V>;
}
pub trait DataFeeder<K, V, A>: DataProvider<K, V> {
    fn feed_value(who: Option<A>, key: K, value: V) -> sp_runtime::DispatchResult;
}
pub trait DataProviderExtended<K, V> {
    fn get_no_op(key: &K) -> Option<V>;
    fn get_all_values() -> sp_std::vec::Vec<(K, Option<V>)>;
}
