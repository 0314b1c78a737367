use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use core::fmt::Debug;
use crate::weights::Weight;
pub use sp_arithmetic::traits::{AtLeast32Bit, AtLeast32BitUnsigned, Bounded, Saturating, Zero};
pub use bounded_collections::{ConstBool, ConstI128, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet};
pub use crate::storage::types::GetDefault;
pub use sp_runtime::{DispatchError, DispatchResult};

pub trait IsType<T>: Into<T> + From<T> {}
impl<T> IsType<T> for T {}

pub trait Hooks<BlockNumber> {
    fn on_initialize(_: BlockNumber) -> Weight {
        Weight::zero()
    }
    fn on_finalize(_: BlockNumber) {}
    fn on_idle(_: BlockNumber, _: Weight) -> Weight {
        Weight::zero()
    }
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
    fn offchain_worker(_: BlockNumber) {}
    fn integrity_test() {}
}
pub trait OnInitialize<B> {
    fn on_initialize(_: B) -> Weight {
        Weight::zero()
    }
}
pub trait OnRuntimeUpgrade {
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
}
impl OnRuntimeUpgrade for () {}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, PartialOrd, Ord)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self {
        Self(v)
    }
    pub fn get<P>() -> Self {
        Self(0)
    }
    pub fn put<P>(&self) {}
}
impl PartialEq<u16> for StorageVersion {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
pub trait EnsureOrigin<O> {
    type Success;
    fn ensure_origin(o: O) -> Result<Self::Success, sp_runtime::traits::BadOrigin> {
        Self::try_origin(o).map_err(|_| sp_runtime::traits::BadOrigin)
    }
    fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub trait Contains<T> {
    fn contains(t: &T) -> bool;
}
pub struct Everything;
impl<T> Contains<T> for Everything {
    fn contains(_: &T) -> bool {
        true
    }
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
    fn contains(_: &T) -> bool {
        false
    }
}
pub trait UnixTime {
    fn now() -> core::time::Duration;
}
pub trait Time {
    type Moment: AtLeast32Bit + Copy;
    fn now() -> Self::Moment;
}
pub trait IsSubType<T> {
    fn is_sub_type(&self) -> Option<&T>;
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct CallMetadata {
    pub function_name: &'static str,
    pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}
pub trait ValidatorRegistration<Id> {
    fn is_registered(id: &Id) -> bool;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BalanceStatus {
    Free,
    Reserved,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
    KeepAlive,
    AllowDeath,
}
pub type LockIdentifier = [u8; 8];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(pub u8);
impl WithdrawReasons {
    pub const TRANSACTION_PAYMENT: Self = Self(1);
    pub const TRANSFER: Self = Self(2);
    pub const RESERVE: Self = Self(4);
    pub const FEE: Self = Self(8);
    pub const TIP: Self = Self(16);
    pub fn all() -> Self {
        Self(31)
    }
    pub fn except(o: Self) -> Self {
        Self(31 & !o.0)
    }
    pub fn empty() -> Self {
        Self(0)
    }
}
pub trait TryDrop: Sized {
    fn try_drop(self) -> Result<(), Self>;
}
pub trait Imbalance<Balance>: Sized + Default {
    type Opposite: Imbalance<Balance>;
    fn zero() -> Self {
        Self::default()
    }
    fn drop_zero(self) -> Result<(), Self>;
    fn split(self, amount: Balance) -> (Self, Self);
    fn merge(self, o: Self) -> Self;
    fn subsume(&mut self, o: Self);
    fn peek(&self) -> Balance;
}
pub enum SignedImbalance<B, P: Imbalance<B>> {
    Positive(P),
    Negative(P::Opposite),
}
impl<B, PositiveImbalance: Imbalance<B>> SignedImbalance<B, PositiveImbalance> {
    pub fn zero() -> Self {
        SignedImbalance::Positive(PositiveImbalance::default())
    }
}
pub trait OnUnbalanced<I> {
    fn on_unbalanced(_: I) {}
    fn on_nonzero_unbalanced(_: I) {}
}
impl<I> OnUnbalanced<I> for () {}
pub trait Currency<AccountId> {
    type Balance: AtLeast32BitUnsigned + FullCodec + Copy + Debug + Default + scale_info::TypeInfo + MaxEncodedLen + sp_arithmetic::FixedPointOperand;
    type PositiveImbalance: Imbalance<Self::Balance>;
    type NegativeImbalance: Imbalance<Self::Balance>;
    fn total_balance(who: &AccountId) -> Self::Balance;
    fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
    fn total_issuance() -> Self::Balance;
    fn active_issuance() -> Self::Balance {
        Self::total_issuance()
    }
    fn minimum_balance() -> Self::Balance;
    fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
    fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
    fn free_balance(who: &AccountId) -> Self::Balance;
    fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
    fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, er: ExistenceRequirement) -> DispatchResult;
    fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
    fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
    fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
        let v = value.peek();
        let _ = Self::deposit_creating(who, v);
    }
    fn withdraw(who: &AccountId, value: Self::Balance, reasons: WithdrawReasons, er: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
    fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
    fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
    fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
    fn reserved_balance(who: &AccountId) -> Self::Balance;
    fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
    fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
    fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
    type Moment;
    type MaxLocks: Get<u32>;
    fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
    fn remove_lock(id: LockIdentifier, who: &AccountId);
}
pub mod tokens {
    use super::*;
    pub use super::BalanceStatus;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Preservation {
        Expendable,
        Protect,
        Preserve,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Fortitude {
        Polite,
        Force,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Provenance {
        Minted,
        Extant,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum DepositConsequence {
        BelowMinimum,
        CannotCreate,
        UnknownAsset,
        Overflow,
        Success,
        Blocked,
    }
    impl DepositConsequence {
        pub fn into_result(self) -> DispatchResult {
            if self == Self::Success {
                Ok(())
            } else {
                Err(DispatchError::Other("deposit"))
            }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum WithdrawConsequence<B> {
        BalanceLow,
        WouldDie,
        UnknownAsset,
        Underflow,
        Overflow,
        Frozen,
        ReducedToZero(B),
        Success,
    }
    impl<B> WithdrawConsequence<B> {
        pub fn into_result(self, _: bool) -> Result<(), DispatchError> {
            match self {
                Self::Success | Self::ReducedToZero(_) => Ok(()),
                _ => Err(DispatchError::Other("withdraw")),
            }
        }
    }
    pub mod fungibles {
        use super::*;
        pub trait Inspect<AccountId> {
            type AssetId: Copy;
            type Balance: Copy;
            fn total_issuance(asset: Self::AssetId) -> Self::Balance;
            fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
            fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance {
                Self::balance(asset, who)
            }
            fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
            fn reducible_balance(asset: Self::AssetId, who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
            fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence;
            fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
            fn asset_exists(asset: Self::AssetId) -> bool;
        }
    }
}

pub trait PalletInfoAccess {
    fn name() -> &'static str;
}
