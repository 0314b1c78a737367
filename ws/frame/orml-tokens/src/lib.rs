//! Model of orml-tokens (existential deposits of zero): balances, reserves, locks and hooks.
use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use core::fmt::Debug;
use frame_support::storage::types::{StorageDoubleMap, StorageInstance, StorageMap, ValueQuery};
use frame_support::traits::{BalanceStatus, ExistenceRequirement, Get, Imbalance, LockIdentifier, SignedImbalance, WithdrawReasons};
use frame_support::{ensure, Blake2_128Concat};
use orml_traits::currency::*;
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Saturating, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, FixedPointOperand};
use sp_std::marker::PhantomData;
use sp_std::vec::Vec;

pub trait Config: frame_system::Config {
    type Balance: AtLeast32BitUnsigned
        + FullCodec
        + Copy
        + MaybeSerializeDeserialize
        + Debug
        + Default
        + TypeInfo
        + MaxEncodedLen
        + FixedPointOperand
        + Send
        + Sync
        + 'static;
    type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + TypeInfo + MaxEncodedLen + Ord + Send + Sync + 'static;
    type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountData<B> {
    pub free: B,
    pub reserved: B,
    pub frozen: B,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct BalanceLock<B> {
    pub id: LockIdentifier,
    pub amount: B,
}
pub enum Error<T> {
    BalanceTooLow,
    AmountIntoBalanceFailed,
    LiquidityRestrictions,
    MaxLocksExceeded,
    KeepAlive,
    ExistentialDeposit,
    DeadAccount,
    TooManyReserves,
    #[doc(hidden)]
    __Ignore(PhantomData<T>, core::convert::Infallible),
}
impl<T> From<Error<T>> for DispatchError {
    fn from(e: Error<T>) -> Self {
        let n = match e {
            Error::BalanceTooLow => 0,
            Error::AmountIntoBalanceFailed => 1,
            Error::LiquidityRestrictions => 2,
            Error::MaxLocksExceeded => 3,
            Error::KeepAlive => 4,
            Error::ExistentialDeposit => 5,
            Error::DeadAccount => 6,
            _ => 7,
        };
        DispatchError::Module(sp_runtime::ModuleError { index: 200, error: [n, 0, 0, 0], message: None })
    }
}
pub struct PA<T>(PhantomData<T>);
impl<T> StorageInstance for PA<T> {
    const ID: u64 = 11;
    fn instance() -> u64 {
        0
    }
}
pub struct PI<T>(PhantomData<T>);
impl<T> StorageInstance for PI<T> {
    const ID: u64 = 12;
    fn instance() -> u64 {
        0
    }
}
pub struct PL<T>(PhantomData<T>);
impl<T> StorageInstance for PL<T> {
    const ID: u64 = 13;
    fn instance() -> u64 {
        0
    }
}
type A<T> = <T as frame_system::Config>::AccountId;
pub type Accounts<T> = StorageDoubleMap<
    PA<T>,
    Blake2_128Concat,
    A<T>,
    Blake2_128Concat,
    <T as Config>::CurrencyId,
    AccountData<<T as Config>::Balance>,
    ValueQuery,
>;
pub type TotalIssuance<T> = StorageMap<PI<T>, Blake2_128Concat, <T as Config>::CurrencyId, <T as Config>::Balance, ValueQuery>;
pub type Locks<T> =
    StorageDoubleMap<PL<T>, Blake2_128Concat, A<T>, Blake2_128Concat, <T as Config>::CurrencyId, Vec<BalanceLock<<T as Config>::Balance>>, ValueQuery>;
pub mod module {
    pub use super::{Accounts, AccountData, Config, Error, Locks, Pallet, TotalIssuance};
}

pub struct Pallet<T>(PhantomData<T>);
type H<T> = <T as Config>::CurrencyHooks;

impl<T: Config> Pallet<T> {
    pub fn accounts(who: &A<T>, c: T::CurrencyId) -> AccountData<T::Balance> {
        Accounts::<T>::get(who, c)
    }
    /// For harnesses: sets the balances of an account and adjusts the issuance.
    pub fn put(who: &A<T>, c: T::CurrencyId, free: T::Balance, reserved: T::Balance) {
        Accounts::<T>::insert(who, c, AccountData { free, reserved, frozen: T::Balance::zero() });
    }
    pub fn set_issuance(c: T::CurrencyId, v: T::Balance) {
        TotalIssuance::<T>::insert(c, v)
    }
    fn try_mutate<R>(who: &A<T>, c: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
        let mut a = Accounts::<T>::get(who, c);
        let r = f(&mut a)?;
        Accounts::<T>::insert(who, c, a);
        Ok(r)
    }
    pub(crate) fn do_transfer(c: T::CurrencyId, from: &A<T>, to: &A<T>, amount: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if amount.is_zero() || from == to {
            return Ok(());
        }
        <H<T> as MutationHooks<_, _, _>>::PreTransfer::on_transfer(c, from, to, amount)?;
        let mut f = Accounts::<T>::get(from, c);
        let mut t = Accounts::<T>::get(to, c);
        let nf = f.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        t.free = t.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        ensure!(nf >= f.frozen, Error::<T>::LiquidityRestrictions);
        f.free = nf;
        if er == ExistenceRequirement::KeepAlive {
            ensure!(!(f.free.is_zero() && f.reserved.is_zero()), Error::<T>::KeepAlive);
        }
        Accounts::<T>::insert(from, c, f);
        Accounts::<T>::insert(to, c, t);
        <H<T> as MutationHooks<_, _, _>>::PostTransfer::on_transfer(c, from, to, amount)?;
        Ok(())
    }
    pub(crate) fn do_withdraw(c: T::CurrencyId, who: &A<T>, amount: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        <Self as MultiCurrency<A<T>>>::ensure_can_withdraw(c, who, amount)?;
        Self::try_mutate(who, c, |a| {
            a.free = a.free - amount;
            if er == ExistenceRequirement::KeepAlive {
                ensure!(!(a.free.is_zero() && a.reserved.is_zero()), Error::<T>::KeepAlive);
            }
            Ok(())
        })?;
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount));
        Ok(())
    }
    pub(crate) fn do_deposit(c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        <H<T> as MutationHooks<_, _, _>>::PreDeposit::on_deposit(c, who, amount)?;
        let ti = TotalIssuance::<T>::get(c).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
        TotalIssuance::<T>::insert(c, ti);
        Self::try_mutate(who, c, |a| {
            a.free = a.free.saturating_add(amount);
            Ok(())
        })?;
        <H<T> as MutationHooks<_, _, _>>::PostDeposit::on_deposit(c, who, amount)?;
        Ok(())
    }
    pub fn set_balance_locks(_: ()) {}
    fn update_locks(c: T::CurrencyId, who: &A<T>, locks: Vec<BalanceLock<T::Balance>>) -> DispatchResult {
        let mut fz = T::Balance::zero();
        for l in locks.iter() {
            if l.amount > fz {
                fz = l.amount;
            }
        }
        Self::try_mutate(who, c, |a| {
            a.frozen = fz;
            Ok(())
        })?;
        Locks::<T>::insert(who, c, locks);
        Ok(())
    }
    // inherent versions: the pallets call these without importing the traits
    pub fn free_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        Self::accounts(who, c).free
    }
    pub fn reserved_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        Self::accounts(who, c).reserved
    }
    pub fn total_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        let a = Self::accounts(who, c);
        a.free + a.reserved
    }
    pub fn total_issuance(c: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(c)
    }
}
impl<T: Config> MultiCurrency<A<T>> for Pallet<T> {
    type CurrencyId = T::CurrencyId;
    type Balance = T::Balance;
    fn minimum_balance(_: T::CurrencyId) -> T::Balance {
        Zero::zero()
    }
    fn total_issuance(c: T::CurrencyId) -> T::Balance {
        TotalIssuance::<T>::get(c)
    }
    fn total_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        let a = Self::accounts(who, c);
        a.free + a.reserved
    }
    fn free_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        Self::accounts(who, c).free
    }
    fn ensure_can_withdraw(c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let a = Self::accounts(who, c);
        let n = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
        ensure!(n >= a.frozen, Error::<T>::LiquidityRestrictions);
        Ok(())
    }
    fn transfer(c: T::CurrencyId, from: &A<T>, to: &A<T>, amount: T::Balance) -> DispatchResult {
        Self::do_transfer(c, from, to, amount, ExistenceRequirement::AllowDeath)
    }
    fn deposit(c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        Self::do_deposit(c, who, amount)
    }
    fn withdraw(c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        Self::do_withdraw(c, who, amount, ExistenceRequirement::AllowDeath)
    }
    fn can_slash(c: T::CurrencyId, who: &A<T>, value: T::Balance) -> bool {
        value.is_zero() || Self::accounts(who, c).free >= value
    }
    fn slash(c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> T::Balance {
        if amount.is_zero() {
            return amount;
        }
        <H<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(c, who, amount);
        let mut a = Accounts::<T>::get(who, c);
        let fs = a.free.min(amount);
        let rem = amount - fs;
        a.free = a.free - fs;
        let rs = if rem.is_zero() { rem } else { a.reserved.min(rem) };
        a.reserved = a.reserved - rs;
        Accounts::<T>::insert(who, c, a);
        let left = rem - rs;
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(amount - left));
        left
    }
}
impl<T: Config> MultiReservableCurrency<A<T>> for Pallet<T> {
    fn can_reserve(c: T::CurrencyId, who: &A<T>, value: T::Balance) -> bool {
        if value.is_zero() {
            return true;
        }
        <Self as MultiCurrency<A<T>>>::ensure_can_withdraw(c, who, value).is_ok()
    }
    fn slash_reserved(c: T::CurrencyId, who: &A<T>, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        <H<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(c, who, value);
        let mut a = Accounts::<T>::get(who, c);
        let actual = a.reserved.min(value);
        a.reserved = a.reserved - actual;
        Accounts::<T>::insert(who, c, a);
        TotalIssuance::<T>::mutate(c, |v| *v = v.saturating_sub(actual));
        value - actual
    }
    fn reserved_balance(c: T::CurrencyId, who: &A<T>) -> T::Balance {
        Self::accounts(who, c).reserved
    }
    fn reserve(c: T::CurrencyId, who: &A<T>, value: T::Balance) -> DispatchResult {
        if value.is_zero() {
            return Ok(());
        }
        <Self as MultiCurrency<A<T>>>::ensure_can_withdraw(c, who, value)?;
        Self::try_mutate(who, c, |a| {
            a.free = a.free - value;
            a.reserved = a.reserved.saturating_add(value);
            Ok(())
        })
    }
    fn unreserve(c: T::CurrencyId, who: &A<T>, value: T::Balance) -> T::Balance {
        if value.is_zero() {
            return value;
        }
        let mut a = Accounts::<T>::get(who, c);
        let actual = a.reserved.min(value);
        a.reserved = a.reserved - actual;
        a.free = a.free.saturating_add(actual);
        Accounts::<T>::insert(who, c, a);
        value - actual
    }
    fn repatriate_reserved(c: T::CurrencyId, slashed: &A<T>, beneficiary: &A<T>, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        if value.is_zero() {
            return Ok(value);
        }
        if slashed == beneficiary {
            return match status {
                BalanceStatus::Free => Ok(<Self as MultiReservableCurrency<A<T>>>::unreserve(c, slashed, value)),
                BalanceStatus::Reserved => Ok(value.saturating_sub(Self::accounts(slashed, c).reserved)),
            };
        }
        let mut f = Accounts::<T>::get(slashed, c);
        let mut t = Accounts::<T>::get(beneficiary, c);
        let actual = f.reserved.min(value);
        match status {
            BalanceStatus::Free => t.free = t.free.saturating_add(actual),
            BalanceStatus::Reserved => t.reserved = t.reserved.saturating_add(actual),
        }
        f.reserved = f.reserved - actual;
        Accounts::<T>::insert(slashed, c, f);
        Accounts::<T>::insert(beneficiary, c, t);
        Ok(value - actual)
    }
}
impl<T: Config> MultiLockableCurrency<A<T>> for Pallet<T> {
    type Moment = T::BlockNumber;
    fn set_lock(id: LockIdentifier, c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut l = Locks::<T>::get(who, c);
        l.retain(|x| x.id != id);
        l.push(BalanceLock { id, amount });
        Self::update_locks(c, who, l)
    }
    fn extend_lock(id: LockIdentifier, c: T::CurrencyId, who: &A<T>, amount: T::Balance) -> DispatchResult {
        if amount.is_zero() {
            return Ok(());
        }
        let mut l = Locks::<T>::get(who, c);
        let old = l.iter().find(|x| x.id == id).map(|x| x.amount).unwrap_or_else(Zero::zero);
        l.retain(|x| x.id != id);
        l.push(BalanceLock { id, amount: old.max(amount) });
        Self::update_locks(c, who, l)
    }
    fn remove_lock(id: LockIdentifier, c: T::CurrencyId, who: &A<T>) -> DispatchResult {
        let mut l = Locks::<T>::get(who, c);
        l.retain(|x| x.id != id);
        Self::update_locks(c, who, l)
    }
}

// ------------------------------------------------------------------ single-currency view
pub struct PositiveImbalance<T: Config, G>(T::Balance, PhantomData<G>);
pub struct NegativeImbalance<T: Config, G>(T::Balance, PhantomData<G>);
macro_rules! imb {
    ($a:ident $b:ident) => {
        impl<T: Config, G> Default for $a<T, G> {
            fn default() -> Self {
                $a(Zero::zero(), PhantomData)
            }
        }
        impl<T: Config, G> Imbalance<T::Balance> for $a<T, G> {
            type Opposite = $b<T, G>;
            fn drop_zero(self) -> Result<(), Self> {
                if self.0.is_zero() {
                    Ok(())
                } else {
                    Err(self)
                }
            }
            fn split(self, amount: T::Balance) -> (Self, Self) {
                let f = self.0.min(amount);
                ($a(f, PhantomData), $a(self.0 - f, PhantomData))
            }
            fn merge(self, o: Self) -> Self {
                $a(self.0.saturating_add(o.0), PhantomData)
            }
            fn subsume(&mut self, o: Self) {
                self.0 = self.0.saturating_add(o.0)
            }
            fn peek(&self) -> T::Balance {
                self.0
            }
        }
    };
}
imb!(PositiveImbalance NegativeImbalance);
imb!(NegativeImbalance PositiveImbalance);

pub struct CurrencyAdapter<T, G>(PhantomData<(T, G)>);
impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::Currency<A<T>> for CurrencyAdapter<T, G> {
    type Balance = T::Balance;
    type PositiveImbalance = PositiveImbalance<T, G>;
    type NegativeImbalance = NegativeImbalance<T, G>;
    fn total_balance(who: &A<T>) -> T::Balance {
        Pallet::<T>::total_balance(G::get(), who)
    }
    fn can_slash(who: &A<T>, value: T::Balance) -> bool {
        <Pallet<T> as MultiCurrency<A<T>>>::can_slash(G::get(), who, value)
    }
    fn total_issuance() -> T::Balance {
        Pallet::<T>::total_issuance(G::get())
    }
    fn minimum_balance() -> T::Balance {
        Zero::zero()
    }
    fn burn(mut amount: T::Balance) -> Self::PositiveImbalance {
        TotalIssuance::<T>::mutate(G::get(), |v| {
            *v = v.checked_sub(&amount).unwrap_or_else(|| {
                amount = *v;
                Zero::zero()
            })
        });
        PositiveImbalance(amount, PhantomData)
    }
    fn issue(amount: T::Balance) -> Self::NegativeImbalance {
        TotalIssuance::<T>::mutate(G::get(), |v| *v = v.saturating_add(amount));
        NegativeImbalance(amount, PhantomData)
    }
    fn free_balance(who: &A<T>) -> T::Balance {
        Pallet::<T>::free_balance(G::get(), who)
    }
    fn ensure_can_withdraw(who: &A<T>, amount: T::Balance, _: WithdrawReasons, _: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiCurrency<A<T>>>::ensure_can_withdraw(G::get(), who, amount)
    }
    fn transfer(s: &A<T>, d: &A<T>, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
        Pallet::<T>::do_transfer(G::get(), s, d, value, er)
    }
    fn slash(who: &A<T>, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let left = <Pallet<T> as MultiCurrency<A<T>>>::slash(G::get(), who, value);
        (NegativeImbalance(value - left, PhantomData), left)
    }
    fn deposit_into_existing(who: &A<T>, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
        Pallet::<T>::do_deposit(G::get(), who, value)?;
        Ok(PositiveImbalance(value, PhantomData))
    }
    fn deposit_creating(who: &A<T>, value: T::Balance) -> Self::PositiveImbalance {
        match Pallet::<T>::do_deposit(G::get(), who, value) {
            Ok(()) => PositiveImbalance(value, PhantomData),
            Err(_) => PositiveImbalance::default(),
        }
    }
    /// The imbalance has already been counted as issuance.
    fn resolve_creating(who: &A<T>, value: Self::NegativeImbalance) {
        let mut a = Accounts::<T>::get(who, G::get());
        a.free = a.free.saturating_add(value.0);
        Accounts::<T>::insert(who, G::get(), a);
    }
    fn withdraw(who: &A<T>, value: T::Balance, _: WithdrawReasons, er: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
        Pallet::<T>::do_withdraw(G::get(), who, value, er)?;
        Ok(NegativeImbalance(value, PhantomData))
    }
    fn make_free_balance_be(who: &A<T>, balance: T::Balance) -> SignedImbalance<T::Balance, Self::PositiveImbalance> {
        let mut a = Accounts::<T>::get(who, G::get());
        let old = a.free;
        a.free = balance;
        Accounts::<T>::insert(who, G::get(), a);
        if balance >= old {
            SignedImbalance::Positive(PositiveImbalance(balance - old, PhantomData))
        } else {
            SignedImbalance::Negative(NegativeImbalance(old - balance, PhantomData))
        }
    }
}
impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::ReservableCurrency<A<T>> for CurrencyAdapter<T, G> {
    fn can_reserve(who: &A<T>, value: T::Balance) -> bool {
        <Pallet<T> as MultiReservableCurrency<A<T>>>::can_reserve(G::get(), who, value)
    }
    fn slash_reserved(who: &A<T>, value: T::Balance) -> (Self::NegativeImbalance, T::Balance) {
        let left = <Pallet<T> as MultiReservableCurrency<A<T>>>::slash_reserved(G::get(), who, value);
        (NegativeImbalance(value - left, PhantomData), left)
    }
    fn reserved_balance(who: &A<T>) -> T::Balance {
        Pallet::<T>::reserved_balance(G::get(), who)
    }
    fn reserve(who: &A<T>, value: T::Balance) -> DispatchResult {
        <Pallet<T> as MultiReservableCurrency<A<T>>>::reserve(G::get(), who, value)
    }
    fn unreserve(who: &A<T>, value: T::Balance) -> T::Balance {
        <Pallet<T> as MultiReservableCurrency<A<T>>>::unreserve(G::get(), who, value)
    }
    fn repatriate_reserved(s: &A<T>, b: &A<T>, value: T::Balance, status: BalanceStatus) -> Result<T::Balance, DispatchError> {
        <Pallet<T> as MultiReservableCurrency<A<T>>>::repatriate_reserved(G::get(), s, b, value, status)
    }
}
impl<T: Config, G: Get<T::CurrencyId>> frame_support::traits::LockableCurrency<A<T>> for CurrencyAdapter<T, G> {
    type Moment = T::BlockNumber;
    type MaxLocks = ();
    fn set_lock(id: LockIdentifier, who: &A<T>, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<A<T>>>::set_lock(id, G::get(), who, amount);
    }
    fn extend_lock(id: LockIdentifier, who: &A<T>, amount: T::Balance, _: WithdrawReasons) {
        let _ = <Pallet<T> as MultiLockableCurrency<A<T>>>::extend_lock(id, G::get(), who, amount);
    }
    fn remove_lock(id: LockIdentifier, who: &A<T>) {
        let _ = <Pallet<T> as MultiLockableCurrency<A<T>>>::remove_lock(id, G::get(), who);
    }
}

use frame_support::traits::tokens::{fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence};
impl<T: Config> fungibles::Inspect<A<T>> for Pallet<T> {
    type AssetId = T::CurrencyId;
    type Balance = T::Balance;
    fn total_issuance(asset: Self::AssetId) -> Self::Balance {
        TotalIssuance::<T>::get(asset)
    }
    fn minimum_balance(_: Self::AssetId) -> Self::Balance {
        Zero::zero()
    }
    fn balance(asset: Self::AssetId, who: &A<T>) -> Self::Balance {
        let a = Self::accounts(who, asset);
        a.free + a.reserved
    }
    fn reducible_balance(asset: Self::AssetId, who: &A<T>, _: Preservation, _: Fortitude) -> Self::Balance {
        let a = Self::accounts(who, asset);
        a.free.saturating_sub(a.frozen)
    }
    fn can_deposit(_: Self::AssetId, _: &A<T>, _: Self::Balance, _: Provenance) -> DepositConsequence {
        DepositConsequence::Success
    }
    fn can_withdraw(asset: Self::AssetId, who: &A<T>, amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
        if <Self as MultiCurrency<A<T>>>::ensure_can_withdraw(asset, who, amount).is_ok() {
            WithdrawConsequence::Success
        } else {
            WithdrawConsequence::BalanceLow
        }
    }
    fn asset_exists(_: Self::AssetId) -> bool {
        true
    }
}
