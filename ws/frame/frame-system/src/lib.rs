//! Stand-in for frame-system.
use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use frame_support::storage::types::{StorageInstance, StorageValue, ValueQuery};
use frame_support::weights::RuntimeDbWeight;
use frame_support::Parameter;
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, BadOrigin, Get, Hash as HashT, MaybeDisplay, MaybeSerializeDeserialize, Member, StaticLookup};

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<A> {
    Root,
    Signed(A),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(w) => RawOrigin::Signed(w),
            None => RawOrigin::None,
        }
    }
}
impl<A> From<RawOrigin<A>> for Result<RawOrigin<A>, RawOrigin<A>> {
    fn from(o: RawOrigin<A>) -> Self {
        Ok(o)
    }
}
pub trait Config: 'static + Eq + Clone {
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone;
    type RuntimeCall;
    type Nonce: Parameter + Member + MaybeSerializeDeserialize + Default + MaybeDisplay + AtLeast32BitUnsigned + Copy + MaxEncodedLen;
    type BlockNumber: Parameter
        + Member
        + MaybeSerializeDeserialize
        + AtLeast32BitUnsigned
        + Default
        + Copy
        + MaxEncodedLen
        + EncodeLike
        + core::hash::Hash;
    type Hash: Parameter + Member + MaybeSerializeDeserialize + Ord + Default + Copy + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
    type Hashing: HashT<Output = Self::Hash>;
    type AccountId: Parameter + Member + MaybeSerializeDeserialize + MaybeDisplay + Ord + MaxEncodedLen;
    type Lookup: StaticLookup<Target = Self::AccountId>;
    type RuntimeEvent: Member;
    type DbWeight: Get<RuntimeDbWeight>;
}
pub struct Pallet<T>(core::marker::PhantomData<T>);
pub struct NumberPrefix;
impl StorageInstance for NumberPrefix {
    const ID: u64 = 1;
    fn instance() -> u64 {
        0
    }
}
pub struct ParentPrefix;
impl StorageInstance for ParentPrefix {
    const ID: u64 = 2;
    fn instance() -> u64 {
        0
    }
}
impl<T: Config> Pallet<T> {
    pub fn block_number() -> T::BlockNumber {
        StorageValue::<NumberPrefix, T::BlockNumber, ValueQuery>::get()
    }
    pub fn set_block_number(n: T::BlockNumber) {
        StorageValue::<NumberPrefix, T::BlockNumber, ValueQuery>::put(n)
    }
    pub fn parent_hash() -> T::Hash {
        StorageValue::<ParentPrefix, T::Hash, ValueQuery>::get()
    }
    pub fn set_parent_hash(n: T::Hash) {
        StorageValue::<ParentPrefix, T::Hash, ValueQuery>::put(n)
    }
    pub fn deposit_event<E>(_: E) {}
    pub fn inc_consumers(_: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
        Ok(())
    }
    pub fn dec_consumers(_: &T::AccountId) {}
    pub fn inc_providers(_: &T::AccountId) {}
    pub fn account_nonce<W: EncodeLike<T::AccountId>>(_: W) -> T::Nonce {
        Default::default()
    }
    pub fn extrinsic_index() -> Option<u32> {
        Some(1)
    }
    pub fn register_extra_weight_unchecked(_: frame_support::weights::Weight, _: frame_support::dispatch::DispatchClass) {}
}
pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub struct EnsureRoot<A>(core::marker::PhantomData<A>);
impl<A, O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>> frame_support::traits::EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        match o.into() {
            Ok(RawOrigin::Root) => Ok(()),
            Ok(r) => Err(O::from(r)),
            Err(o) => Err(o),
        }
    }
}
pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
}
pub mod offchain {
    pub trait SendTransactionTypes<C> {}
    pub struct SubmitTransaction<T, C>(core::marker::PhantomData<(T, C)>);
    impl<T, C> SubmitTransaction<T, C> {
        pub fn submit_unsigned_transaction(_: C) -> Result<(), ()> {
            Ok(())
        }
    }
}
pub trait CodecDummy: Codec {}

pub enum Call<T: Config> {
    Remark { remark: sp_std::vec::Vec<u8> },
    #[doc(hidden)]
    __Ignore(core::marker::PhantomData<T>, core::convert::Infallible),
}
