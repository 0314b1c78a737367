//! Stand-in for frame-support with the semantics the pallets rely on: typed storage over one
//! key-value store, transactions that roll back, errors, origins.
extern crate std;
pub use codec;
pub use frame_macros::{pallet, require_transactional, storage_alias, transactional, CloneNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
pub use scale_info;
pub use sp_core;
pub use sp_runtime;
pub use sp_runtime::{print, runtime_print, RuntimeDebug, BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use sp_std;
pub use bounded_collections::bounded_vec;

pub mod storage;
pub mod store;
pub mod traits;
pub mod weights;
pub use weights::Weight;
pub use storage::types::{StorageDoubleMap, StorageMap, StorageValue};

pub mod error {
    pub use sp_runtime::traits::BadOrigin;
}
pub mod log {
    #[macro_export]
    macro_rules! __nolog {
        ($($x:tt)*) => {{}};
    }
    pub use crate::__nolog as error;
    pub use crate::__nolog as warn;
    pub use crate::__nolog as info;
    pub use crate::__nolog as debug;
    pub use crate::__nolog as trace;
}
pub mod migration {
    pub fn clear_storage_prefix(_: &[u8], _: &[u8], _: &[u8], _: Option<u32>, _: Option<&[u8]>) {}
}
pub mod unsigned {
    pub trait ValidateUnsigned {
        type Call;
    }
}
pub mod dispatch {
    pub use crate::weights::Weight;
    pub use codec::Codec;
    pub use sp_runtime::traits::Dispatchable;
    pub use sp_runtime::{DispatchError, DispatchErrorWithPostInfo, DispatchResult, ModuleError};
    pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>>;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub enum Pays {
        #[default]
        Yes,
        No,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub enum DispatchClass {
        #[default]
        Normal,
        Operational,
        Mandatory,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct PostDispatchInfo {
        pub actual_weight: Option<Weight>,
        pub pays_fee: Pays,
    }
    impl From<()> for PostDispatchInfo {
        fn from(_: ()) -> Self {
            Default::default()
        }
    }
    impl From<Pays> for PostDispatchInfo {
        fn from(p: Pays) -> Self {
            PostDispatchInfo { actual_weight: None, pays_fee: p }
        }
    }
    impl From<Option<Weight>> for PostDispatchInfo {
        fn from(w: Option<Weight>) -> Self {
            PostDispatchInfo { actual_weight: w, pays_fee: Pays::Yes }
        }
    }
    impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
        fn from(w: (Option<Weight>, Pays)) -> Self {
            PostDispatchInfo { actual_weight: w.0, pays_fee: w.1 }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct DispatchInfo {
        pub weight: Weight,
        pub class: DispatchClass,
        pub pays_fee: Pays,
    }
    pub trait GetDispatchInfo {
        fn get_dispatch_info(&self) -> DispatchInfo;
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}
pub struct Blake2_128Concat;
pub struct Twox64Concat;
pub struct Identity;
pub struct Blake2_256;
pub struct Twox128;

pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo {}
impl<T: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo> Parameter for T {}

pub mod pallet_prelude {
    pub use frame_macros::{CloneNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
    pub use crate::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Pays};
    pub use crate::ensure;
    pub use crate::storage;
    pub use crate::storage::types::{CountedStorageMap, OptionQuery, StorageDoubleMap, StorageInstance, StorageMap, StorageValue, ValueQuery};
    pub use crate::traits::{EnsureOrigin, PalletInfoAccess, Get, GetDefault, Hooks, IsType, StorageVersion};
    pub use crate::weights::Weight;
    pub use crate::{Blake2_128Concat, Blake2_256, BoundedVec, Identity, Parameter, RuntimeDebug, Twox128, Twox64Concat};
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use core::marker::PhantomData;
    pub use scale_info::TypeInfo;
    pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member};
    pub use sp_runtime::transaction_validity::{
        InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
    };
}

#[macro_export]
macro_rules! ensure {
    ($x:expr, $y:expr $(,)?) => {{
        if !$x {
            return Err(($y).into());
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($y:expr) => {{
        return Err(($y).into());
    }};
}
#[macro_export]
macro_rules! assert_ok {
    ($x:expr $(,)?) => {
        assert!($x.is_ok())
    };
}
#[macro_export]
macro_rules! defensive {
    ($($x:tt)*) => {{}};
}
#[macro_export]
macro_rules! parameter_types {
    ($(#[$m:meta])* pub const $n:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        pub struct $n;
        impl $n { pub const fn get() -> $t { $v } }
        impl<I: From<$t>> $crate::traits::Get<I> for $n { fn get() -> I { I::from($v) } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$m:meta])* pub $n:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        pub struct $n;
        impl $n { pub fn get() -> $t { $v } }
        impl<I: From<$t>> $crate::traits::Get<I> for $n { fn get() -> I { I::from($v) } }
        $crate::parameter_types!($($rest)*);
    };
    () => {};
}
