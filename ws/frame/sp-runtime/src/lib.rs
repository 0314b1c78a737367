//! Stand-in for sp-runtime: the real sp-arithmetic plus the error and helper types the pallets name.
extern crate alloc;
pub use bounded_collections::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use sp_arithmetic::{
    self, helpers_128bit, per_things::*, ArithmeticError, FixedI128, FixedI64, FixedPointNumber, FixedPointOperand, FixedU128,
    fixed_point::FixedU64, Rational128,
};
pub use sp_arithmetic::Rounding;
pub use sp_core;
pub use sp_debug_derive::RuntimeDebug;
pub use sp_std;

pub mod generic;
pub mod traits;
pub mod transaction_validity;

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;

#[derive(Eq, Clone, Copy, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub struct ModuleError {
    pub index: u8,
    pub error: [u8; 4],
    #[codec(skip)]
    pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
    fn eq(&self, o: &Self) -> bool {
        self.index == o.index && self.error == o.error
    }
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub enum TokenError {
    FundsUnavailable,
    OnlyProvider,
    BelowMinimum,
    CannotCreate,
    UnknownAsset,
    Frozen,
    Unsupported,
    CannotCreateHold,
    NotExpendable,
    Blocked,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub enum TransactionalError {
    LimitReached,
    NoLayer,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub enum DispatchError {
    Other(
        #[codec(skip)]
        &'static str,
    ),
    CannotLookup,
    BadOrigin,
    Module(ModuleError),
    ConsumerRemaining,
    NoProviders,
    TooManyConsumers,
    Token(TokenError),
    Arithmetic(ArithmeticError),
    Transactional(TransactionalError),
    Exhausted,
    Corruption,
    Unavailable,
    RootNotAllowed,
}
pub type DispatchResult = Result<(), DispatchError>;
pub type TryRuntimeError = DispatchError;
impl From<&'static str> for DispatchError {
    fn from(e: &'static str) -> Self {
        DispatchError::Other(e)
    }
}
impl From<ArithmeticError> for DispatchError {
    fn from(e: ArithmeticError) -> Self {
        DispatchError::Arithmetic(e)
    }
}
impl From<TokenError> for DispatchError {
    fn from(e: TokenError) -> Self {
        DispatchError::Token(e)
    }
}
impl From<traits::BadOrigin> for DispatchError {
    fn from(_: traits::BadOrigin) -> Self {
        DispatchError::BadOrigin
    }
}
impl From<traits::LookupError> for DispatchError {
    fn from(_: traits::LookupError) -> Self {
        DispatchError::CannotLookup
    }
}
impl From<DispatchError> for &'static str {
    fn from(e: DispatchError) -> &'static str {
        match e {
            DispatchError::Other(m) => m,
            DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
            _ => "error",
        }
    }
}
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub struct DispatchErrorWithPostInfo<Info> {
    pub post_info: Info,
    pub error: DispatchError,
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> {
    fn from(e: E) -> Self {
        Self { post_info: T::default(), error: e.into() }
    }
}
pub enum TransactionOutcome<R> {
    Commit(R),
    Rollback(R),
}
impl<R> TransactionOutcome<R> {
    pub fn into_inner(self) -> R {
        match self {
            Self::Commit(r) | Self::Rollback(r) => r,
        }
    }
}
pub fn print<T>(_: T) {}

#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen, Debug, PartialOrd, Ord)]
pub struct AccountId32(pub [u8; 32]);
impl From<[u8; 32]> for AccountId32 {
    fn from(x: [u8; 32]) -> Self {
        AccountId32(x)
    }
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo, Debug)]
pub struct MultiSigner(pub [u8; 32]);
impl traits::IdentifyAccount for MultiSigner {
    type AccountId = AccountId32;
    fn into_account(self) -> AccountId32 {
        AccountId32(self.0)
    }
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo, Debug)]
pub struct MultiSignature(pub [u8; 32]);
impl traits::Verify for MultiSignature {
    type Signer = MultiSigner;
}
#[derive(Clone, PartialEq, Eq, Encode, Decode, TypeInfo, Debug)]
pub struct OpaqueExtrinsic(pub alloc::vec::Vec<u8>);

#[macro_export]
macro_rules! runtime_print {
    ($($arg:tt)+) => {{}};
}
