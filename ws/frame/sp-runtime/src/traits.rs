use codec::{Codec, Decode, Encode, MaxEncodedLen};
use core::fmt::Debug;
pub use core::marker::PhantomData;
pub use bounded_collections::{ConstBool, ConstI128, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get};
pub use sp_arithmetic::traits::*;
pub use sp_core::H256;

pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
    fn from(_: BadOrigin) -> &'static str {
        "Bad origin"
    }
}
#[derive(Debug)]
pub struct LookupError;
impl From<LookupError> for &'static str {
    fn from(_: LookupError) -> &'static str {
        "Can not lookup"
    }
}
pub trait Convert<A, B> {
    fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
    fn convert(_: A) -> B {
        Default::default()
    }
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
    fn convert(a: T) -> T {
        a
    }
}
pub struct ConvertInto;
impl<A, B: From<A>> Convert<A, B> for ConvertInto {
    fn convert(a: A) -> B {
        a.into()
    }
}
pub trait StaticLookup {
    type Source: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo;
    type Target;
    fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
    fn unlookup(t: Self::Target) -> Self::Source;
}
pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo> StaticLookup for IdentityLookup<T> {
    type Source = T;
    type Target = T;
    fn lookup(s: T) -> Result<T, LookupError> {
        Ok(s)
    }
    fn unlookup(t: T) -> T {
        t
    }
}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait MaybeSerializeDeserialize {}
impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeSerialize {}
impl<T> MaybeSerialize for T {}
pub trait MaybeDisplay {}
impl<T> MaybeDisplay for T {}
pub trait MaybeFromStr {}
impl<T> MaybeFromStr for T {}

pub trait TypeId {
    const TYPE_ID: [u8; 4];
}
struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> codec::Input for TrailingZeroInput<'a> {
    fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> {
        let len_from_inner = into.len().min(self.0.len());
        into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
        for i in &mut into[len_from_inner..] {
            *i = 0;
        }
        self.0 = &self.0[len_from_inner..];
        Ok(())
    }
}
pub trait AccountIdConversion<AccountId>: Sized {
    fn into_account_truncating(&self) -> AccountId {
        self.into_sub_account_truncating(&())
    }
    fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
    fn try_into_account(&self) -> Option<AccountId>;
}
impl<T: Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
    fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
        (Id::TYPE_ID, self, sub)
            .using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
            .expect("All byte sequences are valid `AccountIds`; qed")
    }
    fn try_into_account(&self) -> Option<T> {
        Some(self.into_account_truncating())
    }
}

pub trait Hash: 'static + Clone + Eq + PartialEq + Debug {
    type Output: Member + AsRef<[u8]> + Copy + Default + Encode + Decode + Ord + MaxEncodedLen + scale_info::TypeInfo;
    fn hash(s: &[u8]) -> Self::Output;
    fn hash_of<S: Encode>(s: &S) -> Self::Output {
        s.using_encoded(Self::hash)
    }
}
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
    type Output = H256;
    fn hash(s: &[u8]) -> H256 {
        H256(sp_io::hashing::blake2_256(s))
    }
}
pub trait IdentifyAccount {
    type AccountId;
    fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
    type Signer: IdentifyAccount;
}
pub trait BlockNumberProvider {
    type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + scale_info::TypeInfo;
    fn current_block_number() -> Self::BlockNumber;
}
pub trait Dispatchable {
    type RuntimeOrigin;
    type Config;
    type Info;
    type PostInfo: Eq + PartialEq + Clone + Copy + Default;
    fn dispatch(self, origin: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
pub trait AccountIdLookupDummy {}
