//! Stand-in for rust-secp256k1: a public key is an opaque 33-byte string, tweak multiplication is an
//! uninterpreted (deterministic) function of key and tweak (`xor`).
pub mod constants { pub const PUBLIC_KEY_SIZE: usize = 33; pub const SECRET_KEY_SIZE: usize = 32; }
pub mod ffi { pub mod types { #[derive(Clone)] pub struct AlignedType([u8;16]); impl AlignedType { pub fn zeroed() -> Self { AlignedType([0;16]) } } } }
#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Error { IncorrectSignature, InvalidMessage, InvalidPublicKey, InvalidSignature, InvalidSecretKey, InvalidRecoveryId, InvalidTweak, NotEnoughMemory, InvalidPublicKeySum }
impl core::fmt::Display for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub struct AllPreallocated<'a>(core::marker::PhantomData<&'a ()>);
pub struct Secp256k1<C>(core::marker::PhantomData<C>);
impl<'a> Secp256k1<AllPreallocated<'a>> {
    pub fn preallocate_size() -> usize { 0 }
    pub fn preallocated_new(_buf: &'a mut [ffi::types::AlignedType]) -> Result<Self, Error> { Ok(Secp256k1(core::marker::PhantomData)) }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct PublicKey([u8; 33]);
impl PublicKey {
    pub fn from_slice(data: &[u8]) -> Result<Self, Error> {
        if data.len() != 33 { return Err(Error::InvalidPublicKey); }
        let mut b = [0u8; 33]; b.copy_from_slice(data); Ok(PublicKey(b))
    }
    pub fn mul_assign<C>(&mut self, _secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 { return Err(Error::InvalidTweak); }
        let mut t = [0u8; 32]; t.copy_from_slice(other);
        for i in 0..32 { self.0[i + 1] ^= t[i]; }
        Ok(())
    }
    pub fn serialize(&self) -> [u8; 33] { self.0 }
}
