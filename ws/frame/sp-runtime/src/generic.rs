use codec::{Decode, Encode};
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct Header<N, H>(pub N, pub core::marker::PhantomData<H>);
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct Block<H, E>(pub H, pub alloc::vec::Vec<E>);
