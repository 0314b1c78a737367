//! Stand-in for the ink 4 contract library: one contract, a ledger and a runtime that a harness scripts.
#![no_std]
extern crate alloc;
pub use ink_macro::{chain_extension, contract};

pub mod prelude {
    pub use alloc::{borrow, boxed, collections, format, string, vec};
}
pub mod primitives {
    pub type AccountId = [u8; 32];
}
pub trait Event {}
pub trait ChainExtensionInstance {
    type Instance;
    fn instance() -> Self::Instance;
}
pub enum NoChainExtension {}
impl ChainExtensionInstance for NoChainExtension {
    type Instance = ();
    fn instance() {}
}

pub mod env {
    use alloc::vec::Vec;
    pub trait Environment {
        const MAX_EVENT_TOPICS: usize;
        type AccountId;
        type Balance;
        type Hash;
        type BlockNumber;
        type Timestamp;
        type ChainExtension;
    }
    pub enum DefaultEnvironment {}
    impl Environment for DefaultEnvironment {
        const MAX_EVENT_TOPICS: usize = 4;
        type AccountId = crate::primitives::AccountId;
        type Balance = u128;
        type Hash = [u8; 32];
        type BlockNumber = u32;
        type Timestamp = u64;
        type ChainExtension = crate::NoChainExtension;
    }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum Error {
        TransferFailed,
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub mod chain_extension {
        pub trait FromStatusCode: Sized {
            fn from_status_code(status_code: u32) -> core::result::Result<(), Self>;
        }
    }
    /// Calls the scripted runtime.
    pub fn call_extension(id: u32, args: Vec<u8>) -> (u32, Vec<u8>) {
        let w = crate::world();
        w.calls.push((id, args));
        (w.status, w.reply.clone())
    }
}

/// What the contract sees and what it did.
pub struct World {
    pub caller: [u8; 32],
    pub value: u128,
    pub balance: u128,
    pub now: u64,
    pub block: u32,
    pub status: u32,
    pub reply: alloc::vec::Vec<u8>,
    pub calls: alloc::vec::Vec<(u32, alloc::vec::Vec<u8>)>,
    pub transfers: alloc::vec::Vec<([u8; 32], u128)>,
}
static mut WORLD: World = World {
    caller: [0; 32],
    value: 0,
    balance: 0,
    now: 0,
    block: 0,
    status: 0,
    reply: alloc::vec::Vec::new(),
    calls: alloc::vec::Vec::new(),
    transfers: alloc::vec::Vec::new(),
};
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}

pub struct EnvAccess<E>(core::marker::PhantomData<E>);
impl<E> EnvAccess<E> {
    pub fn new() -> Self {
        EnvAccess(core::marker::PhantomData)
    }
}
impl<E: env::Environment<AccountId = [u8; 32], Balance = u128>> EnvAccess<E> {
    pub fn caller(self) -> [u8; 32] {
        world().caller
    }
    pub fn account_id(self) -> [u8; 32] {
        [0xcc; 32]
    }
    pub fn transferred_value(self) -> u128 {
        world().value
    }
    pub fn balance(self) -> u128 {
        world().balance
    }
    pub fn block_timestamp(self) -> u64 {
        world().now
    }
    pub fn block_number(self) -> u32 {
        world().block
    }
    pub fn minimum_balance(self) -> u128 {
        0
    }
    pub fn emit_event<T: Event>(self, _e: T) {}
    pub fn transfer(self, to: [u8; 32], amount: u128) -> env::Result<()> {
        let w = world();
        if amount > w.balance {
            return Err(env::Error::TransferFailed);
        }
        w.balance -= amount;
        w.transfers.push((to, amount));
        Ok(())
    }
    pub fn extension(self) -> <E::ChainExtension as ChainExtensionInstance>::Instance
    where
        E::ChainExtension: ChainExtensionInstance,
    {
        <E::ChainExtension as ChainExtensionInstance>::instance()
    }
}

pub mod storage {
    pub mod traits {
        pub trait StorageLayout {}
    }
    use alloc::vec::Vec;
    use core::{cell::RefCell, marker::PhantomData};
    use scale::{Decode, Encode, EncodeLike};
    pub struct Mapping<K, V> {
        cells: RefCell<Vec<(Vec<u8>, Vec<u8>)>>,
        p: PhantomData<(K, V)>,
    }
    impl<K, V> Default for Mapping<K, V> {
        fn default() -> Self {
            Mapping { cells: RefCell::new(Vec::new()), p: PhantomData }
        }
    }
    impl<K: Encode, V: Encode + Decode> Mapping<K, V> {
        pub fn new() -> Self {
            Self::default()
        }
        fn find(&self, k: &[u8]) -> Option<usize> {
            self.cells.borrow().iter().position(|c| c.0 == k)
        }
        pub fn insert<Q: EncodeLike<K>, R: EncodeLike<V>>(&mut self, key: Q, value: &R) -> Option<u32> {
            let (k, v) = (key.encode(), value.encode());
            match self.find(&k) {
                Some(i) => {
                    let mut c = self.cells.borrow_mut();
                    let n = c[i].1.len() as u32;
                    c[i].1 = v;
                    Some(n)
                }
                None => {
                    self.cells.borrow_mut().push((k, v));
                    None
                }
            }
        }
        pub fn get<Q: EncodeLike<K>>(&self, key: Q) -> Option<V> {
            self.find(&key.encode()).map(|i| V::decode(&mut &self.cells.borrow()[i].1[..]).expect("stored by insert"))
        }
        pub fn contains<Q: EncodeLike<K>>(&self, key: Q) -> bool {
            self.find(&key.encode()).is_some()
        }
        pub fn remove<Q: EncodeLike<K>>(&self, key: Q) {
            if let Some(i) = self.find(&key.encode()) {
                self.cells.borrow_mut().remove(i);
            }
        }
        pub fn take<Q: EncodeLike<K>>(&self, key: Q) -> Option<V> {
            let k = key.encode();
            let i = self.find(&k)?;
            let (_, v) = self.cells.borrow_mut().remove(i);
            Some(V::decode(&mut &v[..]).expect("stored by insert"))
        }
    }
}
