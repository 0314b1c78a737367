use crate::store;
use sp_runtime::{DispatchError, TransactionOutcome};

pub use bounded_collections::{bounded_btree_map, bounded_btree_set, bounded_vec};

pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
    let s = store::snapshot();
    *store::depth() += 1;
    let r = f();
    *store::depth() -= 1;
    match r {
        TransactionOutcome::Commit(x) => x,
        TransactionOutcome::Rollback(x) => {
            store::restore(s);
            x
        }
    }
}
/// What dispatching an extrinsic does: all or nothing.
pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
    with_transaction(|| {
        let r = f();
        if r.is_ok() {
            TransactionOutcome::Commit(r)
        } else {
            TransactionOutcome::Rollback(r)
        }
    })
}
pub fn transactional<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
    with_storage_layer(f)
}

pub mod types {
    use crate::{store, traits::Get};
    use codec::{Decode, Encode, EncodeLike, FullCodec};
    use core::marker::PhantomData;
    use std::vec::Vec;

    pub trait StorageInstance {
        const ID: u64;
        fn instance() -> u64;
        fn id() -> u64 {
            Self::ID ^ Self::instance()
        }
    }
    pub struct GetDefault;
    impl<T: Default> Get<T> for GetDefault {
        fn get() -> T {
            T::default()
        }
    }
    pub trait QueryKindTrait<V, OnEmpty> {
        type Query;
        fn from_optional(v: Option<V>) -> Self::Query;
        fn from_query(q: Self::Query) -> Option<V>;
    }
    pub struct ValueQuery;
    pub struct OptionQuery;
    impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery {
        type Query = V;
        fn from_optional(v: Option<V>) -> V {
            v.unwrap_or_else(E::get)
        }
        fn from_query(q: V) -> Option<V> {
            Some(q)
        }
    }
    impl<V, E> QueryKindTrait<V, E> for OptionQuery {
        type Query = Option<V>;
        fn from_optional(v: Option<V>) -> Option<V> {
            v
        }
        fn from_query(q: Option<V>) -> Option<V> {
            q
        }
    }
    pub trait QueryOf {
        type Query;
    }
    fn dec<V: Decode>(b: &[u8]) -> Option<V> {
        let mut b = b;
        V::decode(&mut b).ok()
    }
    fn enc<K: Encode>(k: K) -> Vec<u8> {
        k.encode()
    }
    const E0: &[u8] = &[];
    fn len_of(b: Option<&[u8]>) -> Option<usize> {
        b.and_then(|b| dec::<codec::Compact<u32>>(b)).map(|x| x.0 as usize)
    }

    // ---------------------------------------------------------------- StorageValue
    pub struct StorageValue<P, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, V, Q, E)>);
    impl<P, V, Q: QueryKindTrait<V, E>, E> QueryOf for StorageValue<P, V, Q, E> {
        type Query = Q::Query;
    }
    impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
        pub fn exists() -> bool {
            store::find(P::id(), E0, E0).is_some()
        }
        pub fn get() -> Q::Query {
            Q::from_optional(Self::try_get().ok())
        }
        pub fn try_get() -> Result<V, ()> {
            store::get(P::id(), E0, E0).and_then(dec).ok_or(())
        }
        pub fn put<A: EncodeLike<V>>(v: A) {
            store::put(P::id(), Vec::new(), Vec::new(), enc(v))
        }
        pub fn set(q: Q::Query) {
            match Q::from_query(q) {
                Some(v) => Self::put_v(&v),
                None => Self::kill(),
            }
        }
        fn put_v(v: &V) {
            store::put(P::id(), Vec::new(), Vec::new(), v.encode())
        }
        pub fn kill() {
            store::kill(P::id(), E0, E0)
        }
        pub fn take() -> Q::Query {
            let r = Self::get();
            Self::kill();
            r
        }
        pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
            let mut q = Self::get();
            let r = f(&mut q);
            Self::set(q);
            r
        }
        pub fn try_mutate<R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(f: F) -> Result<R, X> {
            let mut q = Self::get();
            let r = f(&mut q);
            if r.is_ok() {
                Self::set(q);
            }
            r
        }
        pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
            let mut q = Self::try_get().ok();
            let r = f(&mut q);
            match q {
                Some(v) => Self::put_v(&v),
                None => Self::kill(),
            }
            r
        }
        pub fn append<I: Encode>(x: I)
        where
            V: codec::EncodeAppend<Item = I>,
        {
            let b = store::get(P::id(), E0, E0).map(|b| b.to_vec()).unwrap_or_default();
            if let Ok(n) = V::append_or_new(b, &[x]) {
                store::put(P::id(), Vec::new(), Vec::new(), n)
            }
        }
        pub fn decode_len() -> Option<usize> {
            len_of(store::get(P::id(), E0, E0))
        }
    }

    // ---------------------------------------------------------------- StorageMap
    pub struct StorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, H, K, V, Q, E)>);
    impl<P, H, K, V, Q: QueryKindTrait<V, E>, E> QueryOf for StorageMap<P, H, K, V, Q, E> {
        type Query = Q::Query;
    }
    impl<P: StorageInstance, H, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageMap<P, H, K, V, Q, E> {
        pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
            let (a, b) = (enc(a), enc(b));
            let (x, y) = (Self::opt(&a), Self::opt(&b));
            Self::set_opt(a, y);
            Self::set_opt(b, x);
        }
        pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
            store::find(P::id(), &enc(k), E0).is_some()
        }
        fn opt(k: &[u8]) -> Option<V> {
            store::get(P::id(), k, E0).and_then(dec)
        }
        fn set_opt(k: Vec<u8>, v: Option<V>) {
            match v {
                Some(v) => store::put(P::id(), k, Vec::new(), v.encode()),
                None => store::kill(P::id(), &k, E0),
            }
        }
        pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
            Q::from_optional(Self::opt(&enc(k)))
        }
        pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
            Self::opt(&enc(k)).ok_or(())
        }
        pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
            store::put(P::id(), enc(k), Vec::new(), enc(v))
        }
        pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) {
            Self::set_opt(enc(k), Q::from_query(q))
        }
        pub fn remove<A: EncodeLike<K>>(k: A) {
            store::kill(P::id(), &enc(k), E0)
        }
        pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
            let k = enc(k);
            let r = Self::opt(&k);
            store::kill(P::id(), &k, E0);
            Q::from_optional(r)
        }
        pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
            let k = enc(k);
            let mut q = Q::from_optional(Self::opt(&k));
            let r = f(&mut q);
            Self::set_opt(k, Q::from_query(q));
            r
        }
        pub fn try_mutate<A: EncodeLike<K>, R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
            let k = enc(k);
            let mut q = Q::from_optional(Self::opt(&k));
            let r = f(&mut q);
            if r.is_ok() {
                Self::set_opt(k, Q::from_query(q));
            }
            r
        }
        pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
            let k = enc(k);
            let mut q = Self::opt(&k);
            let r = f(&mut q);
            Self::set_opt(k, q);
            r
        }
        pub fn try_mutate_exists<A: EncodeLike<K>, R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
            let k = enc(k);
            let mut q = Self::opt(&k);
            let r = f(&mut q);
            if r.is_ok() {
                Self::set_opt(k, q);
            }
            r
        }
        pub fn append<A: EncodeLike<K>, I: Encode>(k: A, x: I)
        where
            V: codec::EncodeAppend<Item = I>,
        {
            let k = enc(k);
            let b = store::get(P::id(), &k, E0).map(|b| b.to_vec()).unwrap_or_default();
            if let Ok(n) = V::append_or_new(b, &[x]) {
                store::put(P::id(), k, Vec::new(), n)
            }
        }
        pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> {
            len_of(store::get(P::id(), &enc(k), E0))
        }
        pub fn iter() -> std::vec::IntoIter<(K, V)> {
            let id = P::id();
            let mut o = Vec::new();
            for e in store::db().iter() {
                if e.id == id {
                    if let (Some(k), Some(v)) = (dec::<K>(&e.k1), dec::<V>(&e.v)) {
                        o.push((k, v));
                    }
                }
            }
            o.into_iter()
        }
        pub fn iter_keys() -> std::vec::IntoIter<K> {
            Self::iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
        }
        pub fn iter_values() -> std::vec::IntoIter<V> {
            Self::iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
        }
        pub fn drain() -> std::vec::IntoIter<(K, V)> {
            let r = Self::iter();
            let id = P::id();
            store::db().retain(|e| e.id != id);
            r
        }
        pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
            let id = P::id();
            let old: Vec<_> = store::db().iter().filter(|e| e.id == id).map(|e| (e.k1.clone(), e.v.clone())).collect();
            for (k, v) in old {
                if let (Some(kk), Some(o)) = (dec::<K>(&k), dec::<O>(&v)) {
                    Self::set_opt(k, f(kk, o));
                }
            }
        }
        pub fn clear(_: u32, _: Option<&[u8]>) {
            let id = P::id();
            store::db().retain(|e| e.id != id);
        }
        pub fn remove_all(_: Option<u32>) {
            Self::clear(0, None)
        }
    }
    pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault> = StorageMap<P, H, K, V, Q, E>;

    // ---------------------------------------------------------------- StorageDoubleMap
    pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, E)>);
    impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, E>, E> QueryOf for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E> {
        type Query = Q::Query;
    }
    impl<P: StorageInstance, H1, K1: FullCodec, H2, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E>
        StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E>
    {
        pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
            store::find(P::id(), &enc(a), &enc(b)).is_some()
        }
        fn opt(a: &[u8], b: &[u8]) -> Option<V> {
            store::get(P::id(), a, b).and_then(dec)
        }
        fn set_opt(a: Vec<u8>, b: Vec<u8>, v: Option<V>) {
            match v {
                Some(v) => store::put(P::id(), a, b, v.encode()),
                None => store::kill(P::id(), &a, &b),
            }
        }
        pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
            Q::from_optional(Self::opt(&enc(a), &enc(b)))
        }
        pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
            Self::opt(&enc(a), &enc(b)).ok_or(())
        }
        pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
            store::put(P::id(), enc(a), enc(b), enc(v))
        }
        pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
            store::kill(P::id(), &enc(a), &enc(b))
        }
        pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
            let (a, b) = (enc(a), enc(b));
            let r = Self::opt(&a, &b);
            store::kill(P::id(), &a, &b);
            Q::from_optional(r)
        }
        pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
            let (a, b) = (enc(a), enc(b));
            let mut q = Q::from_optional(Self::opt(&a, &b));
            let r = f(&mut q);
            Self::set_opt(a, b, Q::from_query(q));
            r
        }
        pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(
            a: A,
            b: B,
            f: F,
        ) -> Result<R, X> {
            let (a, b) = (enc(a), enc(b));
            let mut q = Q::from_optional(Self::opt(&a, &b));
            let r = f(&mut q);
            if r.is_ok() {
                Self::set_opt(a, b, Q::from_query(q));
            }
            r
        }
        pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
            let (a, b) = (enc(a), enc(b));
            let mut q = Self::opt(&a, &b);
            let r = f(&mut q);
            Self::set_opt(a, b, q);
            r
        }
        pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(
            a: A,
            b: B,
            f: F,
        ) -> Result<R, X> {
            let (a, b) = (enc(a), enc(b));
            let mut q = Self::opt(&a, &b);
            let r = f(&mut q);
            if r.is_ok() {
                Self::set_opt(a, b, q);
            }
            r
        }
        pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I: Encode>(a: A, b: B, x: I)
        where
            V: codec::EncodeAppend<Item = I>,
        {
            let (a, b) = (enc(a), enc(b));
            let o = store::get(P::id(), &a, &b).map(|b| b.to_vec()).unwrap_or_default();
            if let Ok(n) = V::append_or_new(o, &[x]) {
                store::put(P::id(), a, b, n)
            }
        }
        pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
            let id = P::id();
            let mut o = Vec::new();
            for e in store::db().iter() {
                if e.id == id {
                    if let (Some(a), Some(b), Some(v)) = (dec::<K1>(&e.k1), dec::<K2>(&e.k2), dec::<V>(&e.v)) {
                        o.push((a, b, v));
                    }
                }
            }
            o.into_iter()
        }
        pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)> {
            let id = P::id();
            let a = enc(a);
            let mut o = Vec::new();
            for e in store::db().iter() {
                if e.id == id && e.k1 == a {
                    if let (Some(b), Some(v)) = (dec::<K2>(&e.k2), dec::<V>(&e.v)) {
                        o.push((b, v));
                    }
                }
            }
            o.into_iter()
        }
        pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<V> {
            Self::iter_prefix(a).map(|x| x.1).collect::<Vec<_>>().into_iter()
        }
        pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2> {
            Self::iter_prefix(a).map(|x| x.0).collect::<Vec<_>>().into_iter()
        }
        pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
            Self::iter().map(|x| (x.0, x.1)).collect::<Vec<_>>().into_iter()
        }
        pub fn iter_values() -> std::vec::IntoIter<V> {
            Self::iter().map(|x| x.2).collect::<Vec<_>>().into_iter()
        }
        pub fn drain() -> std::vec::IntoIter<(K1, K2, V)> {
            let r = Self::iter();
            let id = P::id();
            store::db().retain(|e| e.id != id);
            r
        }
        pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)> {
            let a = enc(a);
            let r = Self::iter_prefix_b(&a);
            let id = P::id();
            store::db().retain(|e| !(e.id == id && e.k1 == a));
            r
        }
        fn iter_prefix_b(a: &[u8]) -> std::vec::IntoIter<(K2, V)> {
            let id = P::id();
            let mut o = Vec::new();
            for e in store::db().iter() {
                if e.id == id && e.k1[..] == *a {
                    if let (Some(b), Some(v)) = (dec::<K2>(&e.k2), dec::<V>(&e.v)) {
                        o.push((b, v));
                    }
                }
            }
            o.into_iter()
        }
        pub fn clear_prefix<A: EncodeLike<K1>>(a: A, _: u32, _: Option<&[u8]>) {
            let a = enc(a);
            let id = P::id();
            store::db().retain(|e| !(e.id == id && e.k1 == a));
        }
        pub fn remove_prefix<A: EncodeLike<K1>>(a: A, _: Option<u32>) {
            Self::clear_prefix(a, 0, None)
        }
        pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
            let id = P::id();
            let old: Vec<_> = store::db().iter().filter(|e| e.id == id).map(|e| (e.k1.clone(), e.k2.clone(), e.v.clone())).collect();
            for (a, b, v) in old {
                if let (Some(ka), Some(kb), Some(o)) = (dec::<K1>(&a), dec::<K2>(&b), dec::<O>(&v)) {
                    Self::set_opt(a, b, f(ka, kb, o));
                }
            }
        }
    }
}
