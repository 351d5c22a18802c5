//! Storage items with FRAME's layout: twox128(pallet) ++ twox128(item) ++ hashed keys.
use crate::{
    hash::{ReversibleStorageHasher, StorageHasher},
    storage::unhashed,
    traits::{Get, GetDefault, StorageInstance},
    twox_128,
};
use codec::{Decode, Encode, EncodeLike, FullCodec};
use std::marker::PhantomData;

pub trait QueryKindTrait<Value, OnEmpty> {
    type Query;
    fn from_optional(v: Option<Value>) -> Self::Query;
    fn to_optional(q: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
impl<V, O> QueryKindTrait<V, O> for OptionQuery {
    type Query = Option<V>;
    fn from_optional(v: Option<V>) -> Option<V> {
        v
    }
    fn to_optional(q: Option<V>) -> Option<V> {
        q
    }
}
pub struct ValueQuery;
impl<V, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
    type Query = V;
    fn from_optional(v: Option<V>) -> V {
        v.unwrap_or_else(|| O::get())
    }
    fn to_optional(q: V) -> Option<V> {
        Some(q)
    }
}
/// What a getter needs to know about a storage type.
pub trait Gettable {
    type Key1;
    type Key2;
    type Query;
}

fn prefix<P: StorageInstance>() -> Vec<u8> {
    let mut k = twox_128(P::pallet_prefix().as_bytes()).to_vec();
    k.extend(twox_128(P::STORAGE_PREFIX.as_bytes()));
    k
}
fn write<V: Encode>(key: &[u8], v: &Option<V>) {
    match v {
        Some(v) => unhashed::put(key, v),
        None => unhashed::kill(key),
    }
}
fn append<I: Encode>(key: &[u8], item: &I) {
    // Vec<T>/BTreeSet-like append: length-prefixed sequences
    let cur = unhashed::get_raw(key).unwrap_or_default();
    let new = <Vec<I> as codec::EncodeAppend>::append_or_new(cur, std::iter::once(item)).expect("append");
    unhashed::put_raw(key, &new)
}


pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault>(PhantomData<(P, V, Q, O)>);
impl<P, V, Q: QueryKindTrait<V, O>, O> Gettable for StorageValue<P, V, Q, O> {
    type Key1 = ();
    type Key2 = ();
    type Query = Q::Query;
}
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static> StorageValue<P, V, Q, O> {
    pub fn hashed_key() -> [u8; 32] {
        let mut r = [0u8; 32];
        r.copy_from_slice(&prefix::<P>());
        r
    }
    pub fn exists() -> bool {
        unhashed::exists(&Self::hashed_key())
    }
    pub fn get() -> Q::Query {
        Q::from_optional(unhashed::get(&Self::hashed_key()))
    }
    pub fn try_get() -> Result<V, ()> {
        unhashed::get(&Self::hashed_key()).ok_or(())
    }
    pub fn put<A: EncodeLike<V>>(v: A) {
        unhashed::put(&Self::hashed_key(), &v)
    }
    pub fn set(q: Q::Query) {
        write(&Self::hashed_key(), &Q::to_optional(q))
    }
    pub fn kill() {
        unhashed::kill(&Self::hashed_key())
    }
    pub fn take() -> Q::Query {
        Q::from_optional(unhashed::take(&Self::hashed_key()))
    }
    pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
        Self::try_mutate(|v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
        let mut v = Self::get();
        let r = f(&mut v);
        if r.is_ok() {
            Self::set(v)
        }
        r
    }
    pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
        let mut v = unhashed::get(&Self::hashed_key());
        let r = f(&mut v);
        write(&Self::hashed_key(), &v);
        r
    }
    pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
        let mut v = unhashed::get(&Self::hashed_key());
        let r = f(&mut v);
        if r.is_ok() {
            write(&Self::hashed_key(), &v)
        }
        r
    }
    pub fn translate<OV: Decode, F: FnOnce(Option<OV>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
        let old = match unhashed::get_raw(&Self::hashed_key()) {
            Some(r) => Some(OV::decode(&mut &r[..]).map_err(|_| ())?),
            None => None,
        };
        let new = f(old);
        write(&Self::hashed_key(), &new);
        Ok(new)
    }
    pub fn append<I: Encode>(item: I) {
        append(&Self::hashed_key(), &item)
    }
    pub fn decode_len() -> Option<usize>
    where
        V: codec::DecodeLength,
    {
        unhashed::get_raw(&Self::hashed_key()).and_then(|r| <V as codec::DecodeLength>::len(&r).ok())
    }
}
impl<P: StorageInstance, T: FullCodec, S: Get<u32>, Q: QueryKindTrait<bounded_collections::BoundedVec<T, S>, O>, O: 'static>
    StorageValue<P, bounded_collections::BoundedVec<T, S>, Q, O>
{
    pub fn try_append<I: Encode + EncodeLike<T>>(item: I) -> Result<(), ()> {
        let k = Self::hashed_key();
        let n = unhashed::get_raw(&k).and_then(|r| <Vec<T> as codec::DecodeLength>::len(&r).ok()).unwrap_or(0);
        if n < S::get() as usize {
            append(&k, &item);
            Ok(())
        } else {
            Err(())
        }
    }
}

pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
impl<P, H, K, V, Q: QueryKindTrait<V, O>, O, M> Gettable for StorageMap<P, H, K, V, Q, O, M> {
    type Key1 = K;
    type Key2 = ();
    type Query = Q::Query;
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
    pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
        let mut r = prefix::<P>();
        r.extend(k.using_encoded(H::hash));
        r
    }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
        unhashed::exists(&Self::hashed_key_for(k))
    }
    pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
        Q::from_optional(unhashed::get(&Self::hashed_key_for(k)))
    }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
        unhashed::get(&Self::hashed_key_for(k)).ok_or(())
    }
    pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
        unhashed::put(&Self::hashed_key_for(k), &v)
    }
    pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) {
        write(&Self::hashed_key_for(k), &Q::to_optional(q))
    }
    pub fn remove<A: EncodeLike<K>>(k: A) {
        unhashed::kill(&Self::hashed_key_for(k))
    }
    pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
        Q::from_optional(unhashed::take(&Self::hashed_key_for(k)))
    }
    pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
        let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
        let (va, vb) = (unhashed::get_raw(&ka), unhashed::get_raw(&kb));
        match vb {
            Some(v) => unhashed::put_raw(&ka, &v),
            None => unhashed::kill(&ka),
        }
        match va {
            Some(v) => unhashed::put_raw(&kb, &v),
            None => unhashed::kill(&kb),
        }
    }
    pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
        Self::try_mutate(k, |v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
        let key = Self::hashed_key_for(k);
        let mut v = Q::from_optional(unhashed::get(&key));
        let r = f(&mut v);
        if r.is_ok() {
            write(&key, &Q::to_optional(v))
        }
        r
    }
    pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
        Self::try_mutate_exists(k, |v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
        let key = Self::hashed_key_for(k);
        let mut v = unhashed::get(&key);
        let r = f(&mut v);
        if r.is_ok() {
            write(&key, &v)
        }
        r
    }
    pub fn append<A: EncodeLike<K>, I: Encode>(k: A, item: I) {
        append(&Self::hashed_key_for(k), &item)
    }
    pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
    where
        V: codec::DecodeLength,
    {
        unhashed::get_raw(&Self::hashed_key_for(k)).and_then(|r| <V as codec::DecodeLength>::len(&r).ok())
    }
    pub fn iter_values() -> std::vec::IntoIter<V> {
        unhashed::keys(&prefix::<P>()).into_iter().filter_map(|k| unhashed::get(&k)).collect::<Vec<_>>().into_iter()
    }
    pub fn clear(_limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        let n = unhashed::kill_prefix(&prefix::<P>());
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn remove_all(_limit: Option<u32>) -> u32 {
        unhashed::kill_prefix(&prefix::<P>())
    }
    pub fn translate_values<OV: Decode, F: FnMut(OV) -> Option<V>>(mut f: F) {
        for k in unhashed::keys(&prefix::<P>()) {
            if let Some(r) = unhashed::get_raw(&k) {
                if let Ok(o) = OV::decode(&mut &r[..]) {
                    write(&k, &f(o))
                }
            }
        }
    }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
    fn key_of(full: &[u8]) -> K {
        let p = prefix::<P>().len();
        K::decode(&mut H::reverse(&full[p..])).expect("stored key decodes")
    }
    pub fn iter() -> std::vec::IntoIter<(K, V)> {
        unhashed::keys(&prefix::<P>()).into_iter().filter_map(|k| unhashed::get(&k).map(|v| (Self::key_of(&k), v))).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_keys() -> std::vec::IntoIter<K> {
        unhashed::keys(&prefix::<P>()).into_iter().map(|k| Self::key_of(&k)).collect::<Vec<_>>().into_iter()
    }
    pub fn drain() -> std::vec::IntoIter<(K, V)> {
        let v: Vec<_> = Self::iter().collect();
        unhashed::kill_prefix(&prefix::<P>());
        v.into_iter()
    }
    pub fn translate<OV: Decode, F: FnMut(K, OV) -> Option<V>>(mut f: F) {
        for k in unhashed::keys(&prefix::<P>()) {
            if let Some(r) = unhashed::get_raw(&k) {
                if let Ok(o) = OV::decode(&mut &r[..]) {
                    write(&k, &f(Self::key_of(&k), o))
                }
            }
        }
    }
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, T: FullCodec, S: Get<u32>, Q: QueryKindTrait<bounded_collections::BoundedVec<T, S>, O>, O: 'static, M>
    StorageMap<P, H, K, bounded_collections::BoundedVec<T, S>, Q, O, M>
{
    pub fn try_append<A: EncodeLike<K>, I: Encode + EncodeLike<T>>(k: A, item: I) -> Result<(), ()> {
        let k = Self::hashed_key_for(k);
        let n = unhashed::get_raw(&k).and_then(|r| <Vec<T> as codec::DecodeLength>::len(&r).ok()).unwrap_or(0);
        if n < S::get() as usize {
            append(&k, &item);
            Ok(())
        } else {
            Err(())
        }
    }
}
pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault> = StorageMap<P, H, K, V, Q, O, M>;

pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>);
impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, O>, O, M> Gettable for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
    type Key1 = K1;
    type Key2 = K2;
    type Query = Q::Query;
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M>
    StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
{
    fn prefix1<A: EncodeLike<K1>>(k: A) -> Vec<u8> {
        let mut r = prefix::<P>();
        r.extend(k.using_encoded(H1::hash));
        r
    }
    pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
        let mut r = Self::prefix1(a);
        r.extend(b.using_encoded(H2::hash));
        r
    }
    pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
        unhashed::exists(&Self::hashed_key_for(a, b))
    }
    pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        Q::from_optional(unhashed::get(&Self::hashed_key_for(a, b)))
    }
    pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
        unhashed::get(&Self::hashed_key_for(a, b)).ok_or(())
    }
    pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
        unhashed::put(&Self::hashed_key_for(a, b), &v)
    }
    pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
        write(&Self::hashed_key_for(a, b), &Q::to_optional(q))
    }
    pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
        unhashed::kill(&Self::hashed_key_for(a, b))
    }
    pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        Q::from_optional(unhashed::take(&Self::hashed_key_for(a, b)))
    }
    pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
        Self::try_mutate(a, b, |v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
        let key = Self::hashed_key_for(a, b);
        let mut v = Q::from_optional(unhashed::get(&key));
        let r = f(&mut v);
        if r.is_ok() {
            write(&key, &Q::to_optional(v))
        }
        r
    }
    pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
        Self::try_mutate_exists(a, b, |v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
        let key = Self::hashed_key_for(a, b);
        let mut v = unhashed::get(&key);
        let r = f(&mut v);
        if r.is_ok() {
            write(&key, &v)
        }
        r
    }
    pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I: Encode>(a: A, b: B, item: I) {
        append(&Self::hashed_key_for(a, b), &item)
    }
    pub fn clear_prefix<A: EncodeLike<K1>>(a: A, _limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        let n = unhashed::kill_prefix(&Self::prefix1(a));
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn remove_prefix<A: EncodeLike<K1>>(a: A, _limit: Option<u32>) -> u32 {
        unhashed::kill_prefix(&Self::prefix1(a))
    }
    pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<V> {
        unhashed::keys(&Self::prefix1(a)).into_iter().filter_map(|k| unhashed::get(&k)).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_values() -> std::vec::IntoIter<V> {
        unhashed::keys(&prefix::<P>()).into_iter().filter_map(|k| unhashed::get(&k)).collect::<Vec<_>>().into_iter()
    }
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M>
    StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
{
    fn keys_of(full: &[u8]) -> (K1, K2) {
        let p = prefix::<P>().len();
        let mut a = H1::reverse(&full[p..]);
        let k1 = K1::decode(&mut a).expect("stored key decodes");
        let k2 = K2::decode(&mut H2::reverse(a)).expect("stored key decodes");
        (k1, k2)
    }
    pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
        unhashed::keys(&prefix::<P>())
            .into_iter()
            .filter_map(|k| {
                unhashed::get(&k).map(|v| {
                    let (a, b) = Self::keys_of(&k);
                    (a, b, v)
                })
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
        unhashed::keys(&prefix::<P>()).into_iter().map(|k| Self::keys_of(&k)).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)> {
        unhashed::keys(&Self::prefix1(a)).into_iter().filter_map(|k| unhashed::get(&k).map(|v| (Self::keys_of(&k).1, v))).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2> {
        unhashed::keys(&Self::prefix1(a)).into_iter().map(|k| Self::keys_of(&k).1).collect::<Vec<_>>().into_iter()
    }
    pub fn drain_prefix<A: EncodeLike<K1> + Clone>(a: A) -> std::vec::IntoIter<(K2, V)> {
        let v: Vec<_> = Self::iter_prefix(a.clone()).collect();
        unhashed::kill_prefix(&Self::prefix1(a));
        v.into_iter()
    }
    pub fn drain() -> std::vec::IntoIter<(K1, K2, V)> {
        let v: Vec<_> = Self::iter().collect();
        unhashed::kill_prefix(&prefix::<P>());
        v.into_iter()
    }
}

pub struct Key<H, K>(PhantomData<(H, K)>);
pub trait NKey {
    type Tuple;
    fn hash(t: &[u8], out: &mut Vec<u8>);
}
/// Maps with more than two keys.
pub struct StorageNMap<P, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, K, V, Q, O, M)>);
pub trait NKeys {
    type Arg: Encode;
    fn hash(a: &Self::Arg) -> Vec<u8>;
}
impl<H1: StorageHasher, K1: Encode, H2: StorageHasher, K2: Encode> NKeys for (Key<H1, K1>, Key<H2, K2>) {
    type Arg = (K1, K2);
    fn hash(a: &(K1, K2)) -> Vec<u8> {
        let mut r = a.0.using_encoded(H1::hash);
        r.extend(a.1.using_encoded(H2::hash));
        r
    }
}
impl<H1: StorageHasher, K1: Encode, H2: StorageHasher, K2: Encode, H3: StorageHasher, K3: Encode> NKeys for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>) {
    type Arg = (K1, K2, K3);
    fn hash(a: &(K1, K2, K3)) -> Vec<u8> {
        let mut r = a.0.using_encoded(H1::hash);
        r.extend(a.1.using_encoded(H2::hash));
        r.extend(a.2.using_encoded(H3::hash));
        r
    }
}
impl<P: StorageInstance, K: NKeys, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M> StorageNMap<P, K, V, Q, O, M> {
    fn full(k: &K::Arg) -> Vec<u8> {
        let mut r = prefix::<P>();
        r.extend(K::hash(k));
        r
    }
    pub fn contains_key(k: K::Arg) -> bool {
        unhashed::exists(&Self::full(&k))
    }
    pub fn get(k: K::Arg) -> Q::Query {
        Q::from_optional(unhashed::get(&Self::full(&k)))
    }
    pub fn insert<B: EncodeLike<V>>(k: K::Arg, v: B) {
        unhashed::put(&Self::full(&k), &v)
    }
    pub fn remove(k: K::Arg) {
        unhashed::kill(&Self::full(&k))
    }
    pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(k: K::Arg, f: F) -> R {
        Self::try_mutate(k, |v| Ok::<R, ()>(f(v))).unwrap()
    }
    pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: K::Arg, f: F) -> Result<R, E> {
        let key = Self::full(&k);
        let mut v = Q::from_optional(unhashed::get(&key));
        let r = f(&mut v);
        if r.is_ok() {
            write(&key, &Q::to_optional(v))
        }
        r
    }
}
