//! Scheduling and preimages, as far as `democracy` uses them.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::H256;
use sp_runtime::{DispatchError, RuntimeDebug};
use std::borrow::Cow;

pub type Priority = u8;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;
pub const HIGHEST_PRIORITY: Priority = 0;
pub type Period<B> = (B, u32);
pub type Hash = H256;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, RuntimeDebug, TypeInfo, MaxEncodedLen)]
pub enum DispatchTime<BlockNumber> {
    At(BlockNumber),
    After(BlockNumber),
}
pub type BoundedInline = bounded_collections::BoundedVec<u8, bounded_collections::ConstU32<128>>;

#[derive(Encode, Decode, TypeInfo, MaxEncodedLen)]
#[codec(mel_bound())]
#[scale_info(skip_type_params(T))]
pub enum Bounded<T> {
    Legacy { hash: Hash, #[codec(skip)] dummy: core::marker::PhantomData<T> },
    Inline(BoundedInline),
    Lookup { hash: Hash, len: u32 },
}
impl<T> Clone for Bounded<T> {
    fn clone(&self) -> Self {
        match self {
            Bounded::Legacy { hash, .. } => Bounded::Legacy { hash: *hash, dummy: Default::default() },
            Bounded::Inline(x) => Bounded::Inline(x.clone()),
            Bounded::Lookup { hash, len } => Bounded::Lookup { hash: *hash, len: *len },
        }
    }
}
impl<T> PartialEq for Bounded<T> {
    fn eq(&self, o: &Self) -> bool {
        self.encode() == o.encode()
    }
}
impl<T> Eq for Bounded<T> {}
impl<T> core::fmt::Debug for Bounded<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "Bounded({:?})", self.hash())
    }
}
impl<T> Bounded<T> {
    pub fn unrequest<P: QueryPreimage>(&self) {
        P::unrequest(&self.hash())
    }
    pub fn hash(&self) -> H256 {
        match self {
            Bounded::Legacy { hash, .. } => *hash,
            Bounded::Inline(x) => sp_io::hashing::blake2_256(x.as_ref()).into(),
            Bounded::Lookup { hash, .. } => *hash,
        }
    }
    pub fn lookup_needed(&self) -> bool {
        !matches!(self, Bounded::Inline(..))
    }
    pub fn lookup_len(&self) -> Option<u32> {
        match self {
            Bounded::Lookup { len, .. } => Some(*len),
            _ => None,
        }
    }
    pub fn len(&self) -> Option<u32> {
        match self {
            Bounded::Legacy { .. } => None,
            Bounded::Inline(i) => Some(i.len() as u32),
            Bounded::Lookup { len, .. } => Some(*len),
        }
    }
}
pub type FetchResult = Result<Cow<'static, [u8]>, DispatchError>;
pub trait QueryPreimage {
    fn len(hash: &Hash) -> Option<u32>;
    fn fetch(hash: &Hash, len: Option<u32>) -> FetchResult;
    fn is_requested(hash: &Hash) -> bool;
    fn request(hash: &Hash);
    fn unrequest(hash: &Hash);
    fn hold<T>(bounded: &Bounded<T>) {
        if bounded.lookup_needed() {
            Self::request(&bounded.hash())
        }
    }
    fn drop<T>(bounded: &Bounded<T>) {
        if bounded.lookup_needed() {
            Self::unrequest(&bounded.hash())
        }
    }
    fn have<T>(bounded: &Bounded<T>) -> bool {
        match bounded {
            Bounded::Inline(..) => true,
            b => Self::len(&b.hash()).is_some(),
        }
    }
    fn peek<T: Decode>(bounded: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        match bounded {
            Bounded::Inline(data) => T::decode(&mut &data[..]).map(|x| (x, None)).map_err(|_| DispatchError::Corruption),
            Bounded::Lookup { hash, len } => {
                let d = Self::fetch(hash, Some(*len))?;
                T::decode(&mut &d[..]).map(|x| (x, Some(d.len() as u32))).map_err(|_| DispatchError::Corruption)
            }
            Bounded::Legacy { hash, .. } => {
                let d = Self::fetch(hash, None)?;
                T::decode(&mut &d[..]).map(|x| (x, Some(d.len() as u32))).map_err(|_| DispatchError::Corruption)
            }
        }
    }
    fn realize<T: Decode>(bounded: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let r = Self::peek(bounded)?;
        Self::drop(bounded);
        Ok(r)
    }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize;
    fn note(bytes: Cow<[u8]>) -> Result<Hash, DispatchError>;
    fn unnote(hash: &Hash) {
        Self::unrequest(hash)
    }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T>, DispatchError> {
        let data = t.encode();
        let len = data.len() as u32;
        Ok(match BoundedInline::try_from(data) {
            Ok(b) => Bounded::Inline(b),
            Err(unbounded) => Bounded::Lookup { hash: Self::note(unbounded.into())?, len },
        })
    }
}
impl QueryPreimage for () {
    fn len(_: &Hash) -> Option<u32> {
        None
    }
    fn fetch(_: &Hash, _: Option<u32>) -> FetchResult {
        Err(DispatchError::Unavailable)
    }
    fn is_requested(_: &Hash) -> bool {
        false
    }
    fn request(_: &Hash) {}
    fn unrequest(_: &Hash) {}
}
impl StorePreimage for () {
    const MAX_LENGTH: usize = 0;
    fn note(_: Cow<[u8]>) -> Result<Hash, DispatchError> {
        Err(DispatchError::Exhausted)
    }
}
pub mod v3 {
    use super::*;
    pub type TaskName = [u8; 32];
    pub trait Anon<BlockNumber, Call, Origin> {
        type Address: codec::Codec + MaxEncodedLen + Clone + Eq + codec::EncodeLike + core::fmt::Debug + TypeInfo;
        fn schedule(when: DispatchTime<BlockNumber>, maybe_periodic: Option<Period<BlockNumber>>, priority: Priority, origin: Origin, call: Bounded<Call>) -> Result<Self::Address, DispatchError>;
        fn cancel(address: Self::Address) -> Result<(), DispatchError>;
    }
    pub trait Named<BlockNumber, Call, Origin> {
        type Address: codec::Codec + MaxEncodedLen + Clone + Eq + codec::EncodeLike + core::fmt::Debug + TypeInfo;
        fn schedule_named(id: TaskName, when: DispatchTime<BlockNumber>, maybe_periodic: Option<Period<BlockNumber>>, priority: Priority, origin: Origin, call: Bounded<Call>) -> Result<Self::Address, DispatchError>;
        fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
        fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
        fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
    }
}
