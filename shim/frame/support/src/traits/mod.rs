use crate::dispatch::{DispatchResultWithPostInfo, RawOrigin};
use codec::{Decode, Encode, MaxEncodedLen};
use impl_trait_for_tuples::impl_for_tuples;
use sp_runtime::{traits::AtLeast32BitUnsigned, DispatchError, RuntimeDebug};
pub use bounded_collections::{Get, GetDefault, TypedGet};
pub use bounded_collections::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
pub use sp_runtime::traits::{
    BlakeTwo256, Convert, CheckedConversion,
};
use sp_weights::Weight;

pub mod currency;
pub use currency::*;
pub mod schedule;
pub use schedule::{Bounded, QueryPreimage, StorePreimage};
pub mod tokens;
pub use tokens::{BalanceStatus, ExistenceRequirement, WithdrawReasons};

pub trait StorageInstance {
    fn pallet_prefix() -> &'static str;
    const STORAGE_PREFIX: &'static str;
}
pub trait StorageInfoTrait {}

// --- origins
pub trait CallerTrait<AccountId> {
    fn into_system(self) -> Option<RawOrigin<AccountId>>;
    fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
    fn as_signed(&self) -> Option<&AccountId> {
        self.as_system_ref().and_then(RawOrigin::as_signed)
    }
}
pub trait OriginTrait: Sized {
    type Call;
    type PalletsOrigin: Into<Self> + Clone;
    type AccountId;
    fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
    fn reset_filter(&mut self);
    fn set_caller_from(&mut self, other: impl Into<Self>);
    fn filter_call(&self, call: &Self::Call) -> bool;
    fn caller(&self) -> &Self::PalletsOrigin;
    fn none() -> Self;
    fn root() -> Self;
    fn signed(by: Self::AccountId) -> Self;
    fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
    fn as_signed(&self) -> Option<&Self::AccountId> {
        self.as_system_ref().and_then(RawOrigin::as_signed)
    }
}
pub trait EnsureOrigin<OuterOrigin> {
    type Success;
    fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, sp_runtime::traits::BadOrigin> {
        Self::try_origin(o).map_err(|_| sp_runtime::traits::BadOrigin)
    }
    fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub struct EitherOfDiverse<L, R>(core::marker::PhantomData<(L, R)>);
pub enum Either<A, B> {
    Left(A),
    Right(B),
}
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
    type Success = Either<L::Success, R::Success>;
    fn try_origin(o: O) -> Result<Self::Success, O> {
        L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |s| Ok(Either::Left(s)))
    }
}
pub struct NeverEnsureOrigin<S>(core::marker::PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
    type Success = S;
    fn try_origin(o: O) -> Result<S, O> {
        Err(o)
    }
}

// --- membership
pub trait Contains<T> {
    fn contains(t: &T) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
    fn contains(_: &T) -> bool {
        true
    }
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
    fn contains(_: &T) -> bool {
        false
    }
}
pub struct InsideBoth<A, B>(core::marker::PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
    fn contains(t: &T) -> bool {
        A::contains(t) && B::contains(t)
    }
}
#[impl_for_tuples(1, 30)]
impl<T> Contains<T> for Tuple {
    fn contains(t: &T) -> bool {
        for_tuples!( #( if Tuple::contains(t) { return true } )* );
        false
    }
}
pub trait SortedMembers<T: Ord> {
    fn contains(t: &T) -> bool {
        Self::sorted_members().binary_search(t).is_ok()
    }
    fn sorted_members() -> Vec<T>;
    fn count() -> usize {
        Self::sorted_members().len()
    }
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
    fn filter(&self, _: &T) -> bool;
    fn is_superset(&self, _: &Self) -> bool {
        false
    }
}
pub trait PrivilegeCmp<O> {
    fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
    fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering> {
        (l == r).then(|| core::cmp::Ordering::Equal)
    }
}

// --- calls
pub trait UnfilteredDispatchable {
    type RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait GetCallName {
    fn get_call_names() -> &'static [&'static str];
    fn get_call_name(&self) -> &'static str;
}
#[derive(Clone, Eq, PartialEq, Default, RuntimeDebug)]
pub struct CallMetadata {
    pub function_name: &'static str,
    pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}
pub trait IsSubType<T> {
    fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
    fn from_ref(t: &T) -> &Self;
    fn into_ref(&self) -> &T;
    fn from_mut(t: &mut T) -> &mut Self;
    fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
    fn from_ref(t: &T) -> &Self {
        t
    }
    fn into_ref(&self) -> &T {
        self
    }
    fn from_mut(t: &mut T) -> &mut Self {
        t
    }
    fn into_mut(&mut self) -> &mut T {
        self
    }
}

// --- pallets
pub trait PalletInfo {
    fn index<P: 'static>() -> Option<usize>;
    fn name<P: 'static>() -> Option<&'static str>;
}
impl PalletInfo for () {
    fn index<P: 'static>() -> Option<usize> {
        Some(0)
    }
    fn name<P: 'static>() -> Option<&'static str> {
        Some("test")
    }
}
pub trait PalletInfoAccess {
    fn index() -> usize;
    fn name() -> &'static str;
    fn module_name() -> &'static str;
}
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)]
pub struct StorageVersion(u16);
impl PartialEq<u16> for StorageVersion {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u16> for StorageVersion {
    fn partial_cmp(&self, o: &u16) -> Option<core::cmp::Ordering> {
        Some(self.0.cmp(o))
    }
}
impl StorageVersion {
    pub const fn new(v: u16) -> Self {
        Self(v)
    }
    fn key<P: PalletInfoAccess>() -> Vec<u8> {
        crate::migration::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
    }
    pub fn put<P: PalletInfoAccess>(&self) {
        crate::storage::unhashed::put(&Self::key::<P>(), self)
    }
    pub fn get<P: PalletInfoAccess>() -> Self {
        crate::storage::unhashed::get_or_default(&Self::key::<P>())
    }
}
pub trait GetStorageVersion {
    fn current_storage_version() -> StorageVersion;
    fn on_chain_storage_version() -> StorageVersion;
}
pub trait BuildGenesisConfig: Default {
    fn build(&self);
}

// --- hooks
pub trait Hooks<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
    fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
        Weight::zero()
    }
    fn on_initialize(_n: BlockNumber) -> Weight {
        Weight::zero()
    }
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
    fn offchain_worker(_n: BlockNumber) {}
    fn integrity_test() {}
}
pub trait OnInitialize<B> {
    fn on_initialize(_n: B) -> Weight {
        Weight::zero()
    }
}
pub trait OnFinalize<B> {
    fn on_finalize(_n: B) {}
}
pub trait OnIdle<B> {
    fn on_idle(_n: B, _w: Weight) -> Weight {
        Weight::zero()
    }
}
pub trait OffchainWorker<B> {
    fn offchain_worker(_n: B) {}
}
pub trait IntegrityTest {
    fn integrity_test() {}
}
pub trait OnRuntimeUpgrade {
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
}
#[impl_for_tuples(40)]
impl<B: Clone> OnInitialize<B> for Tuple {
    fn on_initialize(n: B) -> Weight {
        let mut w = Weight::zero();
        for_tuples!( #( w = w.saturating_add(Tuple::on_initialize(n.clone())); )* );
        w
    }
}
#[impl_for_tuples(40)]
impl<B: Clone> OnFinalize<B> for Tuple {
    fn on_finalize(n: B) {
        for_tuples!( #( Tuple::on_finalize(n.clone()); )* );
    }
}
#[impl_for_tuples(40)]
impl OnRuntimeUpgrade for Tuple {
    fn on_runtime_upgrade() -> Weight {
        let mut w = Weight::zero();
        for_tuples!( #( w = w.saturating_add(Tuple::on_runtime_upgrade()); )* );
        w
    }
}
#[impl_for_tuples(30)]
pub trait OnNewAccount<AccountId> {
    fn on_new_account(who: &AccountId);
}
#[impl_for_tuples(30)]
pub trait OnKilledAccount<AccountId> {
    fn on_killed_account(who: &AccountId);
}
pub trait HandleLifetime<T> {
    fn created(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
    fn killed(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
}
pub trait StoredMap<K, T: Default> {
    fn get(k: &K) -> T;
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
    fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
        Self::mutate_exists(k, |m| {
            let mut v = m.take().unwrap_or_default();
            let r = f(&mut v);
            *m = Some(v);
            r
        })
    }
    fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
        Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
    }
    fn insert(k: &K, t: T) -> Result<(), DispatchError> {
        Self::mutate(k, |i| *i = t)
    }
    fn remove(k: &K) -> Result<(), DispatchError> {
        Self::mutate_exists(k, |x| *x = None)
    }
}

// --- time
pub trait Time {
    type Moment: AtLeast32BitUnsigned + crate::dispatch::Parameter + Default + Copy + MaxEncodedLen;
    fn now() -> Self::Moment;
}
pub trait UnixTime {
    fn now() -> core::time::Duration;
}
#[impl_for_tuples(30)]
pub trait OnTimestampSet<Moment> {
    fn on_timestamp_set(moment: Moment);
}

// --- consensus
pub trait FindAuthor<Author> {
    fn find_author<'a, I>(digests: I) -> Option<Author>
    where
        I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>;
}
pub trait ValidatorRegistration<ValidatorId> {
    fn is_registered(id: &ValidatorId) -> bool;
}
