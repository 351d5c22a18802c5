//! The part of `frame-system` the pallets under test use: block context, events, accounts and their references, origins.
extern crate self as frame_system;
use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use frame_support::{
    dispatch::{DispatchInfo, DispatchResultWithPostInfo, Parameter},
    storage::types::{OptionQuery, StorageMap, StorageValue, ValueQuery},
    traits::{Contains, EnsureOrigin, Get, HandleLifetime, OnKilledAccount, OnNewAccount, OriginTrait, PalletInfo, SortedMembers, StorageInstance, StoredMap},
    Blake2_128Concat, Twox64Concat,
};
pub use frame_support::dispatch::RawOrigin;
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{self, AtLeast32Bit, AtLeast32BitUnsigned, BadOrigin, Block as BlockT, Bounded, Dispatchable, Hash as HashT, Header as HeaderT, MaybeDisplay, MaybeSerializeDeserialize, Member, One, Saturating, SimpleBitOps, StaticLookup, Zero},
    DispatchError, RuntimeDebug,
};
use std::fmt::Debug;
use std::marker::PhantomData;

pub mod mocking {
    use super::*;
    use sp_runtime::generic;
    pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> =
        generic::UncheckedExtrinsic<<T as Config>::AccountId, <T as Config>::RuntimeCall, Signature, Extra>;
    /// Only the number type of a block matters here.
    pub struct NumberedBlock<N, T>(PhantomData<(N, T)>);
    pub type MockBlock<T> = NumberedBlock<u64, T>;
    pub type MockBlockU32<T> = NumberedBlock<u32, T>;
}

pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <<T as crate::Config>::Block as crate::BlockNumber>::Number;
}
use pallet_prelude::BlockNumberFor;

pub mod limits {
    #[derive(Clone, Default)]
    pub struct BlockWeights;
    impl BlockWeights {
        pub fn simple_max(_: sp_weights::Weight) -> Self {
            BlockWeights
        }
    }
    #[derive(Clone, Default)]
    pub struct BlockLength;
}

pub trait Config: 'static + Eq + Clone {
    type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug;
    type BaseCallFilter: Contains<Self::RuntimeCall>;
    type BlockWeights;
    type BlockLength;
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
        + From<RawOrigin<Self::AccountId>>
        + Clone
        + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
    type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug;
    type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
    type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + SimpleBitOps + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
    type Hashing: HashT<Output = Self::Hash> + TypeInfo;
    type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen;
    type Lookup: StaticLookup<Target = Self::AccountId>;
    type Block: BlockNumber;
    type BlockHashCount: Get<BlockNumberFor<Self>>;
    type DbWeight: Get<sp_weights::RuntimeDbWeight>;
    type Version;
    type PalletInfo: PalletInfo;
    type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
    type OnNewAccount: OnNewAccount<Self::AccountId>;
    type OnKilledAccount: OnKilledAccount<Self::AccountId>;
    type SystemWeightInfo;
    type SS58Prefix;
    type OnSetCode;
    type MaxConsumers;
}
/// The number type of a block's header, with the bounds pallets rely on.
pub trait BlockNumber {
    type Number: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + AtLeast32BitUnsigned + Default + Bounded + Copy + std::hash::Hash + std::str::FromStr + MaxEncodedLen + TypeInfo + FullCodec;
}
impl<N, T> BlockNumber for mocking::NumberedBlock<N, T>
where
    N: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + AtLeast32BitUnsigned + Default + Bounded + Copy + std::hash::Hash + std::str::FromStr + MaxEncodedLen + TypeInfo + FullCodec,
{
    type Number = N;
}

pub struct DbW;

#[derive(Clone, Eq, PartialEq, RuntimeDebug, Encode, Decode)]
pub enum Phase {
    ApplyExtrinsic(u32),
    Finalization,
    Initialization,
}
impl Default for Phase {
    fn default() -> Self {
        Self::Initialization
    }
}
#[derive(Clone, Eq, PartialEq, RuntimeDebug, Encode, Decode)]
pub struct EventRecord<E: Parameter + Member, T> {
    pub phase: Phase,
    pub event: E,
    pub topics: Vec<T>,
}
#[derive(Clone, Eq, PartialEq, Default, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
    pub nonce: Nonce,
    pub consumers: u32,
    pub providers: u32,
    pub sufficients: u32,
    pub data: AccountData,
}

#[derive(frame_support::CloneNoBound, frame_support::PartialEqNoBound, frame_support::EqNoBound, frame_support::RuntimeDebugNoBound, Encode, Decode)]
pub enum Event<T: Config> {
    NewAccount { account: T::AccountId },
    KilledAccount { account: T::AccountId },
    Remarked { sender: T::AccountId, hash: T::Hash },
    #[codec(skip)]
    #[doc(hidden)]
    __Ignore(PhantomData<T>, frame_support::Never),
}
impl<T: Config> From<Event<T>> for () {
    fn from(_: Event<T>) {}
}
pub enum Error<T> {
    #[doc(hidden)]
    __Ignore(PhantomData<T>, frame_support::Never),
    InvalidSpecName,
    SpecVersionNeedsToIncrease,
    FailedToExtractRuntimeVersion,
    NonDefaultComposite,
    NonZeroRefCount,
    CallFiltered,
}
impl<T> Debug for Error<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("system error")
    }
}
impl<T: Config> From<Error<T>> for DispatchError {
    fn from(e: Error<T>) -> Self {
        let (i, m) = match e {
            Error::CallFiltered => (5, "CallFiltered"),
            Error::NonZeroRefCount => (4, "NonZeroRefCount"),
            _ => (0, "InvalidSpecName"),
        };
        DispatchError::Module(sp_runtime::ModuleError { index: 0, error: [i, 0, 0, 0], message: Some(m) })
    }
}
macro_rules! item {
    ($pre:ident, $name:literal) => {
        #[doc(hidden)]
        pub struct $pre<T>(PhantomData<T>);
        impl<T> StorageInstance for $pre<T> {
            fn pallet_prefix() -> &'static str {
                "System"
            }
            const STORAGE_PREFIX: &'static str = $name;
        }
    };
}
item!(PNumber, "Number");
item!(PAccount, "Account");
item!(PEvents, "Events");
item!(PEventCount, "EventCount");
item!(PBlockHash, "BlockHash");
item!(PParent, "ParentHash");
item!(PXt, "ExtrinsicCount");
item!(PDigest, "Digest");

pub type Number<T> = StorageValue<PNumber<T>, BlockNumberFor<T>, ValueQuery>;
pub type Account<T> = StorageMap<PAccount<T>, Blake2_128Concat, <T as Config>::AccountId, AccountInfo<<T as Config>::Nonce, <T as Config>::AccountData>, ValueQuery>;
pub type Events<T> = StorageValue<PEvents<T>, Vec<EventRecord<<T as Config>::RuntimeEvent, <T as Config>::Hash>>, ValueQuery>;
pub type EventCount<T> = StorageValue<PEventCount<T>, u32, ValueQuery>;
pub type BlockHash<T> = StorageMap<PBlockHash<T>, Twox64Concat, BlockNumberFor<T>, <T as Config>::Hash, ValueQuery>;
pub type ParentHash<T> = StorageValue<PParent<T>, <T as Config>::Hash, ValueQuery>;
pub type Digests<T> = StorageValue<PDigest<T>, sp_runtime::Digest, OptionQuery>;

#[derive(frame_support::CloneNoBound, frame_support::PartialEqNoBound, frame_support::EqNoBound, frame_support::RuntimeDebugNoBound)]
pub struct Pallet<T>(PhantomData<T>);

#[derive(Eq, PartialEq, RuntimeDebug, Clone, Copy)]
pub enum RefStatus {
    Referenced,
    Unreferenced,
}
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum IncRefStatus {
    Created,
    Existed,
}
#[derive(Eq, PartialEq, RuntimeDebug)]
pub enum DecRefStatus {
    Reaped,
    Exists,
}

impl<T: Config> Pallet<T> {
    pub fn block_number() -> BlockNumberFor<T> {
        Number::<T>::get()
    }
    pub fn set_block_number(n: BlockNumberFor<T>) {
        Number::<T>::put(n)
    }
    pub fn parent_hash() -> T::Hash {
        ParentHash::<T>::get()
    }
    pub fn set_parent_hash(h: T::Hash) {
        ParentHash::<T>::put(h)
    }
    pub fn block_hash(n: BlockNumberFor<T>) -> T::Hash {
        BlockHash::<T>::get(n)
    }
    pub fn extrinsic_index() -> Option<u32> {
        frame_support::storage::unhashed::get(b":extrinsic_index")
    }
    pub fn set_extrinsic_index(i: u32) {
        frame_support::storage::unhashed::put(b":extrinsic_index", &i)
    }
    pub fn initialize(number: &BlockNumberFor<T>, parent: &T::Hash, _digest: &sp_runtime::Digest) {
        Number::<T>::put(*number);
        ParentHash::<T>::put(*parent);
        BlockHash::<T>::insert(number.saturating_sub(One::one()), *parent);
    }
    pub fn digest() -> sp_runtime::Digest {
        Digests::<T>::get().unwrap_or_default()
    }
    pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
        Events::<T>::get()
    }
    pub fn event_count() -> u32 {
        EventCount::<T>::get()
    }
    pub fn reset_events() {
        Events::<T>::kill();
        EventCount::<T>::kill();
    }
    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
        // no events in the genesis block
        if Self::block_number().is_zero() {
            return;
        }
        EventCount::<T>::mutate(|c| *c += 1);
        Events::<T>::append(EventRecord { phase: Phase::Initialization, event: event.into(), topics: Vec::<T::Hash>::new() });
    }
    pub fn assert_has_event(event: T::RuntimeEvent) {
        assert!(Self::events().iter().any(|r| r.event == event), "event {:?} not found in {:?}", event, Self::events().iter().map(|r| r.event.clone()).collect::<Vec<_>>())
    }
    pub fn assert_last_event(event: T::RuntimeEvent) {
        assert_eq!(Self::events().last().expect("events expected").event, event);
    }
    pub fn remark(_origin: T::RuntimeOrigin, _remark: Vec<u8>) -> DispatchResultWithPostInfo {
        Ok(().into())
    }
    pub fn account(who: &T::AccountId) -> AccountInfo<T::Nonce, T::AccountData> {
        Account::<T>::get(who)
    }
    pub fn account_exists(who: &T::AccountId) -> bool {
        Account::<T>::contains_key(who)
    }
    pub fn account_nonce(who: impl codec::EncodeLike<T::AccountId>) -> T::Nonce {
        Account::<T>::get(who).nonce
    }
    pub fn inc_account_nonce(who: impl codec::EncodeLike<T::AccountId>) {
        Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one())
    }
    fn on_created(who: &T::AccountId) {
        T::OnNewAccount::on_new_account(who);
        Self::deposit_event(Event::NewAccount { account: who.clone() });
    }
    fn on_killed(who: T::AccountId) {
        T::OnKilledAccount::on_killed_account(&who);
        Self::deposit_event(Event::KilledAccount { account: who });
    }
    pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
        Account::<T>::mutate(who, |a| {
            if a.providers == 0 && a.sufficients == 0 {
                a.providers = 1;
                Self::on_created(who);
                IncRefStatus::Created
            } else {
                a.providers = a.providers.saturating_add(1);
                IncRefStatus::Existed
            }
        })
    }
    pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
        Account::<T>::try_mutate_exists(who, |m| {
            if let Some(mut a) = m.take() {
                if a.providers == 0 {
                    a.providers = 1;
                }
                match (a.providers, a.consumers, a.sufficients) {
                    (1, 0, 0) => {
                        Self::on_killed(who.clone());
                        Ok(DecRefStatus::Reaped)
                    }
                    (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
                    (x, _, _) => {
                        a.providers = x - 1;
                        *m = Some(a);
                        Ok(DecRefStatus::Exists)
                    }
                }
            } else {
                Ok(DecRefStatus::Reaped)
            }
        })
    }
    pub fn providers(who: &T::AccountId) -> u32 {
        Account::<T>::get(who).providers
    }
    pub fn consumers(who: &T::AccountId) -> u32 {
        Account::<T>::get(who).consumers
    }
    pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                a.consumers = a.consumers.saturating_add(1);
                Ok(())
            } else {
                Err(DispatchError::NoProviders)
            }
        })
    }
    pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
        Self::inc_consumers(who)
    }
    pub fn dec_consumers(who: &T::AccountId) {
        Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
    }
    pub fn can_inc_consumer(who: &T::AccountId) -> bool {
        Account::<T>::get(who).providers > 0
    }
    pub fn can_dec_provider(who: &T::AccountId) -> bool {
        let a = Account::<T>::get(who);
        a.consumers == 0 || a.providers > 1
    }
    pub fn register_extra_weight_unchecked(_w: sp_weights::Weight, _c: frame_support::dispatch::DispatchClass) {}
    pub fn note_finished_extrinsics() {}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
    fn get(k: &T::AccountId) -> T::AccountData {
        Account::<T>::get(k).data
    }
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
        let account = Account::<T>::get(k);
        let is_default = account.data.encode() == T::AccountData::default().encode();
        let mut some = if is_default { None } else { Some(account.data) };
        let r = f(&mut some)?;
        if Self::providers(k) > 0 || Account::<T>::get(k).sufficients > 0 {
            Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default());
        } else if let Some(d) = some {
            // keep the data without a provider, as pallet-balances adds the provider itself
            Account::<T>::mutate(k, |a| a.data = d);
        }
        Ok(r)
    }
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {}
impl<T: Config> frame_support::traits::PalletInfoAccess for Pallet<T> {
    fn index() -> usize {
        0
    }
    fn name() -> &'static str {
        "System"
    }
    fn module_name() -> &'static str {
        "frame_system"
    }
}
impl<T: Config> frame_support::traits::OnInitialize<BlockNumberFor<T>> for Pallet<T> {}
impl<T: Config> frame_support::traits::OnFinalize<BlockNumberFor<T>> for Pallet<T> {}
impl<T: Config> frame_support::traits::OnRuntimeUpgrade for Pallet<T> {}
impl<T: Config> frame_support::traits::Hooks<BlockNumberFor<T>> for Pallet<T> {}

#[derive(frame_support::CloneNoBound, frame_support::PartialEqNoBound, frame_support::EqNoBound, frame_support::RuntimeDebugNoBound, Encode, Decode)]
#[codec(encode_bound())]
#[codec(decode_bound())]
#[allow(non_camel_case_types)]
pub enum Call<T: Config> {
    #[codec(skip)]
    __Ignore(PhantomData<T>, frame_support::Never),
    #[codec(index = 0)]
    remark { remark: Vec<u8> },
    #[codec(index = 7)]
    remark_with_event { remark: Vec<u8> },
}
impl<T: Config> frame_support::traits::UnfilteredDispatchable for Call<T> {
    type RuntimeOrigin = T::RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: T::RuntimeOrigin) -> DispatchResultWithPostInfo {
        match self {
            Call::remark { .. } => Ok(().into()),
            Call::remark_with_event { remark } => {
                let sender = ensure_signed(origin)?;
                Pallet::<T>::deposit_event(Event::Remarked { sender, hash: T::Hashing::hash(&remark) });
                Ok(().into())
            }
            _ => unreachable!(),
        }
    }
}
impl<T: Config> frame_support::traits::GetCallName for Call<T> {
    fn get_call_names() -> &'static [&'static str] {
        &["remark", "remark_with_event"]
    }
    fn get_call_name(&self) -> &'static str {
        match self {
            Call::remark { .. } => "remark",
            _ => "remark_with_event",
        }
    }
}
impl<T: Config> frame_support::dispatch::GetDispatchInfo for Call<T> {
    fn get_dispatch_info(&self) -> DispatchInfo {
        Default::default()
    }
}
impl<T: Config> frame_support::dispatch::Callable<T> for Pallet<T> {
    type RuntimeCall = Call<T>;
}

#[derive(frame_support::DefaultNoBound)]
pub struct GenesisConfig<T: Config> {
    pub _config: PhantomData<T>,
}
impl<T: Config> frame_support::traits::BuildGenesisConfig for GenesisConfig<T> {
    fn build(&self) {}
}
impl<T: Config> sp_runtime::BuildStorage for GenesisConfig<T> {
    fn assimilate_storage(&self, _s: &mut sp_runtime::Storage) -> Result<(), String> {
        Ok(())
    }
}

// --- origins
pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(None),
        Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(w) => Ok(w),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSignedBy<Who, A>(PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<Who, A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(ref w) if Who::contains(w) => Ok(w.clone()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
    type Success = S;
    fn try_origin(o: O) -> Result<S, O> {
        Err(o)
    }
}

pub mod offchain {
    use codec::Encode;
    pub trait SendTransactionTypes<LocalCall> {
        type Extrinsic: sp_runtime::traits::Extrinsic<Call = Self::OverarchingCall> + Encode;
        type OverarchingCall: From<LocalCall> + Encode;
    }
    pub struct SubmitTransaction<T, C>(std::marker::PhantomData<(T, C)>);
    impl<T: SendTransactionTypes<LocalCall>, LocalCall> SubmitTransaction<T, LocalCall> {
        pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> {
            let xt = <T::Extrinsic as sp_runtime::traits::Extrinsic>::new(call, None).ok_or(())?;
            sp_io::offchain::submit_transaction(xt.encode())
        }
    }
}
pub mod weights {}
