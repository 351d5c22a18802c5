//! Calls dispatched at a later block (polkadot-v1.0 behaviour, without weights and retries).
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use codec::{Decode, Encode};
    use frame_support::{
        dispatch::Dispatchable,
        pallet_prelude::*,
        traits::{
            schedule::{self, DispatchTime, Period, Priority},
            Bounded, EnsureOrigin, IsType, PrivilegeCmp, QueryPreimage, StorePreimage,
        },
    };
    use frame_system::pallet_prelude::*;
    use sp_runtime::traits::{One, Saturating};

    pub type TaskName = [u8; 32];
    pub type TaskAddress<B> = (B, u32);

    #[derive(Clone, Encode, Decode, PartialEq, Eq, Debug, TypeInfo)]
    pub struct Scheduled<Name, Call, BlockNumber, PalletsOrigin> {
        pub maybe_id: Option<Name>,
        pub priority: Priority,
        pub call: Call,
        pub maybe_periodic: Option<Period<BlockNumber>>,
        pub origin: PalletsOrigin,
    }
    pub type ScheduledOf<T> = Scheduled<TaskName, Bounded<<T as Config>::RuntimeCall>, BlockNumberFor<T>, <T as Config>::PalletsOrigin>;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeOrigin: frame_support::traits::OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
        type PalletsOrigin: From<frame_system::RawOrigin<Self::AccountId>> + codec::Codec + Clone + Eq + TypeInfo + MaxEncodedLen + core::fmt::Debug;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin> + From<frame_system::Call<Self>>;
        type MaximumWeight: Get<Weight>;
        type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
        type OriginPrivilegeCmp: PrivilegeCmp<Self::PalletsOrigin>;
        type MaxScheduledPerBlock: Get<u32>;
        type WeightInfo;
        type Preimages: QueryPreimage + StorePreimage;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::storage]
    pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<ScheduledOf<T>>>, ValueQuery>;
    #[pallet::storage]
    pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, TaskName, TaskAddress<BlockNumberFor<T>>>;
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event<T: Config> {
        Scheduled { when: BlockNumberFor<T>, index: u32 },
        Canceled { when: BlockNumberFor<T>, index: u32 },
        Dispatched { task: TaskAddress<BlockNumberFor<T>>, id: Option<TaskName>, result: DispatchResult },
    }
    #[pallet::error]
    pub enum Error<T> {
        FailedToSchedule,
        NotFound,
        TargetBlockNumberInPast,
        RescheduleNoChange,
        Named,
    }
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_initialize(now: BlockNumberFor<T>) -> Weight {
            let mut agenda: Vec<_> = Agenda::<T>::take(now).into_iter().enumerate().filter_map(|(i, s)| s.map(|s| (i as u32, s))).collect();
            agenda.sort_by_key(|(_, s)| s.priority);
            for (index, s) in agenda {
                if let Some(id) = s.maybe_id {
                    Lookup::<T>::remove(id);
                }
                if let Ok((call, _)) = T::Preimages::peek::<<T as Config>::RuntimeCall>(&s.call) {
                    let origin: <T as Config>::RuntimeOrigin = s.origin.clone().into();
                    let result = call.dispatch(origin).map(|_| ()).map_err(|e| e.error);
                    Self::deposit_event(Event::Dispatched { task: (now, index), id: s.maybe_id, result });
                    T::Preimages::drop(&s.call);
                }
            }
            Weight::zero()
        }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(4)]
        #[pallet::weight(Weight::zero())]
        pub fn schedule_after(origin: OriginFor<T>, after: BlockNumberFor<T>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
            T::ScheduleOrigin::ensure_origin(origin.clone())?;
            let origin = <T as Config>::RuntimeOrigin::from(origin);
            let when = Self::resolve(DispatchTime::After(after))?;
            let call = T::Preimages::bound(*call)?;
            Self::place(when, Scheduled { maybe_id: None, priority, call, maybe_periodic, origin: frame_support::traits::OriginTrait::caller(&origin).clone() })?;
            Ok(())
        }
    }

    impl<T: Config> Pallet<T> {
        fn resolve(when: DispatchTime<BlockNumberFor<T>>) -> Result<BlockNumberFor<T>, DispatchError> {
            let now = frame_system::Pallet::<T>::block_number();
            let when = match when {
                DispatchTime::At(x) => x,
                DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()),
            };
            if when <= now {
                return Err(Error::<T>::TargetBlockNumberInPast.into());
            }
            Ok(when)
        }
        fn place(when: BlockNumberFor<T>, what: ScheduledOf<T>) -> Result<TaskAddress<BlockNumberFor<T>>, DispatchError> {
            let mut agenda = Agenda::<T>::get(when);
            if agenda.iter().flatten().count() as u32 >= T::MaxScheduledPerBlock::get() {
                return Err(DispatchError::Exhausted);
            }
            agenda.push(Some(what));
            let index = agenda.len() as u32 - 1;
            Agenda::<T>::insert(when, agenda);
            Self::deposit_event(Event::Scheduled { when, index });
            Ok((when, index))
        }
    }
    impl<T: Config> schedule::v3::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
        type Address = TaskAddress<BlockNumberFor<T>>;
        fn schedule_named(id: TaskName, when: DispatchTime<BlockNumberFor<T>>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: Priority, origin: T::PalletsOrigin, call: Bounded<<T as Config>::RuntimeCall>) -> Result<Self::Address, DispatchError> {
            if Lookup::<T>::contains_key(&id) {
                return Err(Error::<T>::FailedToSchedule.into());
            }
            let when = Self::resolve(when)?;
            let a = Self::place(when, Scheduled { maybe_id: Some(id), priority, call, maybe_periodic, origin })?;
            Lookup::<T>::insert(id, a);
            Ok(a)
        }
        fn cancel_named(id: TaskName) -> Result<(), DispatchError> {
            let (when, index) = Lookup::<T>::take(id).ok_or(Error::<T>::NotFound)?;
            Agenda::<T>::mutate(when, |a| {
                if let Some(s) = a.get_mut(index as usize) {
                    if let Some(s) = s.take() {
                        T::Preimages::drop(&s.call);
                    }
                }
            });
            Self::deposit_event(Event::Canceled { when, index });
            Ok(())
        }
        fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
            let new = Self::resolve(when)?;
            let (when, index) = Lookup::<T>::get(id).ok_or(Error::<T>::NotFound)?;
            if when == new {
                return Err(Error::<T>::RescheduleNoChange.into());
            }
            let task = Agenda::<T>::mutate(when, |a| a.get_mut(index as usize).and_then(|s| s.take())).ok_or(Error::<T>::NotFound)?;
            let a = Self::place(new, task)?;
            Lookup::<T>::insert(id, a);
            Ok(a)
        }
        fn next_dispatch_time(id: TaskName) -> Result<BlockNumberFor<T>, DispatchError> {
            Lookup::<T>::get(id).map(|(w, _)| w).ok_or(DispatchError::Unavailable)
        }
    }
}
