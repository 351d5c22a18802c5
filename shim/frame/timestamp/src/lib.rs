//! The on-chain clock: one timestamp per block, in milliseconds.
use frame_support::traits::{OnTimestampSet, Time, UnixTime};
pub use pallet::*;
use sp_runtime::traits::{AtLeast32Bit, AtLeast32BitUnsigned, Scale, SaturatedConversion, Zero};

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Moment: frame_support::dispatch::Parameter + Default + AtLeast32Bit + AtLeast32BitUnsigned + Scale<BlockNumberFor<Self>, Output = Self::Moment> + Copy + MaxEncodedLen + TypeInfo;
        type OnTimestampSet: OnTimestampSet<Self::Moment>;
        #[pallet::constant]
        type MinimumPeriod: Get<Self::Moment>;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::storage]
    #[pallet::getter(fn now)]
    pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
    #[pallet::storage]
    pub(super) type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;

    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_finalize(_n: BlockNumberFor<T>) {
            assert!(DidUpdate::<T>::take(), "Timestamp must be updated once in the block");
        }
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
            frame_system::ensure_none(origin)?;
            assert!(!DidUpdate::<T>::exists(), "Timestamp must be updated only once in the block");
            let prev = Self::now();
            assert!(prev.is_zero() || now >= prev + T::MinimumPeriod::get(), "Timestamp must increment by at least <MinimumPeriod> between sequential blocks");
            Now::<T>::put(now);
            DidUpdate::<T>::put(true);
            <T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
            Ok(())
        }
    }
}
impl<T: Config> Pallet<T> {
    pub fn get() -> T::Moment {
        Self::now()
    }
    pub fn set_timestamp(now: T::Moment) {
        Now::<T>::put(now);
        DidUpdate::<T>::put(true);
        <T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
    }
}
impl<T: Config> Time for Pallet<T> {
    type Moment = T::Moment;
    fn now() -> Self::Moment {
        Self::now()
    }
}
impl<T: Config> UnixTime for Pallet<T> {
    fn now() -> core::time::Duration {
        core::time::Duration::from_millis(Self::now().saturated_into::<u64>())
    }
}
