//! Batches of calls.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::{dispatch::{Dispatchable, PostDispatchInfo, GetDispatchInfo}, pallet_prelude::*, traits::{IsSubType, OriginTrait, UnfilteredDispatchable}};
    use frame_system::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>>
            + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
        type PalletsOrigin: Parameter;
        type WeightInfo;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::event]
    #[pallet::generate_deposit(pub(super) fn deposit_event)]
    pub enum Event {
        BatchInterrupted { index: u32, error: DispatchError },
        BatchCompleted,
        BatchCompletedWithErrors,
        ItemCompleted,
        ItemFailed { error: DispatchError },
    }
    #[pallet::error]
    pub enum Error<T> {
        TooManyCalls,
    }
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
            let is_root = frame_system::ensure_root(origin.clone()).is_ok();
            for (index, call) in calls.into_iter().enumerate() {
                let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
                if let Err(e) = result {
                    Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
                    return Ok(().into());
                }
                Self::deposit_event(Event::ItemCompleted);
            }
            Self::deposit_event(Event::BatchCompleted);
            Ok(().into())
        }
        #[pallet::call_index(2)]
        #[pallet::weight(Weight::zero())]
        pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
            let is_root = frame_system::ensure_root(origin.clone()).is_ok();
            for call in calls.into_iter() {
                if is_root { call.dispatch_bypass_filter(origin.clone())?; } else { call.dispatch(origin.clone())?; }
            }
            Self::deposit_event(Event::BatchCompleted);
            Ok(().into())
        }
    }
}
