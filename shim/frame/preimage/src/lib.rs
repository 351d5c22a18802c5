//! Only the configuration; the tests keep short calls inline.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use frame_support::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type RuntimeEvent;
        type WeightInfo;
        type Currency;
        type ManagerOrigin;
        type BaseDeposit;
        type ByteDeposit;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::call]
    impl<T: Config> Pallet<T> {}
}
