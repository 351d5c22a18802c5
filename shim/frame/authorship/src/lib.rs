//! Hooks for block authors.
pub use pallet::*;
pub trait EventHandler<Author, BlockNumber> {
    fn note_author(author: Author);
}
impl<A, B> EventHandler<A, B> for () {
    fn note_author(_: A) {}
}
#[frame_support::pallet]
pub mod pallet {
    use super::EventHandler;
    use frame_support::{pallet_prelude::*, traits::FindAuthor};
    use frame_system::pallet_prelude::*;
    #[pallet::config]
    pub trait Config: frame_system::Config {
        type FindAuthor: FindAuthor<Self::AccountId>;
        type EventHandler: EventHandler<Self::AccountId, BlockNumberFor<Self>>;
    }
    #[pallet::pallet]
    pub struct Pallet<T>(_);
    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_initialize(_: BlockNumberFor<T>) -> Weight {
            if let Some(a) = T::FindAuthor::find_author(core::iter::empty()) {
                T::EventHandler::note_author(a);
            }
            Weight::zero()
        }
    }
}
