//! The multi-currency traits the pallets under test use.
extern crate self as orml_traits;
pub mod currency;
pub use currency::{MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency};
pub mod arithmetic {
    pub use sp_runtime::traits::*;
}
#[impl_trait_for_tuples::impl_for_tuples(30)]
pub trait Happened<T> {
    fn happened(t: &T);
}
pub trait GetByKey<Key, Value> {
    fn get(k: &Key) -> Value;
}
#[macro_export]
macro_rules! parameter_type_with_key {
    ($vis:vis $name:ident : |$k:ident : $kt:ty| -> $v:ty $body:block ;) => { $crate::parameter_type_with_key! { $vis $name: |$k: $kt| -> $v $body } };
    ($vis:vis $name:ident : |$k:ident : $kt:ty| -> $v:ty $body:block) => {
        $vis struct $name;
        impl $crate::GetByKey<$kt, $v> for $name { fn get($k: &$kt) -> $v { $body } }
    };
}
