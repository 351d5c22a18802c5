//! Only the account helpers that some unit tests use; benchmarks are not run here.
use codec::{Decode, Encode};
pub fn account<A: Decode>(name: &'static str, index: u32, seed: u32) -> A {
    let e = (name, index, seed).using_encoded(sp_io::hashing::blake2_256);
    Decode::decode(&mut sp_runtime::traits::TrailingZeroInput::new(e.as_ref())).expect("infinite input")
}
pub fn whitelisted_caller<A: Decode>() -> A {
    account::<A>("whitelisted_caller", 0, 0)
}
#[macro_export]
macro_rules! whitelist_account {
    ($a:ident) => {};
}
