//! Replays behaviours of specs/apps on the pallets.
mod dexes;
mod escrows;
mod lending;
mod oracles;

fn main() {
    itf::drive(|k| match k {
        "oracle" => Some(oracles::trace),
        "lending" => Some(lending::trace),
        "escrow" => Some(escrows::trace),
        "dex" => Some(dexes::trace),
        _ => None,
    })
}
/// A call as a dispatch makes it: what fails leaves nothing behind.
pub fn dispatch<T>(f: impl FnOnce() -> Result<T, sp_runtime::DispatchError>) -> Result<T, sp_runtime::DispatchError> {
    frame_support::storage::with_storage_layer(f)
}
/// What every runtime here has in common.
#[macro_export]
macro_rules! system {
    ($t:ty, $data:ty) => {
        crate::system!($t, $data, u64);
    };
    ($t:ty, $data:ty, $who:ty) => {
        impl frame_system::Config for $t {
            type BaseCallFilter = frame_support::traits::Everything;
            type BlockWeights = ();
            type BlockLength = ();
            type DbWeight = ();
            type RuntimeOrigin = RuntimeOrigin;
            type RuntimeCall = RuntimeCall;
            type Nonce = u64;
            type Block = Block;
            type Hash = sp_core::H256;
            type Hashing = sp_runtime::traits::BlakeTwo256;
            type AccountId = $who;
            type Lookup = sp_runtime::traits::IdentityLookup<Self::AccountId>;
            type RuntimeEvent = RuntimeEvent;
            type BlockHashCount = frame_support::traits::ConstU64<250>;
            type Version = ();
            type PalletInfo = PalletInfo;
            type AccountData = $data;
            type OnNewAccount = ();
            type OnKilledAccount = ();
            type SystemWeightInfo = ();
            type SS58Prefix = ();
            type OnSetCode = ();
            type MaxConsumers = frame_support::traits::ConstU32<16>;
        }
    };
}
