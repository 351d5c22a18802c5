//! A runtime with the pools.
use frame_support::{parameter_types, traits::{ConstU32, Everything}};
pub use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*, VaultId};
use sp_arithmetic::FixedI128;
use sp_core::H256;
use sp_runtime::{traits::{BlakeTwo256, IdentityLookup}, BuildStorage};

type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Reward: reward::{Pallet, Call, Storage, Event<T>},
        Staking: staking::{Pallet, Call, Storage, Event<T>},
    }
);
pub type AccountId = u64;
pub type Nonce = u64;
parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
    pub const GetNativeCurrencyId: CurrencyId = Token(INTR);
}
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = Nonce;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl reward::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = u32;
    type StakeId = AccountId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<2>;
}
impl staking::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}
pub fn ext() -> sp_io::TestExternalities {
    let mut e: sp_io::TestExternalities = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap().into();
    e.execute_with(|| System::set_block_number(1));
    e
}
/// A call as a dispatch makes it: what fails leaves nothing behind.
pub fn dispatch<T>(f: impl FnOnce() -> Result<T, sp_runtime::DispatchError>) -> Result<T, sp_runtime::DispatchError> {
    frame_support::storage::with_storage_layer(f)
}
