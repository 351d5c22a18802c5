//! A runtime with the relay.
use frame_support::{parameter_types, traits::{ConstU32, Everything}};
use sp_core::H256;
use sp_runtime::{traits::{BlakeTwo256, IdentityLookup}, BuildStorage};

type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Relay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
    }
);
pub type AccountId = u64;
pub type Nonce = u64;
parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
    pub const PerBlock: u64 = 100;
    pub const MinimumPeriod: u64 = 5;
}
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = Nonce;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = AccountId;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl btc_relay::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = PerBlock;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
pub fn ext(confs: u32, para: u64, no_difficulty: bool) -> sp_io::TestExternalities {
    ext2(confs, para, no_difficulty, false)
}
pub fn ext2(confs: u32, para: u64, no_difficulty: bool, no_inclusion: bool) -> sp_io::TestExternalities {
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    btc_relay::GenesisConfig::<Test> {
        bitcoin_confirmations: confs,
        parachain_confirmations: para,
        disable_difficulty_check: no_difficulty,
        disable_inclusion_check: no_inclusion,
    }
    .assimilate_storage(&mut st)
    .unwrap();
    let mut e: sp_io::TestExternalities = st.into();
    e.execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
    });
    e
}
/// A call as a dispatch makes it: what fails leaves nothing behind.
pub fn dispatch<T>(f: impl FnOnce() -> Result<T, sp_runtime::DispatchError>) -> Result<T, sp_runtime::DispatchError> {
    frame_support::storage::with_storage_layer(f)
}
