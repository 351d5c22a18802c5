//! A runtime with the bridge: the pallets wired as the parachain's runtime wires them.
use frame_support::{parameter_types, traits::{ConstU32, Everything}, PalletId};
use frame_system::EnsureRoot;
use itf::V;
use orml_traits::parameter_type_with_key;
pub use primitives::{CurrencyId, CurrencyId::Token, Rate, TokenSymbol::*, VaultCurrencyPair, VaultId};
pub use sp_arithmetic::{FixedI128, FixedPointNumber, FixedU128};
use sp_core::H256;
use sp_runtime::{testing::TestXt, traits::{AccountIdConversion, BlakeTwo256, Convert, IdentityLookup, Zero}, BuildStorage};

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
        CapacityRewards: reward::<Instance1>::{Pallet, Call, Storage, Event<T>},
        VaultRewards: reward::<Instance2>::{Pallet, Call, Storage, Event<T>},
        VaultStaking: staking::{Pallet, Storage, Event<T>},
        BTCRelay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
        VaultRegistry: vault_registry::{Pallet, Call, Config<T>, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Issue: issue::{Pallet, Call, Config<T>, Storage, Event<T>},
        Redeem: redeem::{Pallet, Call, Config<T>, Storage, Event<T>},
        Replace: replace::{Pallet, Call, Config<T>, Storage, Event<T>},
        Fee: fee::{Pallet, Call, Config<T>, Storage},
        Currency: currency::{Pallet},
        Nomination: nomination::{Pallet, Call, Storage, Config<T>, Event<T>},
        Loans: loans::{Pallet, Call, Storage, Event<T>, Config<T>},
    }
);
pub type Balance = u128;
type BlockNumber = u64;
pub type Nonce = u64;
pub type Vid = VaultId<u64, CurrencyId>;
parameter_types! {
    pub const BlockHashCount: u64 = 250;
    pub const SS58Prefix: u8 = 42;
    pub const GetCollateralCurrencyId: CurrencyId = Token(DOT);
    pub const GetNativeCurrencyId: CurrencyId = Token(INTR);
    pub const GetWrappedCurrencyId: CurrencyId = Token(IBTC);
    pub const MaxLocks: u32 = 50;
    pub const VaultPalletId: PalletId = PalletId(*b"vreg/mod");
    pub const FeePalletId: PalletId = PalletId(*b"fees/mod");
    pub const LoansPalletId: PalletId = PalletId(*b"loan/mod");
    pub const TreasuryPalletId: PalletId = PalletId(*b"trsy/mod");
    pub const MaxExpectedValue: FixedU128 = FixedU128::from_inner(1_000_000_000_000_000_000);
    pub const MinimumPeriod: u64 = 5;
    pub static PerBlock: u64 = 100;
    pub TreasuryAccount: u64 = TreasuryPalletId::get().into_account_truncating();
}
parameter_type_with_key! {
    pub ExistentialDeposits: |_currency_id: CurrencyId| -> Balance { Zero::zero() };
}
impl frame_system::Config for Test {
    type BaseCallFilter = Everything;
    type BlockWeights = ();
    type BlockLength = ();
    type DbWeight = ();
    type RuntimeOrigin = RuntimeOrigin;
    type RuntimeCall = RuntimeCall;
    type Nonce = Nonce;
    type Block = Block;
    type Hash = H256;
    type Hashing = BlakeTwo256;
    type AccountId = u64;
    type Lookup = IdentityLookup<Self::AccountId>;
    type RuntimeEvent = RuntimeEvent;
    type BlockHashCount = BlockHashCount;
    type Version = ();
    type PalletInfo = PalletInfo;
    type AccountData = ();
    type OnNewAccount = ();
    type OnKilledAccount = ();
    type SystemWeightInfo = ();
    type SS58Prefix = SS58Prefix;
    type OnSetCode = ();
    type MaxConsumers = ConstU32<16>;
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = MaxLocks;
    type DustRemovalWhitelist = Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
    RuntimeCall: From<C>,
{
    type OverarchingCall = RuntimeCall;
    type Extrinsic = TestXt<RuntimeCall, ()>;
}
impl vault_registry::Config for Test {
    type PalletId = VaultPalletId;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = GetNativeCurrencyId;
}
impl nomination::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = Balance;
    type GetNativeCurrencyId = GetNativeCurrencyId;
    type GetRelayChainCurrencyId = GetCollateralCurrencyId;
    type GetWrappedCurrencyId = GetWrappedCurrencyId;
    type CurrencyConversion = currency::CurrencyConvert<Test, Oracle, Loans>;
}
impl reward::Config<reward::Instance1> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl reward::Config<reward::Instance2> for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = Vid;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl staking::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = GetNativeCurrencyId;
}
impl btc_relay::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = PerBlock;
    type WeightInfo = ();
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl fee::Config for Test {
    type FeePalletId = FeePalletId;
    type WeightInfo = ();
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CapacityRewards = CapacityRewards;
    type VaultRewards = VaultRewards;
    type VaultStaking = VaultStaking;
    type OnSweep = currency::SweepFunds<Test, TreasuryAccount>;
    type MaxExpectedValue = MaxExpectedValue;
    type NominationApi = Nomination;
}
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansPalletId;
    type ReserveOrigin = EnsureRoot<u64>;
    type UpdateOrigin = EnsureRoot<u64>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = GetNativeCurrencyId;
    type ReferenceAssetId = GetWrappedCurrencyId;
    type OnExchangeRateChange = vault_registry::PoolManager<Test>;
}
pub struct BlockNumberToBalance;
impl Convert<BlockNumber, Balance> for BlockNumberToBalance {
    fn convert(a: BlockNumber) -> Balance {
        a.into()
    }
}
impl issue::Config for Test {
    type TreasuryPalletId = TreasuryPalletId;
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberToBalance = BlockNumberToBalance;
    type WeightInfo = ();
}
impl redeem::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl replace::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}

pub fn cur(c: u64) -> CurrencyId {
    match c {
        0 => Token(DOT),
        1 => Token(INTR),
        _ => Token(IBTC),
    }
}
pub fn pair(c: u64) -> VaultCurrencyPair<CurrencyId> {
    VaultCurrencyPair { collateral: cur(c), wrapped: Token(IBTC) }
}
pub fn vid(v: u64) -> Vid {
    let (a, c) = match v {
        1 => (1, 0),
        2 => (2, 0),
        3 => (3, 1),
        _ => (1, 1),
    };
    VaultId { account_id: a, currencies: pair(c) }
}
pub fn fixed(v: &V) -> FixedU128 {
    FixedU128::from_inner(v.u128())
}
/// The chain as the first state of a history has it, before any vault is registered.
pub fn ext(w: &V) -> sp_io::TestExternalities {
    let p = w.get("par");
    PerBlock::set(p.get("perBlock").u());
    let each = |f: &str| -> Vec<(u64, V)> { w.get(f).map().iter().map(|(k, v)| (k.u(), v.clone())).collect() };
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    orml_tokens::GenesisConfig::<Test> {
        balances: (1..=5).flat_map(|a| [(a, Token(DOT), 100_000), (a, Token(INTR), 100_000)]).collect(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    fee::GenesisConfig::<Test> {
        issue_fee: fixed(p.get("issueFee")),
        issue_griefing_collateral: fixed(p.get("issueGrief")),
        redeem_fee: fixed(p.get("redeemFee")),
        premium_redeem_fee: fixed(p.get("premiumFee")),
        punishment_fee: fixed(p.get("punishment")),
        replace_griefing_collateral: fixed(p.get("replaceGrief")),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    vault_registry::GenesisConfig::<Test> {
        minimum_collateral_vault: each("minimum").iter().map(|(c, v)| (cur(*c), v.u128())).collect(),
        punishment_delay: p.get("delay").u(),
        system_collateral_ceiling: each("ceiling").iter().map(|(c, v)| (pair(*c), v.u128())).collect(),
        secure_collateral_threshold: each("secure").iter().map(|(c, v)| (pair(*c), fixed(v))).collect(),
        premium_redeem_threshold: each("premium").iter().map(|(c, v)| (pair(*c), fixed(v))).collect(),
        liquidation_collateral_threshold: each("liquidation").iter().map(|(c, v)| (pair(*c), fixed(v))).collect(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    issue::GenesisConfig::<Test> { issue_period: w.get("issuePeriod").u(), issue_btc_dust_value: p.get("issueDust").u128() }
        .assimilate_storage(&mut st)
        .unwrap();
    redeem::GenesisConfig::<Test> {
        redeem_transaction_size: p.get("inclusionFee").u32(),
        redeem_period: w.get("redeemPeriod").u(),
        redeem_btc_dust_value: p.get("redeemDust").u128(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    replace::GenesisConfig::<Test> { replace_period: w.get("replacePeriod").u(), replace_btc_dust_value: p.get("replaceDust").u128() }
        .assimilate_storage(&mut st)
        .unwrap();
    oracle::GenesisConfig::<Test> { authorized_oracles: vec![(4, Default::default())], max_delay: 4_000_000_000 }
        .assimilate_storage(&mut st)
        .unwrap();
    loans::GenesisConfig::<Test> {
        max_exchange_rate: Rate::from_inner(1_000_000_000_000_000_000),
        min_exchange_rate: Rate::from_inner(20_000_000_000_000_000),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut st)
    .unwrap();
    nomination::GenesisConfig::<Test> { is_nomination_enabled: w.get("nomination").b(), _marker: Default::default() }
        .assimilate_storage(&mut st)
        .unwrap();
    btc_relay::GenesisConfig::<Test> {
        bitcoin_confirmations: 0,
        parachain_confirmations: 0,
        disable_difficulty_check: true,
        disable_inclusion_check: true,
    }
    .assimilate_storage(&mut st)
    .unwrap();
    st.into()
}
/// A call as a dispatch makes it: what fails leaves nothing behind.
pub fn dispatch<T>(f: impl FnOnce() -> Result<T, sp_runtime::DispatchError>) -> Result<T, sp_runtime::DispatchError> {
    frame_support::storage::with_storage_layer(f)
}
