//! Behaviours of specs/apps/lending.qnt.
use crate::dispatch;
use frame_support::{
    parameter_types,
    traits::{ConstU32, ConstU64},
    PalletId,
};
use itf::{agree, guarded, Report, Trace, V};
use loans::{InterestRateModel, JumpModel, CurveModel, Market, MarketState, OnSlashHook, PostDeposit, PostTransfer, PreDeposit, PreTransfer};
use oracle::OracleKey;
use orml_traits::{currency::MutationHooks, MultiCurrency};
use primitives::{
    CurrencyId,
    CurrencyId::{LendToken, Token},
    Rate, Ratio,
    TokenSymbol::*,
};
use sp_arithmetic::{FixedI128, FixedU128};
use sp_runtime::{traits::AccountIdConversion, AccountId32, BuildStorage, DispatchError};
use std::marker::PhantomData;

type Block = frame_system::mocking::MockBlock<Test>;
type Who = AccountId32;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Security: security::{Pallet, Call, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Currency: currency::{Pallet},
        Tokens: orml_tokens::{Pallet, Call, Storage, Config<T>, Event<T>},
        Loans: loans::{Pallet, Call, Storage, Config<T>, Event<T>},
    }
);
crate::system!(Test, (), Who);
parameter_types! {
    pub const Collateral: CurrencyId = Token(DOT);
    pub const Native: CurrencyId = Token(INTR);
    pub const Wrapped: CurrencyId = Token(IBTC);
    pub const LoansId: PalletId = PalletId(*b"par/loan");
}
orml_traits::parameter_type_with_key! {
    pub ExistentialDeposits: |_currency_id: CurrencyId| -> u128 { 0 };
}
pub struct CurrencyHooks<T>(PhantomData<T>);
impl<T: orml_tokens::Config + loans::Config> MutationHooks<T::AccountId, T::CurrencyId, <T as currency::Config>::Balance> for CurrencyHooks<T>
where
    T::AccountId: From<AccountId32>,
{
    type OnDust = ();
    type OnSlash = OnSlashHook<T>;
    type PreDeposit = PreDeposit<T>;
    type PostDeposit = PostDeposit<T>;
    type PreTransfer = PreTransfer<T>;
    type PostTransfer = PostTransfer<T>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = CurrencyHooks<Test>;
    type MaxLocks = ConstU32<10>;
    type DustRemovalWhitelist = frame_support::traits::Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = u128;
    type GetNativeCurrencyId = Native;
    type GetRelayChainCurrencyId = Collateral;
    type GetWrappedCurrencyId = Wrapped;
    type CurrencyConversion = currency::CurrencyConvert<Test, Oracle, Loans>;
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<0>;
    type WeightInfo = ();
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = Loans;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl loans::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type PalletId = LoansId;
    type ReserveOrigin = frame_system::EnsureRoot<Who>;
    type UpdateOrigin = frame_system::EnsureRoot<Who>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = Native;
    type ReferenceAssetId = Wrapped;
    type OnExchangeRateChange = ();
}

fn cur(m: u64) -> CurrencyId {
    [Token(DOT), Token(INTR), Token(IBTC)][m as usize]
}
fn lent(m: u64) -> CurrencyId {
    LendToken(m as u32 + 1)
}
fn who(a: u64) -> Who {
    match a {
        9 => Loans::incentive_reward_account_id(),
        a => AccountId32::new([a as u8; 32]),
    }
}
fn parts(v: &V) -> Ratio {
    Ratio::from_parts(v.u32())
}
fn rate(v: &V) -> Rate {
    Rate::from_inner(v.u128())
}
fn model(t: &V) -> InterestRateModel {
    if t.get("curve").b() {
        InterestRateModel::Curve(CurveModel { base_rate: rate(t.get("base")) })
    } else {
        InterestRateModel::Jump(JumpModel {
            base_rate: rate(t.get("base")),
            jump_rate: rate(t.get("jump")),
            full_rate: rate(t.get("full")),
            jump_utilization: parts(t.get("ju")),
        })
    }
}
fn market(m: u64, t: &V) -> Market<u128> {
    Market {
        collateral_factor: parts(t.get("cf")),
        liquidation_threshold: parts(t.get("lt")),
        reserve_factor: parts(t.get("rf")),
        close_factor: parts(t.get("close")),
        liquidate_incentive: rate(t.get("inc")),
        liquidate_incentive_reserved_factor: parts(t.get("irf")),
        rate_model: model(t),
        state: match t.get("state").u() {
            0 => MarketState::Pending,
            1 => MarketState::Active,
            _ => MarketState::Supervision,
        },
        supply_cap: t.get("scap").u128(),
        borrow_cap: t.get("bcap").u128(),
        lend_token_id: lent(m),
    }
}
fn set_price(m: u64, p: &V) {
    if p.is_neg() {
        oracle::Aggregate::<Test>::remove(OracleKey::ExchangeRate(cur(m)))
    } else {
        Oracle::_set_exchange_rate(cur(m), rate(p)).unwrap()
    }
}
fn ext(st: &V) -> sp_io::TestExternalities {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    loans::GenesisConfig::<Test> {
        max_exchange_rate: Rate::from_inner(1_000_000_000_000_000_000),
        min_exchange_rate: Rate::from_inner(20_000_000_000_000_000),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(st.get("block").u());
        Timestamp::set_timestamp(st.get("t").u() * 1000);
        for a in 1..=3 {
            for m in 0..3 {
                Tokens::set_balance(RuntimeOrigin::root(), who(a), cur(m), 1_000_000_000_000_000, 0).unwrap();
            }
        }
        for (m, p) in st.get("price").map() {
            set_price(m.u(), p);
        }
        for op in st.get("script").list() {
            let _ = perform(op);
        }
    });
    e
}
fn perform(op: &V) -> Result<(), DispatchError> {
    let a = op.get("who").u();
    let by = RuntimeOrigin::signed(who(a));
    let root = if op.get("root").b() { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who(1)) };
    let m = op.get("m").u();
    let x = op.get("x");
    dispatch(|| {
        let r = match op.get("what").s() {
            "mint" => Loans::mint(by, cur(m), x.u128()),
            "redeem" => Loans::redeem(by, cur(m), x.u128()),
            "redeem all" => Loans::redeem_all(by, cur(m)),
            "borrow" => Loans::borrow(by, cur(m), x.u128()),
            "repay" => Loans::repay_borrow(by, cur(m), x.u128()),
            "repay all" => Loans::repay_borrow_all(by, cur(m)),
            "deposit" => Loans::deposit_all_collateral(by, cur(m)),
            "withdraw" => Loans::withdraw_all_collateral(by, cur(m)),
            "liquidate" => Loans::liquidate_borrow(by, who(op.get("y").u()), cur(m), x.u128(), cur(op.get("c").u())),
            "give" => return Tokens::transfer(by, who(op.get("y").u()), lent(m), x.u128()),
            "donate" => return Tokens::transfer(by, Loans::account_id(), cur(m), x.u128()),
            "reserve" => Loans::add_reserves(root, who(a), cur(m), x.u128()),
            "unreserve" => Loans::reduce_reserves(root, who(a), cur(m), x.u128()),
            "unshare" => Loans::reduce_incentive_reserves(root, who(a), cur(m), x.u128()),
            "add" => Loans::add_market(root, cur(m), market(m, op.get("terms"))),
            "activate" => Loans::activate_market(root, cur(m)),
            "retune" => {
                let k = market(m, op.get("terms"));
                let now = Loans::market(cur(m)).ok();
                // what does not change may as well be left out
                let part = |new: Ratio, old: Option<Ratio>| if Some(new) == old { None } else { Some(new) };
                Loans::update_market(
                    root,
                    cur(m),
                    part(k.collateral_factor, now.map(|n| n.collateral_factor)),
                    part(k.liquidation_threshold, now.map(|n| n.liquidation_threshold)),
                    part(k.reserve_factor, now.map(|n| n.reserve_factor)),
                    part(k.close_factor, now.map(|n| n.close_factor)),
                    part(k.liquidate_incentive_reserved_factor, now.map(|n| n.liquidate_incentive_reserved_factor)),
                    Some(k.liquidate_incentive),
                    Some(k.supply_cap),
                    Some(k.borrow_cap),
                )
            }
            "remodel" => Loans::update_rate_model(root, cur(m), model(op.get("terms"))),
            "force" => Loans::force_update_market(root, cur(m), market(m, op.get("terms"))),
            "speeds" => {
                let (s, b) = (Loans::reward_supply_speed(cur(m)), Loans::reward_borrow_speed(cur(m)));
                let some = |new: u128, old: u128| if new == old { None } else { Some(new) };
                Loans::update_market_reward_speed(root, cur(m), some(x.u128(), s), some(op.get("y").u128(), b))
            }
            "fund" => Loans::add_reward(by, x.u128()),
            "claim" => Loans::claim_reward(by),
            "claim for" => Loans::claim_reward_for_market(by, cur(m)),
            "price" => {
                set_price(m, x);
                return Ok(());
            }
            "time" => {
                Timestamp::set_timestamp(x.u() * 1000);
                System::set_block_number(op.get("y").u());
                return Ok(());
            }
            other => itf::tool_error(&format!("unknown operation {}", other)),
        };
        r.map(|_| ()).map_err(|e| e.error)
    })
}
fn compare(op: &V, w: &V) -> Result<u64, String> {
    let mut n = 0;
    let mut same = |m: &dyn Fn() -> String, spec: u128, code: u128| {
        n += 1;
        agree(format!("after {:?}: {}", op, m()), spec, code)
    };
    let pot: Who = LoansId::get().into_sub_account_truncating(b"farming");
    for (m, k) in w.get("pools").map() {
        let id = m.u();
        let c = cur(id);
        let t = k.get("terms");
        let real = Loans::market(c).ok();
        let want = if t.get("state").is_neg() { None } else { Some(market(id, t)) };
        agree(format!("after {:?}: terms of pool {}", op, id), want, real)?;
        let mut p = |f: &'static str, code: u128| same(&|| format!("{} of pool {}", f, id), k.get(f).u128(), code);
        p("last", Loans::last_accrued_interest_time(c) as u128)?;
        p("index", Loans::borrow_index(c).into_inner())?;
        p("borrows", loans::TotalBorrows::<Test>::get(c))?;
        p("reserves", loans::TotalReserves::<Test>::get(c))?;
        p("util", Loans::utilization_ratio(c).deconstruct() as u128)?;
        p("brate", Loans::borrow_rate(c).into_inner())?;
        p("srate", Loans::supply_rate(c).into_inner())?;
        p("xrate", Loans::exchange_rate(c).into_inner())?;
        p("cash", Tokens::free_balance(c, &Loans::account_id()))?;
        p("issued", <Tokens as MultiCurrency<Who>>::total_issuance(lent(id)))?;
        p("ss", Loans::reward_supply_speed(c))?;
        p("bs", Loans::reward_borrow_speed(c))?;
        p("si", Loans::reward_supply_state(c).index)?;
        p("sb", Loans::reward_supply_state(c).block as u128)?;
        p("bi", Loans::reward_borrow_state(c).index)?;
        p("bb", Loans::reward_borrow_state(c).block as u128)?;
    }
    for (i, q) in w.get("places").map() {
        let (m, a) = (i.u() / 10, i.u() % 10);
        let (c, l, a2) = (cur(m), lent(m), who(a));
        let mut p = |f: &'static str, code: u128| same(&|| format!("{} of {} in pool {}", f, a, m), q.get(f).u128(), code);
        let lt = Tokens::accounts(&a2, l);
        p("free", lt.free)?;
        p("locked", lt.reserved)?;
        p("dep", loans::AccountDeposits::<Test>::get(l, &a2))?;
        p("debt", Loans::account_borrows(c, &a2).principal)?;
        p("at", Loans::account_borrows(c, &a2).borrow_index.into_inner())?;
        p("bal", Tokens::free_balance(c, &a2))?;
        p("si", Loans::reward_supplier_index(c, &a2))?;
        p("bi", Loans::reward_borrower_index(c, &a2))?;
    }
    for (a, x) in w.get("accrued").map() {
        same(&|| format!("rewards of {}", a.u()), x.u128(), Loans::reward_accrued(who(a.u())))?;
    }
    same(&|| "rewards to give".into(), w.get("pot").u128(), Tokens::free_balance(Token(INTR), &pot))?;
    Ok(n)
}
pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext(&t.states[0]);
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let what = op.get("what").s();
            if what != "init" {
                let got = guarded(|| perform(op)).map_err(|p| format!("panic in {:?}: {}", op, p))?;
                rep.kind(&format!("{}:{}", what, if op.get("ok").b() { "ok" } else { "refused" }));
                agree(format!("{:?}: accepted ({:?})", op, got), op.get("ok").b(), got.is_ok())?;
            }
            compare(op, st.get("w")).map(|n| n + 1)
        });
        rep.comparisons += r.map_err(|m| (i, m))?;
    }
    Ok(())
}
