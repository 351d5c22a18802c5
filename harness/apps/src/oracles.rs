//! Behaviours of specs/apps/oracle.qnt.
use crate::dispatch;
use frame_support::{parameter_types, traits::{ConstU32, ConstU64, Hooks}};
use itf::{agree, guarded, Report, Trace, V};
use oracle::{OnExchangeRateChange, OracleKey};
use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol::*};
use sp_arithmetic::{FixedI128, FixedU128};
use sp_runtime::{BuildStorage, DispatchError};
use std::cell::RefCell;
use traits::OracleApi;

type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
    pub enum Test
    {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        Security: security::{Pallet, Call, Storage, Event<T>},
        Oracle: oracle::{Pallet, Call, Config<T>, Storage, Event<T>},
        Currency: currency::{Pallet},
        Tokens: orml_tokens::{Pallet, Storage, Config<T>, Event<T>},
    }
);
crate::system!(Test, ());
parameter_types! {
    pub const Collateral: CurrencyId = Token(DOT);
    pub const Native: CurrencyId = Token(INTR);
    pub const Wrapped: CurrencyId = Token(IBTC);
}
orml_traits::parameter_type_with_key! {
    pub ExistentialDeposits: |_currency_id: CurrencyId| -> u128 { 0 };
}
impl orml_tokens::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ExistentialDeposits;
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<0>;
    type DustRemovalWhitelist = frame_support::traits::Everything;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
}
impl currency::Config for Test {
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type UnsignedFixedPoint = FixedU128;
    type Balance = u128;
    type GetNativeCurrencyId = Native;
    type GetRelayChainCurrencyId = Collateral;
    type GetWrappedCurrencyId = Wrapped;
    type CurrencyConversion = NoLending;
}
pub struct NoLending;
impl currency::CurrencyConversion<currency::Amount<Test>, CurrencyId> for NoLending {
    fn convert(_: &currency::Amount<Test>, _: CurrencyId) -> Result<currency::Amount<Test>, DispatchError> {
        unimplemented!()
    }
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<0>;
    type WeightInfo = ();
}
thread_local! {
    static TOLD: RefCell<Vec<CurrencyId>> = RefCell::new(vec![]);
}
pub struct Listener;
impl OnExchangeRateChange<CurrencyId> for Listener {
    fn on_exchange_rate_change(c: &CurrencyId) {
        TOLD.with(|t| t.borrow_mut().push(*c))
    }
}
impl oracle::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type OnExchangeRateChange = Listener;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}

fn cur(c: u64) -> CurrencyId {
    [Token(DOT), Token(INTR), Token(IBTC)][c as usize]
}
fn key(k: u64) -> OracleKey {
    if k == 2 { OracleKey::FeeEstimation } else { OracleKey::ExchangeRate(cur(k)) }
}

fn ext(st: &V) -> sp_io::TestExternalities {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    oracle::GenesisConfig::<Test> {
        authorized_oracles: st.get("trusted").list().iter().map(|a| (a.u(), Default::default())).collect(),
        max_delay: st.get("delay").u32(),
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    let now = st.get("clock").u();
    e.execute_with(|| {
        System::set_block_number(1);
        Timestamp::set_timestamp(now)
    });
    e
}
fn perform(op: &V) -> Result<u128, DispatchError> {
    let who = op.get("who").u();
    let root = |x: &V| if x.u() == 0 { RuntimeOrigin::signed(who) } else { RuntimeOrigin::root() };
    dispatch(|| match op.get("what").s() {
        "feed" => {
            let of = op.get("those").list().iter().map(|r| (key(r.at(0).u()), FixedU128::from_inner(r.at(1).u128()))).collect();
            Oracle::feed_values(RuntimeOrigin::signed(who), of).map(|_| 0).map_err(|e| e.error)
        }
        "trust" => Oracle::insert_authorized_oracle(root(op.get("x")), who, Default::default()).map(|_| 0),
        "distrust" => Oracle::remove_authorized_oracle(root(op.get("x")), who).map(|_| 0),
        "block" => {
            let n = System::block_number() + 1;
            System::set_block_number(n);
            Oracle::on_initialize(n);
            Ok(0)
        }
        "time" => {
            Timestamp::set_timestamp(op.get("x").u());
            Ok(0)
        }
        _ => {
            let a = currency::Amount::<Test>::new(op.get("amount").u128(), cur(op.get("x").u()));
            <Oracle as OracleApi<_, _>>::convert(&a, cur(op.get("y").u())).map(|a| a.amount())
        }
    })
}
pub fn trace(rep: &mut Report, t: &Trace) -> Result<(), (usize, String)> {
    let mut e = ext(&t.states[0]);
    for (i, st) in t.states.iter().enumerate() {
        rep.steps += 1;
        let op = st.get("op");
        let r: Result<u64, String> = e.execute_with(|| {
            let mut n = 0;
            let what = op.get("what").s();
            if what != "init" {
                TOLD.with(|t| t.borrow_mut().clear());
                let got = guarded(|| perform(op)).map_err(|p| format!("panic in {:?}: {}", op, p))?;
                rep.kind(&format!("{}:{}", what, if op.get("ok").b() { "ok" } else { "refused" }));
                agree(&format!("{:?}: accepted", op), op.get("ok").b(), got.is_ok())?;
                n += 1;
                if what == "convert" && got.is_ok() {
                    agree(&format!("{:?}: worth", op), op.get("out").u128(), got.unwrap())?;
                n += 1;
                }
                let told = TOLD.with(|t| t.borrow().clone());
                for c in op.get("changed").list() {
                    agree(&format!("{:?}: the new price of {} was told", op, c.u()), true, told.contains(&cur(c.u())))?;
                n += 1;
                }
            }
            for (k, v) in st.get("price").map() {
                let now = guarded(|| Oracle::get_price(key(k.u()))).map_err(|p| format!("panic: {}", p))?;
                let want = if v.is_neg() { None } else { Some(v.u128()) };
                agree(&format!("after {:?}: price of {}", op, k.u()), want, now.ok().map(|p| p.into_inner()))?;
                n += 1;
            }
            for a in 1..=5u64 {
                let want = st.get("trusted").list().iter().any(|x| x.u() == a);
                agree(&format!("after {:?}: {} is trusted", op, a), want, oracle::AuthorizedOracles::<Test>::contains_key(a))?;
                n += 1;
            }
            Ok(n)
        });
        rep.comparisons += r.map_err(|m| (i, m))?;
    }
    Ok(())
}
