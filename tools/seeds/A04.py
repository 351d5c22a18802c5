PROPERTY = 'C25'
KIND = 'apps'
VARS = {'MOD': 'lending', 'DROP': 'none'}
EDITS = [('crates/loans/src/lib.rs', '        let reducible_cash =\n            Self::get_total_cash(amount.currency()).checked_sub(&Self::total_reserves(amount.currency()))?;\n', '        let reducible_cash = Self::get_total_cash(amount.currency());\n')]
NEEDS = 'reserves in the pool, and somebody who takes out nearly all the cash'
BREAKS = 'the reserves are lent or paid out'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn terms(m: u64) -> Market<u128> {
    Market {
        collateral_factor: Ratio::from_percent(50),
        liquidation_threshold: Ratio::from_percent(60),
        reserve_factor: Ratio::from_percent(20),
        close_factor: Ratio::from_percent(50),
        liquidate_incentive: Rate::from_inner(1_500_000_000_000_000_000),
        liquidate_incentive_reserved_factor: Ratio::from_percent(30),
        rate_model: InterestRateModel::Jump(JumpModel {
            base_rate: Rate::from_inner(100_000_000_000_000_000),
            jump_rate: Rate::from_inner(100_000_000_000_000_000),
            full_rate: Rate::from_inner(100_000_000_000_000_000),
            jump_utilization: Ratio::from_percent(80),
        }),
        state: MarketState::Pending,
        supply_cap: u64::MAX as u128,
        borrow_cap: u64::MAX as u128,
        lend_token_id: lent(m),
    }
}
fn later(secs: u64, block: u64) {
    Timestamp::set_timestamp((6 + secs) * 1000);
    System::set_block_number(1 + block);
}
fn world(f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    loans::GenesisConfig::<Test> {
        max_exchange_rate: Rate::from_inner(1_000_000_000_000_000_000),
        min_exchange_rate: Rate::from_inner(20_000_000_000_000_000),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        later(0, 0);
        for a in 1..=3 {
            for m in 0..3 {
                Tokens::set_balance(RuntimeOrigin::root(), who(a), cur(m), 1_000_000_000_000_000, 0).unwrap();
            }
        }
        for m in 0..2 {
            Oracle::_set_exchange_rate(cur(m), Rate::from_inner(1_000_000_000_000_000_000)).unwrap();
            Loans::add_market(RuntimeOrigin::root(), cur(m), terms(m)).unwrap();
            Loans::activate_market(RuntimeOrigin::root(), cur(m)).unwrap();
        }
        f()
    })
}

pub fn demo() {
    world(|| {
        Loans::mint(by(1), cur(0), 1_000_000).unwrap();
        Loans::add_reserves(RuntimeOrigin::root(), who(3), cur(0), 500_000).unwrap();
        Loans::mint(by(2), cur(1), 1_000_000_000).unwrap();
        Loans::deposit_all_collateral(by(2), cur(1)).unwrap();
        check("only what is lent", dispatch(|| Loans::borrow(by(2), cur(0), 1_000_001).map_err(|e| e.error)).is_err());
        check("all that is lent", dispatch(|| Loans::borrow(by(2), cur(0), 1_000_000).map_err(|e| e.error)).is_ok());
    });
}
'''
