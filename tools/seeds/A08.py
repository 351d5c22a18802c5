PROPERTY = 'C27'
KIND = 'apps'
VARS = {'MOD': 'lending', 'DROP': 'none'}
EDITS = [('crates/loans/src/farming.rs', '                borrow_state.index = borrow_state\n                    .index\n                    .checked_add(delta_index)\n                    .ok_or(ArithmeticError::Overflow)?;\n            }\n            borrow_state.block = current_block_number;\n', '                borrow_state.index = borrow_state\n                    .index\n                    .checked_add(delta_index)\n                    .ok_or(ArithmeticError::Overflow)?;\n                borrow_state.block = current_block_number;\n            }\n')]
NEEDS = 'a market without rewards for borrowers in use for a while before they are switched on'
BREAKS = 'borrowers earn at the new speed for the time before it was set'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn terms(m: u64) -> Market<u128> {
    Market {
        collateral_factor: Ratio::from_percent(50),
        liquidation_threshold: Ratio::from_percent(60),
        reserve_factor: Ratio::from_percent(20),
        close_factor: Ratio::from_percent(50),
        liquidate_incentive: Rate::from_inner(1_500_000_000_000_000_000),
        liquidate_incentive_reserved_factor: Ratio::from_percent(30),
        rate_model: InterestRateModel::Jump(JumpModel {
            base_rate: Rate::from_inner(100_000_000_000_000_000),
            jump_rate: Rate::from_inner(100_000_000_000_000_000),
            full_rate: Rate::from_inner(100_000_000_000_000_000),
            jump_utilization: Ratio::from_percent(80),
        }),
        state: MarketState::Pending,
        supply_cap: u64::MAX as u128,
        borrow_cap: u64::MAX as u128,
        lend_token_id: lent(m),
    }
}
fn later(secs: u64, block: u64) {
    Timestamp::set_timestamp((6 + secs) * 1000);
    System::set_block_number(1 + block);
}
fn world(f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    loans::GenesisConfig::<Test> {
        max_exchange_rate: Rate::from_inner(1_000_000_000_000_000_000),
        min_exchange_rate: Rate::from_inner(20_000_000_000_000_000),
        _marker: Default::default(),
    }
    .assimilate_storage(&mut g)
    .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        later(0, 0);
        for a in 1..=3 {
            for m in 0..3 {
                Tokens::set_balance(RuntimeOrigin::root(), who(a), cur(m), 1_000_000_000_000_000, 0).unwrap();
            }
        }
        for m in 0..2 {
            Oracle::_set_exchange_rate(cur(m), Rate::from_inner(1_000_000_000_000_000_000)).unwrap();
            Loans::add_market(RuntimeOrigin::root(), cur(m), terms(m)).unwrap();
            Loans::activate_market(RuntimeOrigin::root(), cur(m)).unwrap();
        }
        f()
    })
}

pub fn demo() {
    world(|| {
        Loans::mint(by(1), cur(0), 1_000_000_000).unwrap();
        Loans::mint(by(2), cur(1), 1_000_000_000).unwrap();
        Loans::deposit_all_collateral(by(2), cur(1)).unwrap();
        Loans::borrow(by(2), cur(0), 100_000_000).unwrap();
        later(60, 10);
        Loans::update_market_reward_speed(RuntimeOrigin::root(), cur(0), None, Some(1000)).unwrap();
        Loans::add_reward(by(3), 1_000_000_000).unwrap();
        later(66, 11);
        let before = Tokens::free_balance(Token(INTR), &who(2));
        Loans::claim_reward(by(2)).unwrap();
        let got = Tokens::free_balance(Token(INTR), &who(2)) - before;
        check("one block's rewards", got >= 999 && got <= 1001);
    });
}
'''
