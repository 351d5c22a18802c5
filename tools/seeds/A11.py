PROPERTY = 'C29'
KIND = 'apps'
VARS = {'MOD': 'dexes', 'DROP': 'none'}
EDITS = [('crates/dex-general/src/swap/mod.rs', '            amount_0_optimal >= amount_0_min && amount_0_optimal <= amount_0_desired,\n', '            amount_0_optimal <= amount_0_desired,\n')]
NEEDS = 'liquidity added with more of the first token than fits and a minimum for it'
BREAKS = 'the minimum a provider gave for the first token is not kept'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn world(taker: Option<AccountId32>, f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    dex_general::GenesisConfig::<Test> { fee_receiver: taker, fee_point: 1 }.assimilate_storage(&mut g).unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        for a in 1..=4 {
            for t in 1..=3 {
                Tokens::deposit(cur(t), &who(a), 1_000_000_000_000_000).unwrap();
            }
        }
        f()
    })
}

pub fn demo() {
    world(None, || {
        Dex::create_pair(RuntimeOrigin::root(), cur(1), cur(2), 30).unwrap();
        Dex::add_liquidity(by(1), cur(1), cur(2), 1_000_000, 1_000_000, 0, 0, 10).unwrap();
        let r = dispatch(|| Dex::add_liquidity(by(2), cur(1), cur(2), 5000, 1000, 1000, 1000, 10));
        check("what fits is taken", r.is_ok());
        let r = dispatch(|| Dex::add_liquidity(by(2), cur(1), cur(2), 5000, 1000, 1001, 1000, 10));
        check("less than the minimum is refused", r.is_err());
    })
}
'''
