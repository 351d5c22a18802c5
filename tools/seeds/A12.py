PROPERTY = 'C29'
KIND = 'apps'
VARS = {'MOD': 'dexes', 'DROP': 'none'}
EDITS = [('crates/dex-general/src/swap/mod.rs', '        } else if !new_k_last.is_zero() {\n            Self::mutate_k_last(asset_0, asset_1, U256::zero())\n        }\n', '        }\n')]
NEEDS = 'the fee switched off while a pool grows and liquidity changes, and on again'
BREAKS = 'the protocol takes a part of what pools grew by while it was to take nothing'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn world(taker: Option<AccountId32>, f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    dex_general::GenesisConfig::<Test> { fee_receiver: taker, fee_point: 1 }.assimilate_storage(&mut g).unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        for a in 1..=4 {
            for t in 1..=3 {
                Tokens::deposit(cur(t), &who(a), 1_000_000_000_000_000).unwrap();
            }
        }
        f()
    })
}

pub fn demo() {
    world(Some(who(5)), || {
        Dex::create_pair(RuntimeOrigin::root(), cur(1), cur(2), 100).unwrap();
        Dex::add_liquidity(by(1), cur(1), cur(2), 1_000_000, 1_000_000, 0, 0, 10).unwrap();
        Dex::set_fee_receiver(RuntimeOrigin::root(), None).unwrap();
        Dex::add_liquidity(by(2), cur(1), cur(2), 1000, 1000, 0, 0, 10).unwrap();
        for _ in 0..5 {
            Dex::swap_exact_assets_for_assets(by(3), 300_000, 0, vec![cur(1), cur(2)], who(3), 10).unwrap();
            Dex::swap_exact_assets_for_assets(by(3), 300_000, 0, vec![cur(2), cur(1)], who(3), 10).unwrap();
        }
        Dex::set_fee_receiver(RuntimeOrigin::root(), Some(who(5))).unwrap();
        Dex::add_liquidity(by(2), cur(1), cur(2), 10_000, 10_000, 0, 0, 10).unwrap();
        check("nothing is taken of that time", Tokens::free_balance(cur(12), &who(5)) == 0);
    })
}
'''
