PROPERTY = 'C30'
KIND = 'apps'
VARS = {'MOD': 'dexes', 'DROP': 'none'}
EDITS = [('crates/dex-general/src/lib.rs', '                            pair_account: Self::bootstrap_account_id(),\n                        });\n\n                        // must no reward before update.\n                        let exist_rewards = BootstrapRewards::<T>::get(pair);\n                        for (_, exist_reward) in exist_rewards {\n                            if exist_reward != Zero::zero() {\n                                return Err(Error::<T>::ExistRewardsInBootstrap);\n                            }\n                        }\n\n                        BootstrapRewards::<T>::insert(\n', '                            pair_account: Self::bootstrap_account_id(),\n                        });\n\n                        BootstrapRewards::<T>::insert(\n')]
NEEDS = 'rewards charged to a pool that misses its target and is started again'
BREAKS = 'rewards that were charged are lost when a pool is started again'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn world(taker: Option<AccountId32>, f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    dex_general::GenesisConfig::<Test> { fee_receiver: taker, fee_point: 1 }.assimilate_storage(&mut g).unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        for a in 1..=4 {
            for t in 1..=3 {
                Tokens::deposit(cur(t), &who(a), 1_000_000_000_000_000).unwrap();
            }
        }
        f()
    })
}

pub fn demo() {
    world(None, || {
        let (a, b) = (cur(1), cur(2));
        Dex::bootstrap_create(RuntimeOrigin::root(), a, b, 1000, 1000, 5000, 5000, 5, vec![cur(3)], vec![]).unwrap();
        Dex::bootstrap_charge_reward(by(1), a, b, vec![(cur(3), 500)]).unwrap();
        System::set_block_number(6);
        let again = dispatch(|| Dex::bootstrap_create(RuntimeOrigin::root(), a, b, 1000, 1000, 5000, 5000, 15, vec![cur(3)], vec![]));
        check("it does not start with rewards left", again.is_err());
        Dex::bootstrap_withdraw_reward(RuntimeOrigin::root(), a, b, who(1)).unwrap();
        check("they come back", Tokens::free_balance(cur(3), &who(1)) == 1_000_000_000_000_000);
        Dex::bootstrap_create(RuntimeOrigin::root(), a, b, 1000, 1000, 5000, 5000, 15, vec![cur(3)], vec![]).unwrap();
    })
}
'''
