PROPERTY = 'C30'
KIND = 'apps'
VARS = {'MOD': 'dexes', 'DROP': 'none'}
EDITS = [('crates/dex-general/src/swap/mod.rs', '                        parameter.accumulated_supply.1 = parameter\n                            .accumulated_supply\n                            .1\n                            .checked_sub(amount_1_contribute)\n                            .ok_or(Error::<T>::Overflow)?;\n                    }\n', '                    }\n')]
NEEDS = 'a pool that misses its target, of which some take their part back, and is then started again'
BREAKS = 'what was taken back still counts as contributed: the pool opens with tokens of others, or cannot open'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn by(a: u64) -> RuntimeOrigin {
    RuntimeOrigin::signed(who(a))
}
fn world(taker: Option<AccountId32>, f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    dex_general::GenesisConfig::<Test> { fee_receiver: taker, fee_point: 1 }.assimilate_storage(&mut g).unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        for a in 1..=4 {
            for t in 1..=3 {
                Tokens::deposit(cur(t), &who(a), 1_000_000_000_000_000).unwrap();
            }
        }
        f()
    })
}

pub fn demo() {
    world(None, || {
        let (a, b) = (cur(1), cur(2));
        Dex::bootstrap_create(RuntimeOrigin::root(), a, b, 1000, 1000, 5000, 5000, 5, vec![], vec![]).unwrap();
        Dex::bootstrap_contribute(by(1), a, b, 400, 600, 10).unwrap();
        Dex::bootstrap_contribute(by(2), a, b, 100, 100, 10).unwrap();
        System::set_block_number(6);
        Dex::bootstrap_refund(by(1), a, b).unwrap();
        Dex::bootstrap_create(RuntimeOrigin::root(), a, b, 1000, 1000, 5000, 5000, 15, vec![], vec![]).unwrap();
        Dex::bootstrap_contribute(by(3), a, b, 900, 900, 20).unwrap();
        System::set_block_number(15);
        check("the pool opens", dispatch(|| Dex::bootstrap_end(by(3), a, b)).is_ok());
        check("with what was contributed", Tokens::free_balance(b, &who(112)) == 1000);
    })
}
'''
