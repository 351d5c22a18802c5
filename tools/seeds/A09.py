PROPERTY = 'C28'
KIND = 'apps'
VARS = {'MOD': 'escrows', 'DROP': 'none'}
EDITS = [('crates/escrow/src/lib.rs', '''        T::EscrowRewards::withdraw_all_stake(&(), who)?;
        T::EscrowRewards::deposit_stake(&(), who, Self::balance_at(who, None))?;

        Self::deposit_event(Event::<T>::Deposit {
''', '''        if !amount.is_zero() || !unlock_height.is_zero() {
            T::EscrowRewards::withdraw_all_stake(&(), who)?;
            T::EscrowRewards::deposit_stake(&(), who, Self::balance_at(who, None))?;
        }

        Self::deposit_event(Event::<T>::Deposit {
''')]
NEEDS = "someone else's stale stake being updated long after the last change of the lock"
BREAKS = 'update_user_stake no longer updates the stake: an expired lock keeps earning rewards'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
pub fn demo() {
    let g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        Balances::deposit_creating(&1, 1_000_000);
        Escrow::create_lock(RuntimeOrigin::signed(1), 100_000, 50).unwrap();
        let power = Escrow::balance_at(&1, None);
        check("stake at first", Rewards::stake(&(), &1).into_inner() as u128 == power * 1_000_000_000_000_000_000 || Rewards::stake(&(), &1).into_inner() as u128 == power);
        System::set_block_number(60);
        Escrow::update_user_stake(RuntimeOrigin::signed(2), 1).unwrap();
        check("an expired lock has no stake", Rewards::stake(&(), &1).into_inner() == 0);
    });
}
'''
