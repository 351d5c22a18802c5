PROPERTY = 'C28'
KIND = 'apps'
VARS = {'MOD': 'escrows', 'DROP': 'none'}
EDITS = [('crates/escrow/src/lib.rs', '''        if new_locked.end > now && new_locked.end > old_locked.end {
''', '''        if new_locked.end > now && old_locked.end.is_zero() {
''')]
NEEDS = 'a lock that was extended, another that lasts longer, and time until after the first one ends'
BREAKS = 'the end of an extended lock is not scheduled: the total voting power becomes less than the sum of what everyone has'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
pub fn demo() {
    let g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        for a in 1..=2 {
            Balances::deposit_creating(&a, 1_000_000);
        }
        Escrow::create_lock(RuntimeOrigin::signed(2), 100_000, 100).unwrap();
        Escrow::create_lock(RuntimeOrigin::signed(1), 100_000, 20).unwrap();
        System::set_block_number(5);
        Escrow::increase_unlock_height(RuntimeOrigin::signed(1), 40).unwrap();
        System::set_block_number(80);
        let sum = Escrow::balance_at(&1, None) + Escrow::balance_at(&2, None);
        check("the total is the sum", Escrow::total_supply(None) == sum && sum > 0);
    });
}
'''
