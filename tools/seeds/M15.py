PROPERTY = 'C22'
KIND = 'pallets'
EDITS = [
    ('crates/nomination/src/lib.rs',
     '''        let amount = ext::vault_registry::pool_manager::withdraw_collateral::<T>(
            vault_id,
            nominator_id,
            maybe_amount,
            Some(index),
        )?;
''',
     '''        let amount = ext::vault_registry::pool_manager::withdraw_collateral::<T>(
            vault_id,
            nominator_id,
            maybe_amount,
            None,
        )?;
'''),
]
NEEDS = 'a nominator of two pools of the same vault, withdrawing from the closed one'
BREAKS = "a claim on the closed pool takes the collateral from the open one, past the vault's threshold"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        call(|| Nomination::opt_in_to_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        call(|| Nomination::set_nomination_limit(RuntimeOrigin::signed(1), pair(0), 50_000)).unwrap();
        call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(4), vid(1), 3_000)).unwrap();
        call(|| Nomination::opt_out_of_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        call(|| Nomination::opt_in_to_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(4), vid(1), 4_000)).unwrap();
        mint(5, 1, 16_000);
        call(|| Nomination::withdraw_collateral(RuntimeOrigin::signed(4), vid(1), Some(3_000), Some(0))).unwrap();
        check("the open pool keeps its collateral", backing(1) == 24_000);
    });
}
'''
