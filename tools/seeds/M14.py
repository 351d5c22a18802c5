PROPERTY = 'C22'
KIND = 'pallets'
EDITS = [
    ('crates/nomination/src/lib.rs',
     '''        let vault_backing_collateral = ext::vault_registry::get_backing_collateral::<T>(vault_id)?;
        let vault_actual_collateral = ext::vault_registry::compute_collateral::<T>(vault_id)?;
        vault_backing_collateral.checked_sub(&vault_actual_collateral)
''',
     '''        let vault_backing_collateral = ext::vault_registry::get_backing_collateral::<T>(vault_id)?;
        let vault_actual_collateral = ext::vault_registry::compute_collateral::<T>(vault_id)?;
        let nominated = vault_backing_collateral.saturating_sub(&vault_actual_collateral)?;
        // what nominators hold never exceeds what the operator allows for
        nominated.min(&Self::get_nomination_limit(vault_id))
'''),
]
NEEDS = 'the nomination limit lowered below what is nominated, then opting out'
BREAKS = "a vault opts out, and loses its nominators' collateral, although it is not secure without it"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        call(|| Nomination::opt_in_to_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        call(|| Nomination::set_nomination_limit(RuntimeOrigin::signed(1), pair(0), 20_000)).unwrap();
        call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(4), vid(1), 10_000)).unwrap();
        mint(5, 1, 18_000);
        call(|| Nomination::set_nomination_limit(RuntimeOrigin::signed(1), pair(0), 1_000)).unwrap();
        check("not secure without the nominators", call(|| Nomination::opt_out_of_nomination(RuntimeOrigin::signed(1), pair(0))).is_err());
    });
}
'''
