PROPERTY = 'C21'
KIND = 'pallets'
EDITS = [
    ('crates/replace/src/lib.rs',
     '''        ext::vault_registry::try_deposit_collateral::<T>(&new_vault_id, &actual_new_vault_collateral)?;
''',
     '''        ext::vault_registry::try_deposit_collateral::<T>(&new_vault_id, &collateral)?;
'''),
]
NEEDS = 'a vault offering to take over more than is still asked for'
BREAKS = 'the new vault locks collateral for tokens it does not take over, and does not get it back on cancellation'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        call(|| Replace::request_replace(RuntimeOrigin::signed(1), pair(0), 4_000)).unwrap();
        let before = backing(2);
        accept(1, 2, 8_000, 10_000);
        check("half the tokens, half the collateral", backing(2) == before + 5_000);
    });
}
'''
