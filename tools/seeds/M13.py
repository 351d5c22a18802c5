PROPERTY = 'C21'
KIND = 'pallets'
EDITS = [
    ('crates/redeem/src/lib.rs',
     '''        if !griefing_collateral.is_zero() {
            ext::vault_registry::transfer_funds(
''',
     '''        let left = ext::vault_registry::get_vault_from_id::<T>(vault_id)?.to_be_replaced_tokens;
        if !griefing_collateral.is_zero() && left != Default::default() {
            ext::vault_registry::transfer_funds(
'''),
]
NEEDS = 'a redeem that takes up everything that was asked to be replaced'
BREAKS = 'the griefing collateral of a request for replacement stays locked when redeems have used it up'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        call(|| Replace::request_replace(RuntimeOrigin::signed(1), pair(0), 4_000)).unwrap();
        check("locked", vault(1).replace_collateral == 400);
        ask_redeem(4, 1, 5_000);
        check("released", vault(1).to_be_replaced_tokens == 0 && vault(1).replace_collateral == 0);
    });
}
'''
