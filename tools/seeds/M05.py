PROPERTY = 'C18'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/lib.rs',
     '''            amount_wrapped,
            &liquidation_vault.to_be_backed_tokens()?,
        )?;
''',
     '''            amount_wrapped,
            &liquidation_vault.redeemable_tokens()?,
        )?;
'''),
]
NEEDS = 'issues under way at the liquidation, before somebody burns tokens for collateral'
BREAKS = 'those who burn tokens first take the collateral of the tokens still to be issued'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 5_000);
        ask_issue(5, 1, 5_000);
        price(0, 2.0);
        VaultRegistry::liquidate_vault(&vid(1)).unwrap();
        let (before, pot) = (free(4, 0), heir(0).collateral);
        call(|| Redeem::liquidation_redeem(RuntimeOrigin::signed(4), pair(0), 2_500)).unwrap();
        check("a quarter of the tokens for a quarter of the collateral", free(4, 0) - before == pot / 4);
    });
}
'''
