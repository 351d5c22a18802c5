PROPERTY = 'C18'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/lib.rs',
     '''            let to_be_transferred = Self::calculate_collateral(
                &old_vault.liquidated_collateral(),
                tokens,
                &old_vault.to_be_redeemed_tokens(),
            )?;
            old_vault.decrease_liquidated_collateral(&to_be_transferred)?;
''',
     '''            old_vault.cancel_redeem_tokens(tokens)?;
            let to_be_transferred = Self::calculate_collateral(
                &old_vault.liquidated_collateral(),
                tokens,
                &old_vault.to_be_redeemed_tokens().max(tokens)?,
            )?;
            old_vault.decrease_liquidated_collateral(&to_be_transferred)?;
'''),
    ('crates/vault-registry/src/lib.rs',
     '''        old_vault.cancel_redeem_tokens(tokens)?;
        new_vault.cancel_issue_tokens(tokens)?;

        Ok(())
''',
     '''        if !old_vault.data.is_liquidated() {
            old_vault.cancel_redeem_tokens(tokens)?;
        }
        new_vault.cancel_issue_tokens(tokens)?;

        Ok(())
'''),
]
NEEDS = 'a vault liquidated while a replacement and a redeem are under way, then the replacement cancelled'
BREAKS = 'the cancelled replacement takes the share of the collateral kept for the redeem too'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        ask_redeem(4, 1, 2_000);
        call(|| Replace::request_replace(RuntimeOrigin::signed(1), pair(0), 6_000)).unwrap();
        let id = accept(1, 2, 6_000, 10_000);
        price(0, 2.0);
        VaultRegistry::liquidate_vault(&vid(1)).unwrap();
        late();
        let kept = vault(1).liquidated_collateral;
        call(|| Replace::cancel_replace(RuntimeOrigin::signed(5), id)).unwrap();
        check("a quarter is left for the redeem", vault(1).liquidated_collateral == kept - kept * 3 / 4);
    });
}
'''
