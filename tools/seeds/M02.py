PROPERTY = "C16"
KIND = "pallets"
EDITS = [("crates/redeem/src/lib.rs", """                vault_to_be_burned_tokens.burn_from(&redeemer)?;
                ext::vault_registry::decrease_tokens::<T>(&redeem.vault, &redeem.redeemer, &vault_to_be_burned_tokens)?;
                // set to Reimbursed(true) such that the vault can't mint the ibtc/kbtc later on
""", """                vault_to_be_burned_tokens.burn_from(&redeemer)?;
                ext::vault_registry::decrease_to_be_redeemed_tokens::<T>(&vault_id, &vault_to_be_burned_tokens)?;
                // set to Reimbursed(true) such that the vault can't mint the ibtc/kbtc later on
""")]
NEEDS = "a redeem under way when its vault is liquidated, cancelled with reimbursement"
BREAKS = "the tokens are burnt but still counted as issued by the liquidation vault"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        let id = ask_redeem(4, 1, 4_000);
        price(0, 2.0);
        VaultRegistry::liquidate_vault(&vid(1)).unwrap();
        late();
        call(|| Redeem::cancel_redeem(RuntimeOrigin::signed(4), id, true)).unwrap();
        check("supply is what is issued", supply() == heir(0).issued_tokens);
    });
}
'''
