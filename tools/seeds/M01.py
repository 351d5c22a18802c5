PROPERTY = "C16"
KIND = "pallets"
EDITS = [("crates/redeem/src/lib.rs", """        reimbursed_amount.mint_to(&vault_id.account_id)?;

        Self::set_redeem_status(redeem_id, RedeemRequestStatus::Reimbursed(true));
""", """        reimbursed_amount.mint_to(&vault_id.account_id)?;
""")]
NEEDS = "a redeem reimbursed while its vault was below the secure threshold, the vault recovering, and its operator minting the burnt tokens a second time"
BREAKS = "the tokens burnt for a reimbursed redeem can be minted again and again"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        let id = ask_redeem(4, 1, 5_000);
        late();
        price(0, 1.6);
        call(|| Redeem::cancel_redeem(RuntimeOrigin::signed(4), id, true)).unwrap();
        let burnt = supply();
        price(0, 0.5);
        tick(50, 50);
        call(|| Redeem::mint_tokens_for_reimbursed_redeem(RuntimeOrigin::signed(1), pair(0), id)).unwrap();
        check("minted what was burnt", supply() == burnt + 5_000);
        let again = call(|| Redeem::mint_tokens_for_reimbursed_redeem(RuntimeOrigin::signed(1), pair(0), id));
        check("not minted twice", again.is_err() && supply() == burnt + 5_000);
    });
}
'''
