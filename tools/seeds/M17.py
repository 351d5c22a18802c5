PROPERTY = 'C22'
KIND = 'pallets'
EDITS = [
    ('crates/fee/src/lib.rs',
     '''        let rewards = T::VaultStaking::withdraw_reward(&(index, vault_id.clone()), nominator_id, currency_id)?
''',
     '''        let index = index.filter(|_| nominator_id != &vault_id.account_id);
        let rewards = T::VaultStaking::withdraw_reward(&(index, vault_id.clone()), nominator_id, currency_id)?
'''),
]
NEEDS = "an operator's rewards from before opting out, claimed from the closed pool"
BREAKS = 'what the operator earned in a pool that was closed since can never be claimed'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { issue_fee: 0.05, ..Par::default() }, || {
        call(|| Nomination::opt_in_to_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        call(|| Nomination::set_nomination_limit(RuntimeOrigin::signed(1), pair(0), 50_000)).unwrap();
        call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(4), vid(1), 3_000)).unwrap();
        mint(5, 2, 10_000);
        call(|| Nomination::opt_out_of_nomination(RuntimeOrigin::signed(1), pair(0))).unwrap();
        let before = free(1, 2);
        call(|| Fee::withdraw_rewards(RuntimeOrigin::signed(1), vid(1), Some(0))).unwrap();
        check("the operator's earlier rewards", free(1, 2) > before + 50);
    });
}
'''
