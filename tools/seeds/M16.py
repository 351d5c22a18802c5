PROPERTY = 'C23'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/pool_manager.rs',
     '''    pub fn slash_collateral(vault_id: &DefaultVaultId<T>, amount: &Amount<T>) -> Result<(), DispatchError> {
        ext::fee::distribute_all_vault_rewards::<T>(vault_id)?;
        ext::staking::slash_stake(vault_id, amount)?;
''',
     '''    pub fn slash_collateral(vault_id: &DefaultVaultId<T>, amount: &Amount<T>) -> Result<(), DispatchError> {
        ext::staking::slash_stake(vault_id, amount)?;
'''),
]
NEEDS = "fees not yet passed on to a vault's pool when the vault is slashed, and another vault of the same currency"
BREAKS = 'a slash changes what another vault has already earned'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { issue_fee: 0.05, ..Par::default() }, || {
        mint(4, 1, 12_000);
        let id = ask_redeem(4, 1, 10_000);
        late();
        let earned = || Fee::compute_vault_rewards(&vid(2), &2, cur(2)).unwrap().amount();
        let before = earned();
        call(|| Redeem::cancel_redeem(RuntimeOrigin::signed(4), id, false)).unwrap();
        check("something was earned", before > 100);
        check("the slash of another vault does not change it", earned() <= before + 1);
    });
}
'''
