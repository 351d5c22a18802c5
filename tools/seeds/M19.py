PROPERTY = 'C13'
KIND = 'pallets'
EDITS = [
    ('crates/staking/src/lib.rs',
     '''        for currency_id in [vault_id.wrapped_currency(), T::GetNativeCurrencyId::get()] {
            Self::increase_rewards(
''',
     '''        for currency_id in [vault_id.wrapped_currency()] {
            Self::increase_rewards(
'''),
]
NEEDS = 'rewards in the native currency not yet collected when the vault is slashed'
BREAKS = 'the slash takes a part of the rewards earned in the native currency'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        use staking::StakingApi;
        use reward::RewardsApi;
        type A = vault_registry::DefaultVaultId<Test>;
        <VaultStaking as RewardsApi<(Option<u64>, A), u64, u128>>::distribute_reward(&(None, vid(1)), cur(1), 10_000).unwrap();
        let earned = || <VaultStaking as RewardsApi<(Option<u64>, A), u64, u128>>::compute_reward(&(None, vid(1)), &1, cur(1)).unwrap();
        let before = earned();
        <VaultStaking as StakingApi<A, u64, u128>>::slash_stake(&vid(1), 5_000).unwrap();
        check("earned", before >= 9_999);
        check("kept by the slash", earned() + 1 >= before);
    });
}
'''
