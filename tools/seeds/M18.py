PROPERTY = 'C12'
KIND = 'pallets'
EDITS = [
    ('crates/reward/src/lib.rs',
     '''        checked_sub_mut!(Stake<T, I>, (pool_id, stake_id), &amount);
        checked_sub_mut!(TotalStake<T, I>, pool_id, &amount);

        for currency_id in RewardCurrencies::<T, I>::get(pool_id) {
''',
     '''        checked_sub_mut!(Stake<T, I>, (pool_id, stake_id), &amount);
        checked_sub_mut!(TotalStake<T, I>, pool_id, &amount);

        for currency_id in RewardCurrencies::<T, I>::get(pool_id) {
            if Self::stake(pool_id, stake_id).is_zero() {
                // nothing left to keep track of
                <RewardTally<T, I>>::remove(currency_id, (pool_id, stake_id));
                continue;
            }
'''),
]
NEEDS = 'a staker that withdraws all its stake with rewards not yet collected'
BREAKS = 'the rewards earned are lost with the last of the stake'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(5, 2, 10_000);
        let earned = || <VaultRewards as reward::RewardsApi<CurrencyId, vault_registry::DefaultVaultId<Test>, u128>>::compute_reward(&cur(0), &vid(1), cur(2)).unwrap();
        use reward::RewardsApi;
        <VaultRewards as RewardsApi<CurrencyId, vault_registry::DefaultVaultId<Test>, u128>>::distribute_reward(&cur(0), cur(2), 1_000).unwrap();
        let before = earned();
        <VaultRewards as RewardsApi<CurrencyId, vault_registry::DefaultVaultId<Test>, u128>>::withdraw_all_stake(&cur(0), &vid(1)).unwrap();
        check("earned", before > 400);
        check("still to be collected", earned() == before);
    });
}
'''
