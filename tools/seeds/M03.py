PROPERTY = 'C17'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/lib.rs',
     '''        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;

        let limit = Self::get_collateral_ceiling(currency_pair)?;
        ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
''',
     '''        let old = Self::get_total_user_vault_collateral(currency_pair)?;

        let limit = Self::get_collateral_ceiling(currency_pair)?;
        ensure!(old.lt(&limit)? && amount.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
'''),
]
NEEDS = 'a deposit that crosses the ceiling while the total before it is still below'
BREAKS = 'more collateral of a currency is taken than its ceiling allows'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { ceiling: 45_000, ..Par::default() }, || {
        let d = call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(1), vid(1), 6_000));
        check("a deposit over the ceiling is refused", d.is_err());
        check("a deposit up to the ceiling is taken", call(|| Nomination::deposit_collateral(RuntimeOrigin::signed(1), vid(1), 5_000)).is_ok());
    });
}
'''
