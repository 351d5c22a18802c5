PROPERTY = 'C17'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/types.rs',
     '''            .unwrap_or(UnsignedFixedPoint::<T>::zero())
            .max(global_threshold))
''',
     '''            .unwrap_or(global_threshold))
'''),
]
NEEDS = "a vault with a secure threshold of its own, and the currency's threshold raised above it later"
BREAKS = "the vault keeps issuing and withdrawing below the currency's secure threshold"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        call(|| VaultRegistry::set_custom_secure_threshold(RuntimeOrigin::signed(1), pair(0), Some(f(1.6)))).unwrap();
        mint(4, 1, 10_000);
        VaultRegistry::_set_secure_collateral_threshold(pair(0), f(1.9));
        check("the higher threshold counts", call(|| Nomination::withdraw_collateral(RuntimeOrigin::signed(1), vid(1), Some(2_000), None)).is_err());
    });
}
'''
