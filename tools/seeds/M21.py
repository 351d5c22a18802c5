PROPERTY = 'C15'
KIND = 'pallets'
EDITS = [
    ('crates/btc-relay/src/types.rs',
     '''                ensure!(payments[0].1 != payments[1].1, Error::<T>::InvalidOpReturnTransaction);
''',
     '''                ensure!(payments[0] != payments[1], Error::<T>::InvalidOpReturnTransaction);
'''),
]
NEEDS = 'a transaction that pays the recipient twice, with different amounts'
BREAKS = 'a vault can pay more than was asked for and have it taken as the payment'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        let id = ask_redeem(4, 1, 2_000);
        let twice = pay(vec![(Some(payee(4)), 2_000, None), (Some(payee(4)), 500, None), (None, 0, Some(id))]);
        check("not a payment", call(|| Redeem::execute_redeem(RuntimeOrigin::signed(1), id, twice)).is_err());
        check("a payment", call(|| Redeem::execute_redeem(RuntimeOrigin::signed(1), id, settled(4, 2_000, id))).is_ok());
    });
}
'''
