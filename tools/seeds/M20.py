PROPERTY = 'C14'
KIND = 'pallets'
EDITS = [
    ('crates/btc-relay/src/lib.rs',
     '''                    if prev_height.saturating_add(Self::get_stable_transaction_confirmations()) <= current_height {
''',
     '''                    if prev_height.saturating_add(Self::get_stable_transaction_confirmations()) < current_height {
'''),
]
NEEDS = 'a fork exactly the required number of blocks ahead'
BREAKS = 'the main chain stays with the shorter branch one block too long'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { confirmations: 3, ..Par::default() }, || {
       
        let base = tip();
        mine();
        let main = tip();
        let a = mine_on(base, 101);
        let b = mine_on(a, 102);
        let c = mine_on(b, 103);
        check("two ahead is not enough", BTCRelay::get_best_block() == main);
        let d = mine_on(c, 104);
        check("three ahead is", BTCRelay::get_best_block() == d);
    });
}
'''
