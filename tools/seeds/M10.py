PROPERTY = 'C20'
KIND = 'pallets'
EDITS = [
    ('crates/vault-registry/src/types.rs',
     '''            Some(until) => ext::security::active_block_number::<T>() <= until,
''',
     '''            Some(until) => ext::security::active_block_number::<T>() < until,
'''),
]
NEEDS = "a request in the very last block of a vault's ban"
BREAKS = "the vault's ban ends a block early"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        let id = ask_redeem(4, 1, 2_000);
        late();
        call(|| Redeem::cancel_redeem(RuntimeOrigin::signed(4), id, false)).unwrap();
        let until = vault(1).banned_until.unwrap();
        tick(until - Security::active_block_number(), 0);
        check("still banned", call(|| Redeem::request_redeem(RuntimeOrigin::signed(4), 1_000, payee(4), vid(1))).is_err());
        tick(1, 0);
        check("no more", call(|| Redeem::request_redeem(RuntimeOrigin::signed(4), 1_000, payee(4), vid(1))).is_ok());
    });
}
'''
