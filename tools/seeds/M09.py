PROPERTY = 'C20'
KIND = 'pallets'
EDITS = [
    ('crates/redeem/src/lib.rs',
     '''            user_to_be_received_btc.ge(&Self::get_dust_value(vault_id.wrapped_currency()))?,
''',
     '''            vault_to_be_burned_tokens.ge(&Self::get_dust_value(vault_id.wrapped_currency()))?,
'''),
]
NEEDS = 'a small redeem while the Bitcoin transfer fee is not zero'
BREAKS = 'a redeem is taken of which the vault would have to send less than the dust'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { transfer: 20, redeem_dust: 100, ..Par::default() }, || {
        mint(4, 1, 10_000);
        check("dust is refused", call(|| Redeem::request_redeem(RuntimeOrigin::signed(4), 110, payee(4), vid(1))).is_err());
        check("more is not", call(|| Redeem::request_redeem(RuntimeOrigin::signed(4), 150, payee(4), vid(1))).is_ok());
    });
}
'''
