PROPERTY = 'C20'
KIND = 'pallets'
EDITS = [
    ('crates/redeem/src/lib.rs',
     '''                Self::redeem_period().max(redeem.period)
''',
     '''                Self::redeem_period().min(redeem.period)
'''),
]
NEEDS = 'the redeem period changed while a request is open'
BREAKS = "a redeem is cancelled at the vault's expense before its time is up"
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        mint(4, 1, 10_000);
        let id = ask_redeem(4, 1, 2_000);
        call(|| Redeem::set_redeem_period(RuntimeOrigin::root(), 100)).unwrap();
        tick(30, 3);
        check("not expired under the longer period", call(|| Redeem::cancel_redeem(RuntimeOrigin::signed(4), id, true)).is_err());
    });
}
'''
