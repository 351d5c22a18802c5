PROPERTY = 'C19'
KIND = 'pallets'
EDITS = [
    ('crates/issue/src/lib.rs',
     '''        let issue_period = Self::issue_period().max(issue.period);
''',
     '''        let issue_period = Self::issue_period();
'''),
]
NEEDS = 'the issue period shortened while a request is open'
BREAKS = 'others can cancel the request, and forfeit its griefing collateral, before the period it was made under is over'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par::default(), || {
        let id = ask_issue(4, 1, 5_000);
        call(|| Issue::set_issue_period(RuntimeOrigin::root(), 2)).unwrap();
        tick(6, 3);
        check("not expired yet", call(|| Issue::cancel_issue(RuntimeOrigin::signed(5), id)).is_err());
        late();
        check("expired", call(|| Issue::cancel_issue(RuntimeOrigin::signed(5), id)).is_ok());
    });
}
'''
