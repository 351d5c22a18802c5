PROPERTY = 'C19'
KIND = 'pallets'
EDITS = [
    ('crates/issue/src/lib.rs',
     '''                if amount_transferred.lt(&expected_total_amount)? {
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                }
                if amount_transferred.ne(&expected_total_amount)? {
''',
     '''                if amount_transferred.lt(&issue.amount())? {
                    ensure!(requester == executor, Error::<T>::InvalidExecutor);
                }
                if amount_transferred.ne(&expected_total_amount)? {
'''),
]
NEEDS = 'a cancelled issue with a fee, underpaid by less than the fee, executed by someone else'
BREAKS = 'someone other than the requester settles an underpaid issue'
DEMO = r'''
mod kit;
mod rt;
use kit::*;
use rt::*;
fn main() {
    on_chain(Par { issue_fee: 0.05, ..Par::default() }, || {
        let id = ask_issue(4, 1, 5_000);
        late();
        call(|| Issue::cancel_issue(RuntimeOrigin::signed(5), id)).unwrap();
        check("others cannot settle for less", call(|| Issue::execute_issue(RuntimeOrigin::signed(5), id, paid(id, 4_900))).is_err());
        check("the requester can", call(|| Issue::execute_issue(RuntimeOrigin::signed(4), id, paid(id, 4_900))).is_ok());
    });
}
'''
