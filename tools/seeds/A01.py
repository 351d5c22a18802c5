PROPERTY = 'C24'
KIND = 'apps'
VARS = {'MOD': 'oracles', 'DROP': 'loans'}
EDITS = [('crates/oracle/src/lib.rs', '                .map(|x| x.timestamp)\n                .min()\n', '                .map(|x| x.timestamp)\n                .max()\n')]
NEEDS = 'two reporters whose reports are of different age'
BREAKS = 'a price keeps counting a report after that has run out'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn feed(a: u64, v: u128) {
    Oracle::feed_values(RuntimeOrigin::signed(a), vec![(key(0), FixedU128::from_inner(v))]).unwrap();
}
fn at(t: u64) {
    Timestamp::set_timestamp(t);
    let n = System::block_number() + 1;
    System::set_block_number(n);
    Oracle::on_initialize(n);
}
fn price() -> Option<u128> {
    Oracle::get_price(key(0)).ok().map(|p| p.into_inner())
}
fn world(f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    oracle::GenesisConfig::<Test> { authorized_oracles: (1..=3).map(|a| (a, Default::default())).collect(), max_delay: 100 }
        .assimilate_storage(&mut g)
        .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        f()
    })
}

pub fn demo() {
    world(|| {
        Timestamp::set_timestamp(1000);
        feed(1, 10);
        at(1060);
        feed(2, 30);
        at(1061);
        check("the mean of both", price() == Some(20));
        at(1101);
        check("the first has run out", price() == Some(30));
    });
}
'''
