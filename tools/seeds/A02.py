PROPERTY = 'C24'
KIND = 'apps'
VARS = {'MOD': 'oracles', 'DROP': 'loans'}
EDITS = [('crates/oracle/src/lib.rs', '            RawValues::<T>::insert(key, &oracle, timestamped);\n            RawValuesUpdated::<T>::insert(key, true);\n', '            // a value that stays the same does not change the aggregate\n            let same = RawValues::<T>::get(key, &oracle).map_or(false, |last| last.value == timestamped.value);\n            RawValues::<T>::insert(key, &oracle, timestamped);\n            if !same {\n                RawValuesUpdated::<T>::insert(key, true);\n            }\n')]
NEEDS = 'a report of the same value after the earlier one, and the price with it, has run out'
BREAKS = 'a fresh report does not make a price'
DEMO = r'''
fn check(what: &str, ok: bool) {
    if !ok {
        println!("broken: {}", what);
        std::process::exit(1);
    }
}
fn feed(a: u64, v: u128) {
    Oracle::feed_values(RuntimeOrigin::signed(a), vec![(key(0), FixedU128::from_inner(v))]).unwrap();
}
fn at(t: u64) {
    Timestamp::set_timestamp(t);
    let n = System::block_number() + 1;
    System::set_block_number(n);
    Oracle::on_initialize(n);
}
fn price() -> Option<u128> {
    Oracle::get_price(key(0)).ok().map(|p| p.into_inner())
}
fn world(f: impl FnOnce()) {
    let mut g = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    oracle::GenesisConfig::<Test> { authorized_oracles: (1..=3).map(|a| (a, Default::default())).collect(), max_delay: 100 }
        .assimilate_storage(&mut g)
        .unwrap();
    let mut e: sp_io::TestExternalities = g.into();
    e.execute_with(|| {
        System::set_block_number(1);
        f()
    })
}

pub fn demo() {
    world(|| {
        Timestamp::set_timestamp(1000);
        feed(1, 10);
        at(1001);
        check("a price", price() == Some(10));
        at(1200);
        check("it ran out", price() == None);
        feed(1, 10);
        at(1201);
        check("a price again", price() == Some(10));
    });
}
'''
