//! Replays behaviours of specs/primitives on the real crate.
//! usage: pr <kind> <trace.itf.json>...
mod amounts;
mod currency;
use itf::{guarded, quiet_panics, tool_error, Report, V};

pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, spec: T, code: T) -> Result<(), String> {
    if spec == code {
        Ok(())
    } else {
        Err(format!("{}: the specification says {:?}, the code gives {:?}", what, spec, code))
    }
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        tool_error("usage: pr <kind> <trace>...");
    }
    let step: fn(&mut Report, &V) -> Result<u64, String> = match args[1].as_str() {
        "currency" => currency::step,
        "amounts" => amounts::step,
        k => tool_error(&format!("unknown kind {}", k)),
    };
    let mut rep = Report::default();
    'all: for t in itf::traces(&args[2..]) {
        let path = &t.path;
        rep.traces += 1;
        for (i, st) in t.states.iter().enumerate() {
            rep.steps += 1;
            let op = st.get("op");
            match guarded(|| step(&mut rep, op)) {
                Ok(Ok(n)) => {
                    rep.comparisons += n;
                    rep.sample(format!("{:?}", op));
                }
                Ok(Err(m)) => {
                    rep.violate(path, i, format!("{}; in {:?}", m, op));
                    break 'all;
                }
                Err(p) => {
                    rep.violate(path, i, format!("panic: {}; in {:?}", p, op));
                    break 'all;
                }
            }
        }
    }
    rep.finish()
}
