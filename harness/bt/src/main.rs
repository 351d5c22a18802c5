//! Replays behaviours of the specifications in /verif/specs/bitcoin on the real crate.
//! usage: bt <kind> <trace.itf.json>...
mod header;
mod merkle;
mod okd;
mod reader;
mod script;
mod wire;

use itf::{quiet_panics, tool_error, Report, V};

pub fn dsha(b: &[u8]) -> [u8; 32] {
    sp_core_hashing::sha2_256(&sp_core_hashing::sha2_256(b))
}

pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, spec: T, code: T) -> Result<(), String> {
    if spec == code {
        Ok(())
    } else {
        Err(format!("{}: the specification says {:?}, the code gives {:?}", what, spec, code))
    }
}

/// A byte list shortened for messages.
pub fn hexs(b: &[u8]) -> String {
    let s: String = b.iter().take(400).map(|x| format!("{:02x}", x)).collect();
    format!("{} ({} bytes)", s, b.len())
}

pub fn bytes_diff(what: &str, spec: &[u8], code: &[u8]) -> Result<(), String> {
    if spec == code {
        return Ok(());
    }
    let at = spec.iter().zip(code).position(|(a, b)| a != b).unwrap_or(spec.len().min(code.len()));
    let cut = |b: &[u8]| hexs(&b[at.saturating_sub(8)..(at + 24).min(b.len())]);
    Err(format!(
        "{}: {} bytes specified, {} produced; first difference at {}: specified ..{}, produced ..{}",
        what, spec.len(), code.len(), at, cut(spec), cut(code)
    ))
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        tool_error("usage: bt <kind> <trace>...");
    }
    let step: fn(&mut Report, &V) -> Result<u64, String> = match args[1].as_str() {
        "wire" => wire::step,
        "compat" => wire::compat,
        "reader" => reader::step,
        "difficulty" => header::difficulty,
        "header" => header::step,
        "script" => script::step,
        "merkle" => merkle::step,
        "okd" => okd::step,
        k => tool_error(&format!("unknown kind {}", k)),
    };
    let mut rep = Report::default();
    'all: for t in itf::traces(&args[2..]) {
        let path = &t.path;
        rep.traces += 1;
        for (i, st) in t.states.iter().enumerate() {
            rep.steps += 1;
            match itf::guarded(|| step(&mut rep, st)) {
                Ok(Ok(n)) => rep.comparisons += n,
                Ok(Err(m)) => {
                    rep.violate(path, i, m);
                    break 'all;
                }
                Err(p) => {
                    rep.violate(path, i, format!("panic outside a guarded call: {}", p));
                    break 'all;
                }
            }
        }
    }
    rep.finish()
}
