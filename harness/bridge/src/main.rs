//! Replays behaviours of specs/bridge on the bridge's pallets.
mod ops;
mod rt;
mod see;

fn main() {
    itf::drive(|k| match k {
        "bridge" => Some(ops::trace),
        _ => None,
    })
}
