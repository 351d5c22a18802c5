//! Replays behaviours of specs/relay on the relay pallet.
mod chain;
mod payment;
mod rt;

fn main() {
    itf::drive(|k| match k {
        "payment" => Some(payment::trace),
        "chain" => Some(chain::trace),
        _ => None,
    })
}
