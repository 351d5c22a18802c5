#!/bin/bash
# Builds the bitcoin crate of the current directory with the program beside this script, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/verif-demo-@ID@
mkdir -p /tmp/verif-demo-@ID@/src /tmp/verif-demo-@ID@/bitcoin || exit 3
cd /tmp/verif-demo-@ID@ || exit 3
cp -r "$OLDPWD/crates/bitcoin/src" bitcoin/src
cp "$here/bitcoin.toml" bitcoin/Cargo.toml
cp -r "$here/secp" secp
cp "$here/Cargo.toml.in" Cargo.toml
cp "$here/Cargo.lock.in" Cargo.lock
cp "$here/main.rs" src/main.rs
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=warn
export CARGO_TARGET_DIR=/tmp/verif-demo-@ID@/target RUSTC_WRAPPER=
cargo build --offline >build.log 2>&1 || { tail -30 build.log; cd /; rm -rf /tmp/verif-demo-@ID@; exit 4; }
timeout 120 /tmp/verif-demo-@ID@/target/debug/demo
rc=$?
cd /
rm -rf /tmp/verif-demo-@ID@
exit $rc
