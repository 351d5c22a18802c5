#!/bin/bash
# Builds the pallets of the current directory with the program beside this script, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=/tmp/verif-demo-@ID@
rm -rf /tmp/verif-demo-@ID@
mkdir -p $d && cd $d && tar xf "$here/bundle.tar.xz" || exit 3
for m in $(cd manifests && find . -name Cargo.toml); do
    c=$(dirname "$m")
    [ -d "$repo/$c" ] || continue
    mkdir -p "build/mirror/$c"
    (cd "$repo/$c" && tar cf - --exclude=./target --exclude=./rpc --exclude=./runtime-api --exclude=Cargo.lock .) | tar xf - -C "build/mirror/$c"
    cp "manifests/$m" "build/mirror/$m"
done
cat "$here/main.rs" >> harness/demo/src/@MOD@.rs
echo "mod @MOD@; fn main() { @MOD@::demo() }" >> harness/demo/src/main.rs
for c in @DROP@; do sed -i "/^$c = /d" harness/demo/Cargo.toml; done
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow
export CARGO_TARGET_DIR=$d/target RUSTC_WRAPPER= CARGO_INCREMENTAL=0
(cd harness/demo && cargo build --offline >$d/build.log 2>&1) || { grep -A12 '^error' build.log | head -60; cd /; rm -rf /tmp/verif-demo-@ID@; exit 4; }
timeout 120 $d/target/debug/apps
rc=$?
cd /
rm -rf /tmp/verif-demo-@ID@
exit $rc
