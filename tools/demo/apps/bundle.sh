#!/bin/bash
# Packs shim, manifests and the runtimes of harness/apps into bundle.tar.xz (run by hand; the result is committed).
here=$(cd "$(dirname "$0")" && pwd); v=$(cd "$here/../../.." && pwd)
t=$(mktemp -d); mkdir -p $t/harness/demo
(cd $v && tar cf - --exclude=target shim manifests harness/itf) | tar xf - -C $t
cp -r $v/harness/apps/src $t/harness/demo/src
sed -e 's/^opt-level = 1/opt-level = 0/' $v/harness/apps/Cargo.toml > $t/harness/demo/Cargo.toml
sed -e '/^mod /d' -e '/^fn main() {/,/^}/d' $v/harness/apps/src/main.rs > $t/harness/demo/src/main.rs
cp $v/harness/apps/Cargo.lock $t/harness/demo/
tar cJf $here/bundle.tar.xz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C $t shim manifests harness
rm -rf "$t"
