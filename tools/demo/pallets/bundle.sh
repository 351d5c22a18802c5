#!/bin/bash
# Packs shim, manifests and a runtime with the bridge into bundle.tar.xz (run by hand; the result is committed).
here=$(cd "$(dirname "$0")" && pwd); v=$(cd "$here/../../.." && pwd)
t=$(mktemp -d); mkdir -p $t/harness/demo/src
(cd $v && tar cf - --exclude=target shim manifests) | tar xf - -C $t
sed -e '/^itf = /d' -e 's/^opt-level = 1/opt-level = 0/' $v/harness/bridge/Cargo.toml > $t/harness/demo/Cargo.toml
cp $v/harness/bridge/Cargo.lock $t/harness/demo/
awk '/^pub fn fixed/{exit} !/^use itf/{print}' $v/harness/bridge/src/rt.rs > $t/harness/demo/src/rt.rs
cp $here/kit.rs $t/harness/demo/src/kit.rs
tar cJf $here/bundle.tar.xz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C $t shim manifests harness
rm -rf "$t"
