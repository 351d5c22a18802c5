source /verif/tools/env.sh; export CARGO_TARGET_DIR=/tmp/shimt RUSTFLAGS="--cap-lints allow"
cd /verif/build/mirror
m=""; a=""
for c in "$@"; do m="$m\"crates/$c\", "; done
printf '[workspace]\nresolver = "2"\nmembers = [%s]\n' "$m" > Cargo.toml
timeout 1700 cargo test --offline --no-fail-fast $(for c in "$@"; do echo -n " -p $c"; done) ${FEAT---features traits/runtime-benchmarks} --lib 2>&1 | tee /tmp/vt.log | grep -E "^(error|failures:|test result|thread '.*panicked)|FAILED" -A7 | head -${LINES_:-120}
