export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints=warn --cfg verif_hooks" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/build/target
