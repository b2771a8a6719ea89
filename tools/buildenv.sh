export RUSTUP_TOOLCHAIN=nightly-2020-07-01
export CARGO_HOME=/verif/.build/cargo-home CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset LD_LIBRARY_PATH RUSTFLAGS CARGO_TARGET_DIR
