export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export VERIF_DIR=/verif CARGO_TARGET_DIR=/verif/.build/target
