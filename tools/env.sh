export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG CARGO_ENCODED_RUSTFLAGS
export VERIF_DIR="$here"
