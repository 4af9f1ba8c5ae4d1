# Sourced by every script here: the offline toolchain and our own (git-ignored) target directory.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export CARGO_TARGET_DIR=$VERIF_DIR/target
