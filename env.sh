# Sourced by the scripts of the verification machinery.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg fizyr_rpc_verif -Awarnings"
export VERIF_DIR="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
