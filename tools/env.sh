# Build environment of the checks (sourced).
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL RAYON_NUM_THREADS
VERIF="${VERIF_DIR:-/verif}"
export CARGO_TARGET_DIR="${FSMC_TARGET:-$VERIF/target}"
