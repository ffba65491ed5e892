# Build environment shared by every check (sourced, not run).
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cfg verif_hooks"
