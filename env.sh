export HOME=/root RUSTUP_TOOLCHAIN=1.95 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg bladeink_verif"
