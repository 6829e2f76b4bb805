# toolchain and build directory shared by every check
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
