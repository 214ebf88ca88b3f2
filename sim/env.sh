export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="-C target-cpu=generic -C link-arg=-fuse-ld=lld -C link-arg=-Wl,--export-dynamic"
unset CARGO_TARGET_DIR
