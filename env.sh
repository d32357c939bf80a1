export PATH=/root/.cargo/bin:$PATH
export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUSTC_BOOTSTRAP=1
export CARGO_TERM_COLOR=never
