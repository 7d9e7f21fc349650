# Sourced by every command of the framework.
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=1
export RUSTUP_TOOLCHAIN="${VH_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset CARGO_TARGET_DIR RUSTFLAGS
