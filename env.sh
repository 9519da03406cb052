# toolchain settings of the checks (not /opt/vp's: those turn on incremental builds)
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
