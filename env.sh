export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTUP_AUTO_INSTALL=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg tracing_unstable --cfg vmc_hooks" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VMC_TARGET:-/verif/target}" TZ=UTC NO_COLOR=1
unset CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
export VMC_HOOKS_GRAFBASE_SDK=/verif/h/sdk/hooks.rs
