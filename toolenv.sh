export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_INCREMENTAL RUSTC_WRAPPER
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} RSTSR_DEV=1 LIBRARY_PATH=/usr/lib/x86_64-linux-gnu
# file times differ between sandbox copies: decide by content what must be rebuilt
export CARGO_UNSTABLE_CHECKSUM_FRESHNESS=true
