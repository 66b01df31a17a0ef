#!/bin/bash
# miri.sh lib ARGS... | miri.sh bin TOOL ARGS...   interprets the library workload or a tool
# of /repo's working tree; MIRI_SEED picks the scheduling seed
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/bin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=nightly
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=${MIRI_SEED:-0} -Zmiri-preemption-rate=${MIRI_PREEMPT:-0.01}"
T=$V/build/miri
what=$1; shift
case $what in
  lib) exec cargo miri run -q --offline --manifest-path "$V/libwork/Cargo.toml" --features pure --target-dir "$T" -- "$@" ;;
  bin) bin=$1; shift; exec cargo miri run -q --offline --manifest-path /repo/Cargo.toml --target-dir "$T" --bin "$bin" -- "$@" ;;
  *) exit 2 ;;
esac
