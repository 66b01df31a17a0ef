#!/bin/bash
# Driver of the monitors.
#   ./check.sh C07              run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
#   ./check.sh replay C07 FILE  evaluate one recorded case again
#   ./check.sh setup            build everything once (optional: every check builds what it needs)
# Everything is built from /repo's working tree into /verif/build.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
B=$V/build
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
STABLE=stable-x86_64-unknown-linux-gnu
export RUSTUP_TOOLCHAIN=$STABLE
TRIPLE=x86_64-unknown-linux-gnu
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS RUST_LOG
mkdir -p "$B"

die() { echo "check.sh: $*" >&2; exit 2; }

# a target directory whose content was built from other sources is not trusted to timestamps
fresh() { # DIR MANIFEST
  local h
  h=$({ cd "$REPO" && find Cargo.toml Cargo.lock src -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V" && find harness libwork -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
  if [ -d "$1" ] && [ "$(cat "$1/.sources" 2>/dev/null)" != "$h" ]; then
    cargo clean --offline --manifest-path "$2" --target-dir "$1" -p stringology ${3:-} >/dev/null 2>&1
  fi
  mkdir -p "$1" && echo "$h" > "$1/.sources"
}

logged() { # NAME CMD...
  local n=$1; shift
  if ! "$@" > "$B/$n.log" 2>&1; then
    echo "check.sh: building $n failed:" >&2
    grep -E '^(error|warning: unused|  *-->)' "$B/$n.log" | head -20 >&2
    tail -5 "$B/$n.log" | cut -c1-300 >&2
    return 1
  fi
}

build_vmon() {
  fresh "$B/harness" "$V/harness/Cargo.toml" "-p vmon"
  logged vmon cargo build --offline --release --manifest-path "$V/harness/Cargo.toml" --target-dir "$B/harness"
}
build_checked() {
  fresh "$B/checked" "$REPO/Cargo.toml"
  logged checked cargo build --offline --bins --manifest-path "$REPO/Cargo.toml" --target-dir "$B/checked" --config profile.dev.opt-level=1 --config 'profile.dev.debug="line-tables-only"'
}
build_release() {
  fresh "$B/release" "$REPO/Cargo.toml"
  logged release cargo build --offline --release --bins --manifest-path "$REPO/Cargo.toml" --target-dir "$B/release"
}
build_shim() {
  logged shim gcc -O2 -shared -fPIC -o "$B/shim.so.tmp.$$" "$V/harness/shim/shim.c" -ldl && mv -f "$B/shim.so.tmp.$$" "$B/shim.so"
}
build_asan() {
  fresh "$B/asan" "$REPO/Cargo.toml"
  RUSTUP_TOOLCHAIN=nightly CC=clang RUSTFLAGS="-Zsanitizer=address" \
    CFLAGS="-fsanitize=address,undefined -fsanitize-trap=undefined -fno-omit-frame-pointer -g -O1" \
    logged asan cargo build --offline --bins --manifest-path "$REPO/Cargo.toml" --target $TRIPLE --target-dir "$B/asan" --config profile.dev.opt-level=1 && build_lwasan
}

# the library workload under the sanitizers shares the dependencies of the tools
build_lwasan() {
  RUSTUP_TOOLCHAIN=nightly CC=clang RUSTFLAGS="-Zsanitizer=address" \
    CFLAGS="-fsanitize=address,undefined -fsanitize-trap=undefined -fno-omit-frame-pointer -g -O1" \
    logged lwasan cargo build --offline --manifest-path "$V/libwork/Cargo.toml" --target $TRIPLE --target-dir "$B/asan" --config profile.dev.opt-level=1
}
build_tsan() {
  fresh "$B/tsan" "$V/libwork/Cargo.toml" "-p libwork"
  RUSTUP_TOOLCHAIN=nightly CC=clang CFLAGS="-fsanitize=thread -g -O1" RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" \
    logged tsan cargo build --offline --manifest-path "$V/libwork/Cargo.toml" --target $TRIPLE --target-dir "$B/tsan" --config profile.dev.opt-level=1
}
build_miri() {
  fresh "$B/miri" "$V/libwork/Cargo.toml" "-p libwork"
  logged miri "$V/miri.sh" lib ops 1 0 1 || return 1
  [ "$1" = tools ] || return 0
  logged miri-bin "$V/miri.sh" bin mtf < /dev/null
}
build_mirilib() { build_miri lib; }
build_miritools() { build_miri tools; }

needs_of() {
  case $1 in
    C26) echo "vmon checked release shim asan miritools" ;;
    C27) echo "vmon checked release shim tsan mirilib" ;;
    *) echo "vmon checked release shim" ;;
  esac
}

build() {
  exec 9>"$B/.lock"
  flock 9
  local p="" t ok=0
  for t in "$@"; do build_$t 9>&- & p="$p $!"; done
  for t in $p; do wait "$t" || ok=1; done
  flock -u 9
  exec 9>&-
  [ $ok = 0 ] || die "nothing can be concluded without a build"
}

run_env() {
  SCR=$(mktemp -d /tmp/vmon.XXXXXXXX) || die "no scratch directory"
  chmod 755 "$SCR"
  trap 'cd /; rm -rf -- "$SCR"' EXIT
  trap 'exit 2' INT TERM
  export VMON_SCRATCH=$SCR VMON_VERIF=$V VMON_SHIM=$B/shim.so
  export VMON_BINS_CHECKED=$B/checked/debug VMON_BINS_RELEASE=$B/release/release
  export VMON_BINS_ASAN=$B/asan/$TRIPLE/debug VMON_LW_ASAN=$B/asan/$TRIPLE/debug/libwork VMON_LW_TSAN=$B/tsan/$TRIPLE/debug/libwork
  export VMON_MIRI=$V/miri.sh
  cd "$SCR" || die "no scratch directory"
}

case ${1:-} in
  setup)
    build vmon checked release shim asan tsan miritools
    ;;
  replay)
    [ $# = 3 ] || die "usage: check.sh replay ID FILE"
    F=$(realpath "$3")
    build $(needs_of "$2")
    run_env
    "$B/harness/release/vmon" eval "$2" "$F"
    exit $?
    ;;
  C[0-9][0-9])
    mkdir -p "$V/evidence"
    build $(needs_of "$1")
    run_env
    "$B/harness/release/vmon" run "$1"
    exit $?
    ;;
  *)
    die "usage: check.sh ID | replay ID FILE | setup"
    ;;
esac
