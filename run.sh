#!/bin/bash
# Builds the harness against /repo's current tree and runs one check.
#   run.sh setup | run.sh ID | run.sh replay FILE
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export PATH="$PATH:/root/.cargo/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
LOG="$(mktemp)"
trap 'rm -f "$LOG"' EXIT
build() {
  ( cd "$ROOT/harness" && RUSTFLAGS="--cfg jsparse_verif -Awarnings" cargo build --offline --release ) >"$LOG" 2>&1 && return 0
  grep -E "^error" -A 12 "$LOG" | head -60
  tail -5 "$LOG"
  echo "the harness does not build against the current tree"
  return 1
}
build_cli() {
  # without the hooks: the program as users get it
  ( cd /repo && RUSTFLAGS="-Awarnings" cargo build --offline --bin jsparse --target-dir "$ROOT/harness/target/cli" ) >"$LOG" 2>&1 && return 0
  tail -40 "$LOG"
  echo "the command-line program does not build"
  return 1
}
BIN="$ROOT/harness/target/release/harness"
export JSPARSE_BIN="$ROOT/harness/target/cli/debug/jsparse"
case "${1:-}" in
  setup) build && build_cli; exit $? ;;
  replay) build || exit 2; build_cli || exit 2; exec "$BIN" replay "$2" ;;
  C23) build || exit 2; build_cli || exit 2 ;;
  *) build || exit 2 ;;
esac
"$BIN" run "$1"
