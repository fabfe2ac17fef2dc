#!/bin/bash
# check.sh PROPERTY [quick|thorough]   -- rebuild the harness from /repo's working tree and decide one property
# check.sh --build                     -- only build
# check.sh --replay PROPERTY FILE      -- re-run one saved case
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
build() {
  cd "$here/harness" || exit 2
  # Rebuild on content, not on time stamps: forget the crates of /repo whenever their sources differ from the last build's.
  local h
  h=$(cd /repo && find Cargo.toml crates -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.tcss' -o -name '*.css' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/.srchash" 2>/dev/null)" != "$h" ]; then
    cargo clean --offline -q -p rich -p tcss -p textual -p textual-macros -p vp-harness >/dev/null 2>&1
  fi
  cargo build --offline -q >"$CARGO_TARGET_DIR/build.log" 2>&1 || { grep -E '^error' -A8 "$CARGO_TARGET_DIR/build.log" | head -60; echo "ERROR: build failed"; exit 2; }
  echo "$h" >"$CARGO_TARGET_DIR/.srchash"
}
( flock 9; build ) 9>"$CARGO_TARGET_DIR/.lock" || exit 2
cd "$here" || exit 2
[ "${1:-}" = "--build" ] && exit 0
ulimit -v 24000000 # code that allocates without end is stopped, not the sandbox
export VERIF_SEED="${VERIF_SEED:-1}"
if [ "${1:-}" = "--replay" ]; then exec "$CARGO_TARGET_DIR/debug/vp" replay "$2" "$3"; fi
exec "$CARGO_TARGET_DIR/debug/vp" run "$1" "${2:-${VERIF_TIER:-quick}}" "$here"
