#!/bin/bash
# Builds the simulator against /repo's working tree: with byte compression (sim/target) and without
# (sim/target-nc). Exit 2 if it does not build.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
one() { # target dir, extra flags
  local dir="$1"; shift
  export CARGO_TARGET_DIR="$dir"
  # file times say nothing about what is in /repo now
  cargo clean --release --offline -p derivre -p dsim >/dev/null 2>&1
  RUSTFLAGS="--cfg derivre_sim" cargo build --release --offline "$@" >"$dir.log" 2>&1 && return 0
  # the hooks may not fit a changed tree: do without them
  echo "build with hooks failed, building without" >&2
  RUSTFLAGS="" cargo build --release --offline "$@" >>"$dir.log" 2>&1 && return 0
  cat "$dir.log" >&2
  return 2
}
one "$here/sim/target-nc" --no-default-features & nc=$!
one "$here/sim/target"; a=$?
wait $nc; b=$?
[ $a = 0 ] && [ $b = 0 ] || exit 2
