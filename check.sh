#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the simulator against /repo's working tree and runs one property.
# check.sh build: only builds.
cd "$(dirname "$0")/sim" || exit 2
export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$PWD/target"
build() {
  cargo build --offline --profile shipped >target/shipped.log 2>&1 &
  cargo build --offline --profile release >target/release.log 2>&1
  local a=$?
  wait $!
  local b=$?
  [ $a = 0 ] && [ $b = 0 ] && return 0
  tail -n 40 target/*.log >&2
  echo "harness error: the simulator does not build against /repo" >&2
  return 2
}
mkdir -p target
build || exit 2
[ "$1" = build ] && exit 0
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec target/release/sim check "$1"
