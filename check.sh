#!/bin/bash
# usage: check.sh build | check.sh <property> <quick|thorough> | check.sh replay <file>
# Builds the system under test from /repo's working tree, the simulator, and runs
# one property's campaign. Exit: 0 held, 1 violated, anything else: no answer.
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
mkdir -p "$B/images"

build() {
  exec 9>"$B/lock"
  flock 9
  (cd "$V/sim" && RUSTFLAGS="-Zexport-executable-symbols" CARGO_TARGET_DIR=$B/sim \
    cargo build --release >"$B/sim.log" 2>&1) &
  local sim=$!
  (cd "$V/sut" && RUSTFLAGS="-Zthreads=8 --cfg rustix_use_libc" CARGO_TARGET_DIR=$B/sut \
    RUSTC_WRAPPER=$V/sut/rustc-wrapper.sh cargo build >"$B/sut.log" 2>&1)
  local r=$?
  wait $sim || { tail -40 "$B/sim.log" >&2; echo "cannot build the simulator" >&2; exit 3; }
  [ $r = 0 ] || { grep -A12 '^error' "$B/sut.log" | head -60 >&2; echo "cannot build /repo" >&2; exit 3; }
  for i in 0 1 2 3 4 5 6 7 8; do
    cmp -s "$B/sut/debug/libsut.so" "$B/images/sut$i.so" || cp "$B/sut/debug/libsut.so" "$B/images/sut$i.so"
  done
  # what the image needs and the simulator does not provide must be pure
  comm -23 <(nm -D --undefined-only "$B/images/sut0.so" | awk '{print $2}' | sed 's/@.*//' | sort -u) \
    <(nm -D --defined-only "$B/sim/release/sim" | awk '{print $3}' | sed 's/@.*//' | sort -u) |
    grep -vxFf "$V/tools/pure-symbols.txt" | sed 's/^/warning: call outside the simulation: /' >&2
  flock -u 9
}

case "${1:-}" in
build) build ;;
replay)
  if grep -q '"property": "C17"' "$2"; then exec node --no-warnings --experimental-vm-modules "$V/npmsim/sim.mjs" replay --file "$2" --log "${LOG:-0}"; fi
  build; exec "$B/sim/release/sim" replay --file "$2" --images "$B/images" --log "${LOG:-0}" ;;
C17)
  cd "$V" || exit 3
  exec node --no-warnings --experimental-vm-modules "$V/npmsim/sim.mjs" check --tier "${2:-${VERIF_TIER:-quick}}" \
    --seed "${VERIF_SEED:-1}" --evidence "$V/evidence" --replays "$V/replays" ;;
C[0-9][0-9])
  build
  cd "$V" || exit 3
  exec "$B/sim/release/sim" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" \
    --images "$B/images" --evidence "$V/evidence" --replays "$V/replays" --known "$V/known-findings.txt" ;;
*) sed -n 2,4p "$0"; exit 2 ;;
esac
