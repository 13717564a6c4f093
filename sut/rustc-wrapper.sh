#!/bin/sh
# cargo calls: rustc-wrapper.sh rustc ARGS. Adds basic-block callbacks to the
# repository's own crates only, and a second one to the renderer's.
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  prev=$a
done
case "$name:${CARGO_MANIFEST_DIR:-}/" in
  build_script_*) ;;
  gfm:/repo/*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-pc ;;
  *:/repo/*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
