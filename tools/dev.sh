#!/bin/sh
# Builds the system under test from /repo, the simulator, and the image copies.
set -e
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cd /verif/sut
RUSTFLAGS="-Zthreads=8 --cfg rustix_use_libc" CARGO_TARGET_DIR=/verif/build/sut RUSTC_WRAPPER=/verif/sut/rustc-wrapper.sh cargo build 2>&1 | grep -E "^error" -A8 | head -60 || true
cd /verif/sim
RUSTFLAGS="-Zexport-executable-symbols" CARGO_TARGET_DIR=/verif/build/sim cargo build --release 2>&1 | grep -E "^error" -A8 | head -60 || true
mkdir -p /verif/build/images
for i in 0 1 2 3 4 5 6 7 8; do cp /verif/build/sut/debug/libsut.so /verif/build/images/sut$i.so; done
