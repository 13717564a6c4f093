# sourced by the demos: a scratch directory, the shim, the fake browser
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
REPO=$PWD
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export RUST_LOG=${RUST_LOG:-error} CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
cargo build -q --offline -p smd --bins 2>/dev/null || { echo "does not build"; exit 2; }
SMD=$REPO/target/debug/smd
export HOME=$T/home XDG_CONFIG_HOME=$T/home/.config
mkdir -p "$T/home" "$T/w"
[ -e "$HERE/shim.c" ] && gcc -shared -fPIC -w -o "$T/shim.so" "$HERE/shim.c" -ldl
[ -e "$HERE/fakechrome.py" ] && { cp "$HERE/fakechrome.py" "$T/chrome"; chmod +x "$T/chrome"; export CHROME=$T/chrome; }
cd "$T/w"
die() { echo "BROKEN: $*"; exit 1; }
