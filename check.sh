#!/bin/bash
# bash /verif/check.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--stage S --case I] | --setup
# Rebuilds the harness and the code under test from /repo's working tree, then runs the monitors.
cd "$(dirname "$0")" || exit 3
command -v cargo >/dev/null || export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
V=$PWD
REPO=/repo
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
H=$V/harness
mkdir -p "$H/target" "$V/evidence"
exec 9>"$H/target/.check.lock"
flock 9
# never trust a stale build: the sources' contents decide, not their timestamps
sum=$(cd $REPO && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$H/target/.src.sum" 2>/dev/null)" != "$sum" ]; then
  [ -d "$H/target/release" ] && cargo clean --release --offline --manifest-path "$H/Cargo.toml" -p nlsn-delaunay >/dev/null 2>&1
  rm -f "$H/target/.src.sum"
fi
if ! cargo build --release --offline --locked --manifest-path "$H/Cargo.toml" -p vmon -p nlsn-delaunay >"$H/target/build.log" 2>&1; then
  tail -60 "$H/target/build.log" >&2
  echo "check: the build failed" >&2
  exit 3
fi
echo "$sum" >"$H/target/.src.sum"
if [ ! -e "$H/target/shim.so" ] || [ "$H/shim.c" -nt "$H/target/shim.so" ]; then
  gcc -O2 -shared -fPIC -o "$H/target/shim.so" "$H/shim.c" || exit 3
fi
flock -u 9
[ "$1" = "--setup" ] && exit 0
exec 9>&-
exec "$H/target/release/vmon" "$@" --out "$V/evidence" --known "$V/KNOWN_FINDINGS.txt" \
  --bin "$H/target/release/nlsn-delaunay" --shim "$H/target/shim.so"
