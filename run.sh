#!/bin/bash
# run.sh build | check <ID> [tier] | <other simulator command>
# Builds the simulator against /repo's present working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/sim/target"
export CARGO_NET_OFFLINE=true
export VERIF_DIR="$here"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# What is built is decided by the content of the sources, not by their times.
sum=$( (cd /repo && find Cargo.toml build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  (cd "$here/sim" && cargo clean --release --offline -p adextopa-core >/dev/null 2>&1)
fi
log="$CARGO_TARGET_DIR/build.log"
if ! (cd "$here/sim" && cargo build --release --offline >"$log" 2>&1); then
  tail -40 "$log"
  echo "the simulator does not build against /repo"
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/sim" "$@"
