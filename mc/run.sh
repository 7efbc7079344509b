#!/bin/bash
# Build the checker against /repo's current working tree and run it.
#   run.sh check <property> | replay <file> | one <prop> <scenario> <json> | build
set -u
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export HOME=/root
export RUSTUP_TOOLCHAIN=1.85.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE
here="$(cd "$(dirname "$0")" && pwd)"
export MC_BASE="$(dirname "$here")"
cd "$here" || exit 3
log="$here/target/build.log"
mkdir -p "$here/target"
if ! cargo build --offline --locked >"$log" 2>&1; then
  cat "$log" >&2
  echo "build of the checker against /repo failed" >&2
  exit 3
fi
[ "${1:-}" = build ] && exit 0
exec "$here/target/debug/shpool-mc" "$@"
