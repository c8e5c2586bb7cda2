#!/bin/bash
# check.sh <property|replay> [quick|thorough|file]: builds the checker against /repo's working tree and runs it.
# The target directory is /repo/target (ignored by git there): the third-party crates the repository's own
# build left in it are reused; without them cargo simply builds them.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root CARGO_HOME=/root/.cargo
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${MC_TARGET:-/repo/target}
unset RUSTFLAGS RUST_LOG
export MC_VERIF=$here
[ "$1" = --build-only ] && only=1
log=$(mktemp)
if ! cargo build --offline --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "check.sh: build failed" >&2
  exit 2
fi
rm -f "$log"
[ -n "$only" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/mc" "$@"
