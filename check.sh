#!/bin/bash
# check.sh <property> [--replay FILE] [--leg NAME]: builds the harness against /repo's working
# tree and runs one property's check. Exit 0 held, 1 violated (VIOLATION line), anything else: error.
ROOT=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_LOG
export OTV_ROOT=$ROOT
export CARGO_TARGET_DIR=$ROOT/target
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays"
(
  flock 9
  # content stamp: cargo looks at mtimes only
  NEW=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  OLD=$(cat "$ROOT/target/repo.stamp" 2>/dev/null)
  if [ -n "$OLD" ] && [ "$NEW" != "$OLD" ]; then
    cargo clean --offline --manifest-path "$ROOT/harness/Cargo.toml" -p over-there -p ot-verif >/dev/null 2>&1
    [ -d "$ROOT/target/cli" ] && cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$ROOT/target/cli" -p over-there >/dev/null 2>&1
  fi
  rm -f "$ROOT/target/repo.stamp"
  cargo build --offline --locked --manifest-path "$ROOT/harness/Cargo.toml" >"$ROOT/target/build.log" 2>&1 || exit 4
  # the command line tool, built as the README says (and with the second text format)
  if [ "$1" = build ] || [ "$1" = C11 ] || [ "$1" = C24 ] || [ "$1" = C25 ]; then
    CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$ROOT/target/cli" \
      --features "cli format-sexpression" --bin over-there >>"$ROOT/target/build.log" 2>&1 || exit 4
  fi
  echo "$NEW" >"$ROOT/target/repo.stamp"
) 9>"$ROOT/target/lock"
if [ $? -ne 0 ]; then
  echo "CHECK-ERROR build failed"; grep -E '^error' -A 12 "$ROOT/target/build.log" | head -60
  exit 4
fi
[ "$1" = build ] && exit 0
exec "$ROOT/target/debug/otv" "$@"
