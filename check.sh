#!/bin/bash
# check.sh <property> [extra arguments of the harness]
# Rebuilds the harness and the command line tool (with the code under test, from /repo's working
# tree) and decides one property.
# Exit: 0 held, 1 violation (VIOLATION line printed), anything else: no answer.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export VERIF_DIR=$VERIF CARGO_NET_OFFLINE=true
LOG=$(mktemp)
NOW=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
# build <target dir> <cargo arguments...>
build() {
  local dir=$1; shift
  # cargo compares modification times; compare contents as well, so that no change can go unseen
  if [ "$NOW" != "$(cat "$dir/repo.stamp" 2>/dev/null)" ]; then
    rm -rf "$dir"/release/.fingerprint/nlsn-delaunay-*
  fi
  if ! cargo build --release --offline --target-dir "$dir" "$@" >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2; rm -f "$LOG"
    echo "INCONCLUSIVE: $* does not build" >&2
    exit 2
  fi
  echo "$NOW" >"$dir/repo.stamp"
}
FEATURES=()
[ "$1" = C31 ] && FEATURES=(--features show)
build "$VERIF/harness/target" --manifest-path "$VERIF/harness/Cargo.toml" "${FEATURES[@]}"
case $1 in
C23 | C24 | C25 | C26)
  build "$VERIF/harness/target-cli" --manifest-path /repo/Cargo.toml --bin nlsn-delaunay
  gcc -O1 -shared -fPIC -o "$VERIF/harness/target/shim.so" "$VERIF/harness/shim.c" || { echo "INCONCLUSIVE: shim.c does not build" >&2; exit 2; }
  ;;
esac
rm -f "$LOG"
exec "$VERIF/harness/target/release/vharness" check "$@"
