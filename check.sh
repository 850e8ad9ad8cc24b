#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   run one check against /repo's working tree
#        check.sh build                       build only
# Exit status: 0 held, 1 violation, anything else: no answer.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
repo=${VERIF_REPO:-/repo}
export CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true VERIF_ROOT=$here
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$CARGO_TARGET_DIR" evidence replays

build() {
  # Content decides whether to rebuild, not modification times
  local now stamp=$CARGO_TARGET_DIR/sources.sha256
  now=$( (find "$repo/src" "$repo/rules" "$repo/Cargo.toml" "$here/harness/src" "$here/harness/data" \
            "$here/harness/Cargo.toml" "$here/harness/Cargo.lock" -type f -print0 2>/dev/null |
          sort -z | xargs -0 sha256sum; rustc --version) | sha256sum)
  if [ ! -x "$CARGO_TARGET_DIR/release/vcheck-props" ] || [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    (cd harness &&
      cargo clean -q --offline --release -p rphonetic -p vharness >/dev/null 2>&1
      cargo build -q --release --locked --offline) >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
      cat "$CARGO_TARGET_DIR/build.log" >&2
      echo "BUILD-FAILED" >&2
      return 1
    }
    echo "$now" >"$stamp"
  fi
}

exec 9>"$CARGO_TARGET_DIR/build.lock"
flock 9
build || exit 2
flock -u 9
exec 9>&-
[ "${1:-}" = build ] && exit 0
ulimit -v $((20 * 1024 * 1024)) 2>/dev/null
exec "$CARGO_TARGET_DIR/release/vcheck-props" run "$1" --tier "${2:-${VERIF_TIER:-quick}}"
