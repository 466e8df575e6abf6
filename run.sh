#!/bin/bash
# Builds the harness against /repo's working tree and runs one check: run.sh PROP (or: run.sh build)
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 VERIF_DIR="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# Cargo decides by modification times; a copied tree may keep old ones. Decide by content as well.
sum=$(cd /repo && find crates Cargo.toml -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 \
      | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

build() { # build DIR
  export CARGO_TARGET_DIR="$here/$1/target"
  mkdir -p "$CARGO_TARGET_DIR"
  local stamp="$CARGO_TARGET_DIR/repo.sha256" log="$CARGO_TARGET_DIR/build.log"
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 \( -name 'lightyear*' -o -name 'lyverif*' \) \
      -exec rm -r {} + 2>/dev/null
  fi
  # Written before the build: an interrupted build leaves fingerprints cargo itself knows are stale.
  echo "$sum" > "$stamp"
  if ! cargo build --offline --quiet --manifest-path "$here/$1/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    echo "$1: build failed" >&2
    exit 3
  fi
}

# The crates on top of replication build only in harness2 (see DESIGN.md, Layout).
case "${1:-}" in
  build) build harness; build harness2; exit 0 ;;
  C38|C39|C40|C4[2-9]|C5?) build harness2; exec "$here/harness2/target/debug/lyverif2" check "$1" ;;
  *) build harness; exec "$here/harness/target/debug/lyverif" check "$1" ;;
esac
