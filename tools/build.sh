#!/bin/bash
# Builds the simulator against /repo's current working tree. Idempotent, offline.
# Dependencies already built for /repo's own tests (above all the bundled Z3) are reused:
# small ones are copied, big ones linked. Without them cargo builds everything (~6 min).
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
BINS=${1:-"sim"}
B=$HERE/.build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
. /opt/vp/env.sh
cd "$HERE/sim" || exit 2
SRC=/repo/target/debug
if [ ! -e "$B/.deps-ready" ]; then
  if [ -d $SRC/.fingerprint ]; then
    mkdir -p "$B/debug/deps" "$B/debug/build" "$B/debug/.fingerprint"
    for f in $SRC/.fingerprint/*; do
      case $(basename "$f") in ruler-*) ;; *) [ -e "$B/debug/.fingerprint/$(basename "$f")" ] || cp -a "$f" "$B/debug/.fingerprint/" ;; esac
    done
    for d in $SRC/build/*; do
      n=$(basename "$d")
      [ -e "$B/debug/build/$n" ] && continue
      mkdir -p "$B/debug/build/$n"
      tar -C "$d" --exclude=./out/build --exclude=./out/lib -cf - . | tar -C "$B/debug/build/$n" -xpf -
    done
    for f in $SRC/deps/*.rlib $SRC/deps/*.rmeta $SRC/deps/*.so $SRC/deps/*.d; do
      n=$(basename "$f")
      case $n in libruler-*|ruler-*) continue ;; esac
      [ -e "$B/debug/deps/$n" ] && continue
      if [ "$(stat -c %s "$f")" -gt 20000000 ]; then ln -s "$f" "$B/debug/deps/$n"; else cp -a "$f" "$B/debug/deps/"; fi
    done
  fi
  touch "$B/.deps-ready"
fi
# Never trust time stamps of the code under test: rebuild it whenever its contents differ.
H=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
if [ "$(cat "$B/.repo-hash" 2>/dev/null)" != "$H" ]; then
  rm -rf "$B"/debug/.fingerprint/ruler-* "$B"/debug/.fingerprint/rulersim-*
  rm -f "$B/.repo-hash"
fi
ARGS=""
for b in $BINS; do ARGS="$ARGS --bin $b"; done
export CARGO_TARGET_DIR=$B CARGO_INCREMENTAL=0
cargo build --offline $ARGS >"$B/build.log" 2>&1
RC=$?
if [ $RC -ne 0 ]; then
  tail -40 "$B/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$H" >"$B/.repo-hash"
exit 0
