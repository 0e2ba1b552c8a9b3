#!/bin/bash
# Usage: tools/check.sh <property>: rebuilds from /repo's working tree and runs the check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed.
here="$(cd "$(dirname "$0")/.." && pwd)"
bash "$here/tools/build.sh" >&2 || exit 2
export SIM_ROOT="$here"
exec "$here/.build/debug/sim" check "$1"
