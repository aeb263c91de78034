#!/bin/bash
# setup: prove that the simulator builds here (every check builds its own copy again).
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
DIR="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap '[ -n "$DIR" ] && rm -rf "$DIR"' EXIT
bash "$HERE/bin/build.sh" "$DIR" || exit 3
"$DIR/sim" props
