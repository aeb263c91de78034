#!/bin/bash
# replay.sh FILE [-trace]: re-execute a replay file against /repo's working tree. Exit 1 if the violation shows again.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
DIR="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap '[ -n "$DIR" ] && rm -rf "$DIR"' EXIT
bash "$HERE/bin/build.sh" "$DIR" || exit 3
"$DIR/sim" replay -file "$1" "${@:2}"
