#!/bin/bash
# check.sh ID: build the simulator from /repo's working tree and run the check of one property.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
DIR="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap '[ -n "$DIR" ] && rm -rf "$DIR"' EXIT
bash "$HERE/bin/build.sh" "$DIR" || exit 3
export TMPDIR="$DIR"
"$DIR/sim" check -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$HERE" "${@:2}"
