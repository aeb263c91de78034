#!/bin/bash
# build.sh DIR: instrument /repo's working tree into DIR and build the simulator DIR/sim against the copy.
# Nothing is written outside DIR (and the Go build cache).
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
DIR="$1"
REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
mkdir -p "$DIR" || exit 3
( cd "$HERE/cmd/instrument" && go build -trimpath -o "$DIR/instrument" . ) || { echo "build: the instrumenter does not build" >&2; exit 3; }
for level in 0 1 2 3 4; do
  [ -d "$DIR/lib" ] && find "$DIR/lib" -mindepth 1 -delete
  mkdir -p "$DIR/lib"
  "$DIR/instrument" -src "$REPO" -dst "$DIR/lib" -rt "$HERE/simrt" -level $level 2>"$DIR/instrument.$level" || { cat "$DIR/instrument.$level" >&2; continue; }
  if ( cd "$HERE/sim" && sed "s#=> /nonexistent#=> $DIR/lib#" go.mod >"$DIR/sim.mod" && go build -trimpath -modfile="$DIR/sim.mod" -o "$DIR/sim" . ) 2>"$DIR/build.$level"; then
    exit 0
  fi
  echo "build: instrumentation level $level does not build, falling back" >&2
  head -20 "$DIR/build.$level" >&2
done
exit 3
