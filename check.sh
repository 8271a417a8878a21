#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working
# tree and runs the check of one property. Exit 0: held; 1: VIOLATION; 2: trouble.
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
mkdir -p .build
BIN=$(mktemp "$V/.build/sim.XXXXXX") || exit 2
trap 'rm -f "$BIN"' EXIT
if ! ./build.sh "$BIN" >&2; then
  echo "check.sh: the simulator does not build against the current tree" >&2
  exit 2
fi
"$BIN" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
