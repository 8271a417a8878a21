#!/bin/bash
# try.sh PATCH PROP...: runs quick checks against a scratch copy of /repo with the patch applied ("-R COMMIT" reverts a commit).
V="$(cd "$(dirname "$0")/.." && pwd)"
D=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
if [ "$1" = -R ]; then git -C "$D/repo" revert --no-edit "$2" >/dev/null 2>&1 || { git -C "$D/repo" diff --name-only --diff-filter=U; echo "cannot revert $2"; exit 3; }; shift 2
else git -C "$D/repo" apply "$(realpath "$1")" || exit 3; shift; fi
rc=0
for p in "$@"; do VERIF_REPO=$D/repo "$V/check.sh" $p quick > $D/out 2>&1; r=$?; echo "$p rc=$r $(grep -m1 -v '^ *#' $D/out | cut -c1-220)"; grep -E "VIOLATION|trouble" $D/out | cut -c1-200; done
