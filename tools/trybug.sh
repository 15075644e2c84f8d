#!/bin/bash
# usage: trybug.sh PATCH PROP...   runs quick checks of the given properties against a scratch copy of /repo with PATCH applied
set -u
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/trybug.XXXXXX)
git -C /repo worktree prune
mkdir -p "$d/repo"
git -C /repo archive HEAD | tar -x -C "$d/repo"
(cd "$d/repo" && git init -q . && git apply "$patch") || { echo "patch does not apply"; rm -rf "$d"; exit 3; }
for p in "$@"; do
  VERIF_REPO="$d/repo" VERIF_BUILD="$d/build" VERIF_EVIDENCE="$d" python3 /verif/run.py check "$p" --tier "${TIER:-quick}" > "$d/out" 2>&1
  rc=$?
  echo "== $p rc=$rc"
  [ "${V:-1}" = 1 ] && tail -12 "$d/out" | cut -c1-600
done
rm -rf "$d"
