#!/bin/bash
# mut.sh PATCH PROP...: run checks against a scratch copy of /repo with PATCH applied (dev tool; no check uses it)
set -u
patch=$(realpath "$1"); shift
B=${MUT_BASE:-/tmp/mut}; mkdir -p "$B"
rsync -a --delete --exclude target --exclude .git /repo/ "$B/repo/"
( cd "$B/repo" && patch -p1 -s --no-backup-if-mismatch < "$patch" ) || { echo "patch failed"; exit 2; }
export VERIF_REPO="$B/repo" VERIF_WORK="$B/work" VERIF_EVIDENCE="$B/evidence"
mkdir -p "$B/evidence"
for p in "$@"; do
  python3 /verif/sa/check.py "$p" --tier quick > "$B/out.$p" 2>&1; rc=$?
  echo "$p rc=$rc $(grep -c VIOLATION "$B/out.$p") $(grep -v '^VIOLATION' "$B/out.$p" | head -${MUT_LINES:-3} | cut -c1-250)"
done
