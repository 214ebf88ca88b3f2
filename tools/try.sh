#!/bin/bash
# try.sh <patch|commit-to-revert> <ID>... : run checks against a changed /repo, then restore it.
p=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
if [ -f "$p" ]; then git apply "$p" || exit 2; else git diff "$p" "$p~1" | git apply || exit 2; fi
for id in "$@"; do (cd /verif && ./check.sh $id ${TIER:-quick} 2>&1 | tail -${LINES_:-3} | cut -c1-400); done
git -C /repo checkout -- .
