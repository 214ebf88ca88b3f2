#!/bin/bash
# seed.sh <seeded-id> [PROP...]: confirm a planted bug (tests pass, demo fails with it and passes without) and run checks on it.
d=/verif/seeded/$1; id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git apply $d/patch.diff || exit 2
[ -n "$NOTEST" ] || echo "$id tests: $(bash /verif/tools/base.sh)"
bash $d/demo.sh > /tmp/demo.log 2>&1; echo "$id demo with the bug: $? $(tail -1 /tmp/demo.log | cut -c1-150)"
for p in $props; do echo "$id check: $(cd /verif && ./check.sh $p quick 2>&1 | grep -E '^(VIOLATION|minimised|P..:)' | cut -c1-250)"; done
git checkout -- .
bash $d/demo.sh > /tmp/demo.log 2>&1; echo "$id demo without: $?"
git status --short
