#!/bin/bash
# seed.sh SEED [CHECK...]: apply a planted bug to /repo, run the checks (default: the bug's own property), undo it.
V=$(cd "$(dirname "$0")/.." && pwd)
S=$1; shift
git -C /repo apply "$V/seeded/$S/patch.diff" || exit 3
trap 'git -C /repo checkout -- .' EXIT
[ $# -gt 0 ] || set -- "$(python3 -c "import json;print(json.load(open('$V/seeded/$S/meta.json'))['property'])")"
for c; do
	o=$("$V/check.sh" "$c" "${TIER:-quick}" 2>&1); r=$?
	echo "$S $c -> $r $(echo "$o" | grep -A1 ^VIOLATION | head -2 | tr '\n' ' ' | cut -c1-220)"
done
