#!/bin/bash
# tryall.sh [ID...]: runs the checks of each planted bug (or with ALL=1 every
# check) with the patch applied to /repo. Not used by any check.
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
    if ./run.sh build >/dev/null; then
        for p in $([ -n "${ALL:-}" ] && seq -f 'C%02g' 1 23 || echo "$prop"); do
            s=$(date +%s)
            out=$(timeout 900 ./run.sh check "$p" 2>&1); rc=$?
            hit=$(grep -c "^VIOLATION property=$p " <<<"$out")
            [ "$p" = "$prop" ] || [ $rc -ne 0 ] && echo "$id $p rc=$rc hit=$hit $(($(date +%s) - s))s"
        done
    else
        echo "$id: no build"
    fi
    git -C /repo checkout -q -- .
done
