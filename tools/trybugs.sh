#!/bin/bash
# trybugs.sh [ID...]: runs the check of each planted bug's property (or the
# checks in $CHECKS) against it, in a scratch copy of /repo and of /verif whose
# go.mod points to that copy.
cd /verif; touch tools/bugs/results.txt
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
mkdir "$w/verif"
cp -a /repo "$w/repo"
cp -a run.sh harness known_findings.txt MANIFEST.json properties.jsonl "$w/verif"
mkdir "$w/verif/evidence" "$w/verif/replays"
sed -i "s,=> /repo\$,=> $w/repo," "$w/verif/harness/go.mod"
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C "$w/repo" apply "/verif/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
    for c in ${CHECKS:-$p}; do
        t0=$(date +%s)
        out=$("$w/verif/run.sh" $c quick 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "VIOLATION property=$c" <<<"$out"; then r=caught; else r="MISSED (rc $rc)"; fi
        if [ $c = $p ]; then
            (flock 9; sed -i "/^$d /d" tools/bugs/results.txt; echo "$d $p $r" >> tools/bugs/results.txt) 9<tools/trybugs.sh
        fi
        echo "$d $c $r $(($(date +%s)-t0))s $(grep -A1 "^$c: " <<<"$out" | tail -2 | cut -c1-150 | tr '\n' ' ')"
    done
    git -C "$w/repo" checkout -- .
done
