#!/bin/bash
# seedcheck.sh [ID...]: runs the check of its property against each planted bug, on scratch copies of /repo.
root=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(ls "$root/seeded")}
for id in $ids; do
	d=$root/seeded/$id
	prop=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$d/meta.json")
	w=$(mktemp -d)
	git -C /repo archive HEAD | tar x -C "$w"
	(cd "$w" && git init -q . && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
	start=$(date +%s)
	VERIF_REPO=$w "$root/run.sh" "$prop" "${TIER:-quick}" -noevidence >"$w.log" 2>&1
	rc=$?
	v=$(grep -m1 VIOLATION "$w.log")
	echo "$id ($prop): rc=$rc $(( $(date +%s) - start ))s ${v:-MISSED}"
	[ -n "$V" ] && tail -20 "$w.log"
	rm -rf "$w" "$w.log"
done
