#!/bin/bash
# tools/runseed.sh ID...: runs the quick check of the property against a scratch copy with each planted bug.
for id in "$@"; do
	here=/verif/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
	w=/tmp/rs/$id
	rm -rf "/tmp/rs/$id"
	mkdir -p "/tmp/rs/$id"
	git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$w"
	cd "$w/repo" && git init -q . && patch -p1 -s <"$here/patch.diff" || { echo "$id: no"; continue; }
	cd /verif
	for p in ${PROPS:-$prop}; do
		out=$(VERIF_REPO=$w/repo VERIF_BUILD=$w/build timeout 900 ./check $p 2>&1); rc=$?
		rp=$(echo "$out" | grep -o "^VIOLATION property=$p replay=.*" | sed 's/.*replay=//')
		echo "$id: $p exit $rc: $(echo "$out" | tail -1 | cut -c1-100)"
		[ -n "$rp" ] && [ -z "$KEEP" ] && rm -f "$rp"
	done
	[ -z "$KEEP" ] && rm -rf "/tmp/rs/$id"
done
