#!/bin/bash
# tools/tryseed.sh ID...: confirms planted bugs in scratch copies of /repo: the patch applies, builds, passes the
# stable tests, and its demo passes on the unchanged tree and fails with the patch.
one()
{
	id=$1
	here=/verif/seeded/$id
	w=/tmp/sw/$id
	rm -rf "/tmp/sw/$id"
	mkdir -p "/tmp/sw/$id"
	cp -a /repo "$w/repo"
	sed "s#^REPO = \"/repo\"#REPO = \"$w/repo\"#" /opt/vp/driver.py >"$w/driver.py"
	mkdir "$w/demo"
	cp -a "$here/." "$w/demo/"
	rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
	( cd "$w/repo" && python3 "$w/driver.py" build >"$w/build0.log" 2>&1 ) || { echo "$id: BASE BUILD FAILED"; return; }
	( cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo0.log" 2>&1 ); d0=$?
	git -C "$w/repo" apply "$here/patch.diff" || { echo "$id: patch does not apply"; return; }
	( cd "$w/repo" && python3 "$w/driver.py" build >"$w/build1.log" 2>&1 ) || { echo "$id: PATCHED BUILD FAILED"; tail -20 "$w/build1.log"; return; }
	( cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo1.log" 2>&1 ); d1=$?
	t=skipped
	if [ -z "$NOTESTS" ]; then
		( cd "$w/repo" && python3 "$w/driver.py" test "$w/results" >"$w/test.log" 2>&1 )
		t=$(python3 - "$w/results" <<'P'
import json,sys
ok={l[5:].strip() for l in open(sys.argv[1]) if l.startswith("PASS ")}
bad=[x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
print("tests ok" if not bad else "TESTS FAIL "+" ".join(bad[:5]))
P
)
	fi
	s=BAD; [ $d0 = 0 ] && [ $d1 != 0 ] && s=good
	echo "$id: demo $s (unchanged $d0, patched $d1), $t"
	[ -z "$KEEP" ] && rm -rf "/tmp/sw/$id"
}
export -f one
printf '%s\n' "$@" | xargs -P "${JOBS:-4}" -I{} bash -c 'one {}'
