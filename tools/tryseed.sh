#!/bin/bash
# tryseed.sh ID [P..]: confirms the planted bug seeded/ID in a scratch copy of /repo (shown at
# /repo in a mount namespace of its own), then runs the checks P.. (default: its property) on it.
ID=$1; shift
D=${SEEDED:-/verif/seeded}/$ID
S=/tmp/seed.$ID
if [ -z "$IN_NS" ]; then
    rm -rf "/tmp/seed.$ID"; mkdir -p "$S/work" "$S/demo" "$S/build" || exit 1
    cp -a /repo "$S/repo"
    # Only lines of the original repository may change.
    (cd /repo; base=$(git rev-list --max-parents=0 HEAD)
     git apply --check "$D/patch.diff" || exit 1
     grep -h '^--- a/' "$D/patch.diff" | sed 's,^--- a/,,' | while read -r f; do
        python3 - "$D/patch.diff" "$f" "$base" <<'P'
import re, subprocess, sys
patch, f, base = sys.argv[1:]
blame = subprocess.check_output(["git", "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
own, cur, n = [], None, 0
for l in open(patch):
    if l.startswith("--- "): cur = l[6:].strip()
    elif l.startswith("+++ "): pass
    elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
    elif cur == f:
        if l.startswith("-"):
            b = blame[n - 1]
            if base[:39] not in b.split()[0].lstrip("^") : own.append((n, b[41:]))
        if not l.startswith("+"): n += 1
print("  changes lines not in the original:", own) if own else print("  changes only original lines of", f)
P
     done)
    IN_NS=1 unshare -m "$0" "$ID" "$@"
    rm -rf "/tmp/seed.$ID"
    exit
fi
mount --bind "$S/repo" /repo; mount --bind "$S/work" /opt/vp/work
cp -r "$D/." "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd /repo || exit 1
[ -f target/debug/procstar ] && bash /opt/vp/build.sh > "$S/build0.log" 2>&1
timeout 300 bash "$S/demo/demo.sh" > "$S/demo0.log" 2>&1; r=$?
[ $r = 0 ] && echo "  demo passes without" || { echo "  DEMO FAILS WITHOUT THE CHANGE ($r)"; tail -8 "$S/demo0.log"; }
git apply "$D/patch.diff" || exit 1
bash /opt/vp/build.sh > "$S/build.log" 2>&1 || { echo "  DOES NOT BUILD"; grep -A8 "^error" "$S/build.log" | head -40; exit 1; }
bash /opt/vp/test.sh "$S/t.json" > "$S/test.log" 2>&1
python3 - "$S/t.json" <<'P'
import json, sys
b, t = json.load(open('/opt/vp/BASELINE.json')), json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed', 'stable', 'tests'):
        if k in d: return set(d[k])
m = passed(b) - passed(t)
print("  tests pass" if not m else f"  TESTS FAIL: {sorted(m)}")
P
timeout 300 bash "$S/demo/demo.sh" > "$S/demo1.log" 2>&1; r=$?
[ $r != 0 ] && echo "  demo fails with: $(tail -1 "$S/demo1.log" | cut -c1-150)" || echo "  DEMO PASSES WITH THE CHANGE"
P=$(python3 -c "import json; print(json.load(open('$D/meta.json'))['property'])")
cd /verif
for p in ${@:-$P}; do
    VERIF_REPO=/repo VERIF_BUILD="$S/build" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check "$p" > "$S/check.log" 2>&1
    echo "  $p: exit $? $(grep -m1 -B1 '^VIOLATION' "$S/check.log" | head -1 | cut -c1-220) $(grep '^VIOLATION' "$S/check.log" | head -1)"
done
