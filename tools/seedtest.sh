#!/bin/bash
# seedtest.sh NAME [demo|check|all] : confirms a planted bug (demo on the unchanged tree, build, stable
# tests, demo with the patch) and runs the property's quick check against it.
N=$1; W=${2:-all}; S=/verif/seeded/$N; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
C=$(mktemp -d); cp "$S"/*.go "$S"/demo.sh "$C"
if [ "$W" != check ]; then bash "$C/demo.sh" > "$C/out" 2>&1; a=$?; [ $a = 0 ] || { echo "$N: demo on clean tree: $a"; tail -5 "$C/out"; }; fi
trap 'git -C /repo checkout -q -- .; rm -rf "$C"' EXIT
git apply "$S/patch.diff" || exit 2
if [ "$W" != check ]; then
  bash /opt/vp/build.sh > "$C/b" 2>&1 || { echo "$N: build fails"; tail -5 "$C/b"; exit 2; }
  bash /opt/vp/test.sh "$C/t.json" >/dev/null 2>&1
  m=$(python3 - "$C/t.json" <<'X'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=t.get('passed') or [k for k,v in t.get('tests',t).items() if v in('pass','passed')]
print([x for x in (b.get('stable') or b.get('passed')) if x not in set(p)][:3])
X
)
  bash "$C/demo.sh" > "$C/out" 2>&1; d=$?; grep -h -E 'BROKEN|failed' "$C/out" | head -2
fi
if [ "$W" != demo ]; then (cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check.sh $P > "$C/chk" 2>&1; echo $? > "$C/rc"); fi
echo "$N $P clean=$a missing=$m demo=$d check=$(cat $C/rc 2>/dev/null) $(grep -h -m1 VIOLATION $C/chk 2>/dev/null)"
