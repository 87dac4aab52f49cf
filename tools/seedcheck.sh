#!/bin/bash
# seedcheck.sh ID [nocheck]: validates a seeded bug and runs its property's quick check against it.
ID=$1; D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
L=$(mktemp -d); cp -r "$D" "$L/s"; rm -f "$L/s/patch.diff" "$L/s/meta.json"
(cd /repo && bash "$L/s/demo.sh") >"$L/clean.log" 2>&1; c=$?
git -C /repo apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >"$L/build.log" 2>&1; b=$?
t=$(bash /opt/vp/test.sh "$L/t.json" 2>&1 | tail -1)
(cd /repo && timeout 300 bash "$L/s/demo.sh") >"$L/bug.log" 2>&1; d=$?
if [ "${2:-}" != nocheck ]; then
  s=$(date +%s); (cd /verif && ./run.sh "$P" quick) >"$L/check.log" 2>&1; k=$?; s=$(( $(date +%s) - s ))
fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
ok=OK; [ $c = 0 ] && [ $b = 0 ] && [ "$t" = "144 passed, 0 failed" ] && [ $d != 0 ] || ok=INVALID
echo "$ID $ok property=$P demo(clean)=$c build=$b tests=[$t] demo(bug)=$d check=${k:-skipped} ${s:-}s"
if [ $ok != OK ]; then head -20 "$L/clean.log" "$L/build.log" "$L/bug.log"; fi
if [ -n "${k:-}" ]; then grep -h -B6 VIOLATION "$L/check.log" | cut -c1-220 | head -8; [ "$k" = 1 ] || tail -5 "$L/check.log"; fi
rm -rf "$L"
