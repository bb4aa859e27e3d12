#!/bin/bash
# trybugs.sh [ID...]: runs each planted bug's own check against a patched scratch copy of /repo's sources; prints caught / MISSED
V=$(cd "$(dirname "$0")/.." && pwd); t=$(mktemp -d /tmp/try.XXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/build"; cp -a "$V/build/o" "$t/build/o" 2>/dev/null
[ $# -eq 0 ] && set -- $(ls "$V/seeded")
for b in "$@"; do
  rm -rf "$t/r"; mkdir "$t/r"; cp -a /repo/src /repo/inc "$t/r/"
  (cd "$t/r" && git apply --unsafe-paths --directory="" "$V/seeded/$b/patch.diff" 2>/dev/null || patch -s -p1 < "$V/seeded/$b/patch.diff") || { echo "$b: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  s=$(date +%s); VP_REPO=$t/r VP_OUT=$t VP_BUILD=$t/build VERIF_SEED=${VERIF_SEED:-1} python3 "$V/check.py" $p quick > "$t/log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$t/log"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$b $p $r $(( $(date +%s) - s ))s $(grep -m1 FAILED "$t/log" | cut -c1-140)"
done
