#!/bin/bash
# trybug.sh ID [PROPERTY…]: run the checks of a planted bug's property (or the given ones) against a scratch copy with the bug
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
T=$(mktemp -d)
cp -a /repo "$T/repo"
git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || exit 9
for p in $P; do
  echo "== $id $p"
  VERIF_REPO="$T/repo" VERIF_SEED=1 timeout 900 python3 "$V/check.py" "$p" quick > "$T/out" 2>&1
  echo "rc=$?"; grep -a "VIOLATION\|failing input\|failed obligation\|not proved\|ERROR" "$T/out" | cut -c1-300 | head -8
  tail -1 "$T/out"
done
rm -rf "$T"
