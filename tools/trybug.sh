#!/bin/bash
# trybug.sh BUG [PROPERTY...]: runs the quick check of the property of a planted bug (or those given) on a copy of /repo with the bug
here=$(cd "$(dirname "$0")/.." && pwd)
bug=$1; shift
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
git -C "$w/repo" apply "$here/seeded/$bug/patch.diff" || exit 3
props=${*:-$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$bug/meta.json")}
for p in $props; do
  [ -e "$here/vf/props/${p,,}.py" ] || { echo "$bug $p: no check"; continue; }
  (cd "$here" && VF_REPO=$w/repo ./check "$p" --tier quick --seed ${SEED:-1} >"$w/out" 2>&1); rc=$?
  echo "$bug $p: rc=$rc $(grep -c ^VIOLATION "$w/out") $(grep -A1 ^VIOLATION "$w/out" | sed -n 2p | cut -c1-${W:-150})"
done
