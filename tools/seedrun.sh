#!/bin/bash
# seedrun.sh [ID...]: runs each planted bug's own check (or CHECKS="C01 C02") against a scratch copy of /repo that has it
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V" || exit 3
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  S=$(mktemp -d /tmp/sr-XXXXXX); cp -a /repo "$S/repo"
  if ! git -C "$S/repo" apply "$V/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$S"; continue; fi
  for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
    t=$(date +%s); VERIF_REPO="$S/repo" node sim/run.mjs check $c > "$S/log" 2>&1; r=$?
    echo "$id $c exit $r $(( $(date +%s) - t ))s: $(grep -a -m1 -E '^seed |^ERROR' "$S/log" | cut -c1-260)"
  done
  rm -rf "$S"
done
