#!/bin/bash
# seeded.sh [id...]: runs each planted bug's own check against a scratch copy of /repo with the patch applied
V=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d /tmp/seeded_XXXXXX); trap 'rm -rf "$D"' EXIT
git clone -q /repo "$D/repo"
for k in ${@:-$(ls $V/seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$k/meta.json'))['property'])")
  git -C "$D/repo" checkout -q -- . ; git -C "$D/repo" clean -fdq; git -C "$D/repo" apply "$V/seeded/$k/patch.diff" || { echo "$k PATCH"; continue; }
  t=$SECONDS; o=$(cd $V && DST_REPO=$D/repo VERIF_SEED=1 VERIF_TIER=quick ./run.sh $P --no-min 2>&1)
  if echo "$o" | grep -q "^VIOLATION property=$P "; then echo "$k $P caught $((SECONDS-t))s: $(echo "$o" | grep -E "^$P: [a-z-]+:" | head -1 | cut -c1-150)"; else echo "$k $P MISSED"; fi
done
