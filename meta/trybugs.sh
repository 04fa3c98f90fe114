#!/bin/bash
# trybugs.sh ID...: run the check of each planted bug against a patched copy.
cd "$(dirname "$0")/.."
for id in "$@"; do
  pid=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  R=/tmp/trybug_$id; git clone -q "${REPO:-/repo}" $R && git -C $R apply "$PWD/seeded/$id/patch.diff"
  out=$(VERIF_REPO=$R ./run.sh $pid 2>&1 | grep -c "^VIOLATION property=$pid"); echo "$id $pid violations=$out"
  rm -rf "$R"
done
