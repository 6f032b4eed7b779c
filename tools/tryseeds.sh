#!/bin/bash
# tryseeds.sh [id...]: runs the check of each planted bug on a patched copy
cd "$(dirname "$0")/.."
ids="${@:-$(ls seeded)}"
try() {
  s=$1; W=$(mktemp -d)
  cp -a /repo $W/repo; git -C $W/repo apply $PWD/seeded/$s/patch.diff || { echo "$s NOAPPLY"; rm -rf "$W"; return; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  mkdir $W/ev
  VERIF_REPO=$W/repo VERIF_EVIDENCE=$W/ev VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p > $W/out 2>&1
  echo "$s rc=$? $(grep -a VIOLATION $W/out | sed 's/replay=[^ ]*//') | $(grep -a 'failed obl\|undecided \[' $W/out | head -1)"
  rm -rf "$W"
}
export -f try
echo $ids | tr ' ' '\n' | xargs -P ${P:-2} -I{} bash -c 'try {}'
