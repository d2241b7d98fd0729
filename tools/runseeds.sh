#!/bin/bash
# runseeds.sh [-a] [ID...]: applies each planted bug to a scratch copy of /repo and runs the check of
# its property (-a: every claimed check) against the copy.
all=; [ "${1:-}" = -a ] && { all=1; shift; }
ids=("$@"); [ $# = 0 ] && ids=($(ls /verif/seeded))
run() {
  id=$1; w=/tmp/seedrun.$id; rm -rf "$w"; mkdir -p "$w/v"; cp -a /repo "$w/repo"
  cp /verif/known_findings.txt /verif/properties.jsonl "$w/v/"
  git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: PATCH FAILS"; return; }
  props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  own=$props
  [ "$all" ] && props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
  for p in $props; do
    REPO_DIR=$w/repo VERIF_DIR=$w/v timeout 900 /verif/check.sh $p > "$w/out" 2>&1; rc=$?
    if [ $rc != 0 ] || [ $p = $own ]; then
    echo "$id $p rc=$rc $([ $p = $own ] && { [ $rc = 1 ] && echo CAUGHT || echo MISSED; }) $(grep -v '^VIOLATION' "$w/out" | grep -iv known | head -${LINES_SHOWN:-2} | cut -c1-220)"
    fi
  done
  rm -rf "$w"
}
for id in "${ids[@]}"; do while [ $(jobs -rp | wc -l) -ge 4 ]; do sleep 0.3; done; run $id & done; wait
