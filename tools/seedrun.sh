#!/bin/bash
# seedrun.sh [ID...]: runs the check of each planted bug's property against it
# (in a scratch copy of /repo; the finder module is copied too).
cd "$(dirname "$0")/.."
bash tools/setup.sh
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  w=$(mktemp -d /tmp/sr.XXXXXX)
  cp -a /repo "$w/repo"
  git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  mkdir -p "$w/verif/evidence"
  cp -a finder contracts bin "$w/verif/"
  sed -i "s|=> /repo|=> $w/repo|" "$w/verif/finder/go.mod"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  r=$(bin/govc check -verif "$w/verif" -contracts "$w/verif/contracts" -repo "$w/repo" -prop "${PROP:-$p}" 2>&1)
  nf=$(echo "$r" | grep -c '^  obligation')
  echo "$id: ${PROP:-$p} exit-line: $(echo "$r" | grep -m1 VIOLATION | sed "s|$w||g" | cut -c1-120) failed-obligations: $nf [$(echo "$r" | grep '^  obligation' | sed 's/  obligation //' | head -4 | tr '\n' ' ')]"
  rm -rf "$w"
done
