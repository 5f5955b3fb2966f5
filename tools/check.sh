#!/bin/bash
# The check of one property: bash tools/check.sh C01
cd "$(dirname "$0")/.."
bash tools/setup.sh || exit 2
exec bin/govc check -verif "$PWD" -contracts "$PWD/contracts" -repo "${VERIF_REPO:-/repo}" -prop "$1"
