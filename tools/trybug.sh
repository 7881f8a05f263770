#!/bin/bash
# trybug.sh <seed id> [check args]: apply a seeded bug to a scratch copy of /repo and run its property's check on it.
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/tryb.XXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo || exit 9
git -C $W/repo apply $S/patch.diff || exit 9
cd /verif; VERIF_REPO=$W/repo python3-vt -m cv.check $P --tier quick "$@" 2>&1 | tail -12; echo "rc=${PIPESTATUS[0]}"
