#!/bin/bash
# trybug.sh <seed-id> [tier]: run the property's check on a scratch copy of /repo with the seeded change applied
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/trybug.$$; cp -a /repo $W && (cd $W && git apply $D/patch.diff) || exit 2
cp -a /verif/. /tmp/trybugv.$$ 2>/dev/null
cd /tmp/trybugv.$$ && VERIF_REPO_DIR=$W timeout 900 ./check.sh ${3:-$P} ${2:-quick} > out.txt 2>&1; rc=$?
echo "$1: $P rc=$rc $(grep -m1 VIOLATION out.txt | grep -o 'no-failing-input-found') $(grep -c VIOLATION out.txt) violations; $(tail -1 out.txt | cut -c1-150)"
[ -n "$V" ] && grep -v '^$' out.txt | cut -c1-220 | head -${V}
rm -rf "/tmp/trybug.$$" "/tmp/trybugv.$$"
