#!/bin/bash
# developer aid: tools/seed.sh ID [nocheck] - confirm the planted change ID (builds, stable tests pass, demo tells the
# two trees apart) and tell whether the property's quick check catches it. /repo is restored afterwards.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
S=$(mktemp -d); cp $D/* $S/; rm -f $S/patch.diff $S/meta.json
bash $S/demo.sh >$S/clean.log 2>&1; c=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh || { echo "$ID: does not build"; exit 2; }
bash $S/demo.sh >$S/bug.log 2>&1; b=$?
st=$(bash /verif/tools/stable.sh | tr '\n' ' ')
if [ "$2" != nocheck ]; then (cd /verif && VERIF_SEED=1 timeout 900 bin/check $P > $S/check.log 2>&1; echo $? > $S/rc); k="rc $(cat $S/rc) $(grep -c '^VIOLATION' $S/check.log)"; fi
echo "$ID ($P): demo clean=$c bug=$b; $st; check $k"
[ $c = 0 ] && [ $b != 0 ] || { tail -20 $S/clean.log; echo ----; tail -20 $S/bug.log; }
[ "$2" = nocheck ] || grep -m3 'REJECTED\|error' $S/check.log | cut -c1-300
rm -rf $S
