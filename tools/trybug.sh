#!/bin/bash
# trybug.sh LANE ID [--no-suite] [PROP...]: tries one planted bug in a private mount namespace:
# demo without it, build and test suite with it, demo with it, and the checks of its property.
LANE=$1; ID=$2; shift 2
SUITE=1; [ "$1" = --no-suite ] && { SUITE=0; shift; }
SRC=${VERIF_SRC:-/verif}
L=/tmp/lanes/$LANE
mkdir -p $L/verif $L/logs $L/out
[ -d $L/repo ] || cp -a /repo $L/repo
[ -d $L/ws ] || cp -a /opt/vp/ws $L/ws
find $L/verif -mindepth 1 -maxdepth 1 ! -name .build -exec rm -rf {} +
git -C $SRC archive HEAD | tar xf - -C $L/verif; find $L/verif/seeded -delete
git -C $L/repo checkout -q -- . ; git -C $L/repo fetch -q /repo HEAD && git -C $L/repo checkout -q --detach FETCH_HEAD
rm -rf $L/seed; cp -a /verif/seeded/$ID $L/seed
PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
exec unshare -m bash -c "
mount --bind $L/repo /repo; mount --bind $L/ws /opt/vp/ws; mount --bind $L/logs /opt/vp/logs; mount --bind $L/verif /verif
cd /repo; D=$L/seed; O=$L/out/$ID
if [ $SUITE = 1 ]; then
bash /opt/vp/build.sh >\$O.build0 2>&1 || echo '$ID: clean build failed'
bash \$D/demo.sh >\$O.demo0 2>&1; d0=\$?
git apply \$D/patch.diff || { echo '$ID: patch does not apply'; exit 1; }
bash /opt/vp/build.sh >\$O.build 2>&1 || echo '$ID: build failed'
bash /opt/vp/test.sh \$O.json >\$O.test 2>&1; t=\$(tail -1 \$O.test)
bash \$D/demo.sh >\$O.demo1 2>&1; d1=\$?
echo \"$ID: demo clean=\$d0 patched=\$d1; tests: \$t\"
else git apply \$D/patch.diff; fi
for p in $PROPS; do
 s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 /verif/run.py \$p --tier quick >\$O.check-\$p 2>&1; rc=\$?
 echo \"$ID: check \$p exit \$rc in \$((\$(date +%s)-s))s \$(grep -m1 VIOLATION \$O.check-\$p) :: \$(grep -m1 'broken property' \$O.check-\$p | cut -c1-200)\"
done
git checkout -q -- .
"
