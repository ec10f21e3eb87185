#!/bin/bash
# seed.sh <id> : takes the edit made in /tmp/seedrepo as seeded bug <id> (its directory has main.rs and meta.json),
# and confirms it: demo passes without it, fails with it, and the stable tests still pass.
id=$1; s=/verif/seeded/$id; r=${SEEDREPO:-/tmp/seedrepo}
[ -f $s/demo.sh ] || { sed "s/FEATURES/${FEAT:+, features = [$FEAT]}/" /verif/tools/demo_template.sh >$s/demo.sh; chmod +x $s/demo.sh; }
cd $r || exit 1
if ! git diff --quiet; then git diff >$s/patch.diff; fi
git checkout -q -- .
(git apply --check $s/patch.diff) || exit 1
bash $s/demo.sh >/tmp/seed-$id.clean 2>&1; a=$?
git apply $s/patch.diff
bash $s/demo.sh >/tmp/seed-$id.bug 2>&1; b=$?
sed 's#/repo#'$r'#g; s#/opt/vp/logs#/tmp/seedlogs#' /opt/vp/test.sh >/tmp/seedtest.sh
sed -i 's#\. /opt/vp/env.sh#. /opt/vp/env.sh; export CARGO_TARGET_DIR='$r'/target#' /tmp/seedtest.sh
bash /tmp/seedtest.sh /tmp/seed-$id.json >/dev/null 2>&1
git checkout -q -- .
python3 - $id $a $b <<'PY'
import json,sys
i,a,b=sys.argv[1:]
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ps=set(json.load(open(f'/tmp/seed-{i}.json'))['passed'])
miss=st-ps
ok=a=='0' and b not in('0','3') and not miss
print(i,'OK' if ok else 'BAD','clean',a,'bug',b,'missing',sorted(miss)[:5])
PY
