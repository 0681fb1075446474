#!/bin/bash
# trybug.sh SEEDID: demo on clean and patched copy + existing tests + the property's check, all in a private mount of a copy of /repo (development aid)
id=$1; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/trybug.XXXX)
cp -a ${TRY_BASE:-/repo}/. $D/; [ -d $D/_build ] || cp -a /repo/_build $D/ 2>/dev/null
cat > $D.sh <<E
mount --bind $D /repo
cd /repo
(bash $S/demo.sh >/dev/null 2>&1); echo "demo clean rc=\$? (want 0)"
git apply $S/patch.diff || exit 1
(bash $S/demo.sh >/dev/null 2>&1); echo "demo patched rc=\$? (want !=0)"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $D.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('$D.json'));print('tests passed',len(d['passed']),'failed',d['failed'])"; fi
cd /verif; [ -n "$NOCHECK" ] || python3 /verif/check.py $prop 2>&1 | grep -E "VIOLATION|wall=|ERROR" | head -3
E
unshare -m bash $D.sh
rm -rf "$D" "$D.sh" "$D.json"
