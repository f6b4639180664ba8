#!/bin/bash
# tryseed.sh ID...: confirm each planted bug (clean demo passes, builds, tests pass, demo fails) and run its check
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; bash $d/demo.sh) ; c=$?
git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
bash /opt/vp/build.sh >/tmp/seedb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1
t=$(python3 -c "
import json;o=json.load(open('/tmp/seedt.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(','.join(sorted(set(b['stable'])-set(o['passed']))) or 'ok')")
(cd /repo; timeout 300 bash $d/demo.sh >/dev/null 2>&1); m=$?
(cd /verif; timeout 900 python3 check.py $p >/tmp/seedc.out 2>/tmp/seedc.log); k=$?
git -C /repo checkout -- .
v=$(grep -c "^VIOLATION property=$p" /tmp/seedc.out)
echo "$id $p clean-demo=$c build=$b tests=$t demo=$m check=$k viol=$v $( [ $c = 0 -a $b = 0 -a "$t" = ok -a $m != 0 -a $k = 1 -a $v != 0 ] && echo OK || echo '<<<<<' ) $(tail -1 /tmp/seedc.log | cut -c1-200)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
