#!/bin/bash
# testcopy.sh DIR OUT.json: the repository's tests against a copy of it (built in place)
sed -e "s#bash /opt/vp/build.sh ext##" -e "s#/repo#$1#g" /opt/vp/test.sh > /tmp/testcopy.$$.sh
chmod a+rx "$1" "$(dirname "$1")"
bash /tmp/testcopy.$$.sh "$2" > "$2.log" 2>&1
/bin/rm -f /tmp/testcopy.$$.sh
python3 - "$2" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = json.load(open(sys.argv[1]))
bad = [x for x in b if x not in t['passed']]
print('stable tests not passing:', len(bad), bad[:5])
P
