#!/bin/bash
# developer aid: run the repository's stable tests in /repo and name those that do not pass
O=$(mktemp); bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
ps=set(r.get('passed',r.get('pass',[])))
miss=[x for x in b if x not in ps]
print('stable',len(b),'missing',len(miss)); print('\n'.join(miss[:20])); sys.exit(bool(miss))
P
rc=$?; rm -f $O; exit $rc
