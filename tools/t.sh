#!/bin/bash
# build and run the repository's tests; print what is missing from the baseline
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(o.get('passed',[]));print(len(p&b),'of',len(b),sorted(b-p))"
