#!/bin/bash
# run the repository's stable tests and print what is missing
timeout -k 5 400 bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']),'missing:',sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(d['passed'])))"
