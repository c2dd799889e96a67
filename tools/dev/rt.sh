cd /repo && bash /opt/vp/build.sh >/tmp/build.log 2>&1 && bash /opt/vp/test.sh /tmp/test.json >/tmp/test.log 2>&1; python3 -c "
import json
t=json.load(open('/tmp/test.json')); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()}, t['failed'])"; cd /repo; git status --short
