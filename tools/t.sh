bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 - <<'P'
import json; o=json.load(open('/tmp/o.json')); print('tests', len(o['passed']), 'failed', o['failed'])
P
git -C /repo status --short | head -5
