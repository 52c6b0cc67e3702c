#!/bin/bash
# usage: fixed.sh PROPERTY "what failed"   -- records /repo's HEAD commit as the repair
python3 - "$1" "$2" "$(git -C /repo rev-parse --short ${3:-HEAD})" <<'P'
import sys, json
p, w, c = sys.argv[1:]
open('/verif/known_findings.jsonl', 'a').write(json.dumps(dict(status='fixed', property=p, commit=c, what=w, text='fixed: property=%s %s %s' % (p, c, w))) + '\n')
P
