#!/usr/bin/env python3
"""Plant a bug: seed.py ID PROP <<< sections: #needs / #breaks / #edit (blocks @@file OLD ===== NEW) / #demo (C program body: uses FAIL_IF)
Edits /repo, checks build + stable tests + demo, stores /verif/seeded/ID, restores /repo."""
import sys, subprocess, os, json, re
sid, prop = sys.argv[1:3]; txt = sys.stdin.read()
sec = {}; cur = None
for l in txt.split('\n'):
    m = re.fullmatch(r'#(needs|breaks|edit|demo)(?: (.*))?', l)
    if m: cur = m.group(1); sec[cur] = [m.group(2)] if m.group(2) else []
    else: sec[cur].append(l)
sec = {k: '\n'.join(v).strip('\n') for k, v in sec.items()}
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short', '-uno'])
d = '/verif/seeded/' + sid; os.makedirs(d, exist_ok=True)
edits = {}
for b in ('\n' + sec['edit']).split('\n@@')[1:]:
    f, rest = b.split('\n', 1); old, new = rest.split('\n=====\n'); p = '/repo/' + f.strip()
    s = edits.get(p) or open(p, encoding='latin1', newline='').read(); old = old.rstrip('\n'); new = new.rstrip('\n')
    assert s.count(old) == 1, (f, s.count(old), old); edits[p] = s.replace(old, new)
open(d + '/demo.c', 'w').write('#include <axl.h>\n#include <axl_ns.h>\n#include <axl_babel.h>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#define FAIL_IF(c) do { if (c) { printf ("demo failed: %s\\n", #c); return 1; } } while (0)\n' + sec['demo'] + '\n')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: /repo, after the build. Builds the library sources with AddressSanitizer next to demo.c and runs it.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -g -O1 -w -std=gnu99 -fsanitize=address -fno-omit-frame-pointer -D_GNU_SOURCE -DHAVE_CONFIG_H -DSHOW_DEBUG_LOG '-DVERSION="demo"' -I_build -I_build/src -Isrc -Ins -Ibabel src/axl*.c ns/axl*.c babel/axl*.c "$here/demo.c" -lm -o "$w/demo" || exit 3
cd "$w" && ASAN_OPTIONS=detect_leaks=%s timeout 60 ./demo
''' % ('1' if 'LEAK' in sec['demo'] else '0'))
json.dump(dict(property=prop, needs=sec['needs'], what_it_breaks=sec['breaks']), open(d + '/meta.json', 'w'), indent=1)
ok = True
try:
    for p, s in edits.items(): open(p, 'w', encoding='latin1', newline='').write(s)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
    r = subprocess.run('bash /opt/vp/build.sh', shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: print('BUILD FAILED', r.stdout[-1500:].decode()); ok = False
    subprocess.run('bash /opt/vp/test.sh /tmp/o.json', shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open('/tmp/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    if len(o['passed']) < 73: print('TESTS FAIL', len(o['passed']), o['failed'][:5]); ok = False
    r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT); print('with patch:', r.returncode, r.stdout[:300].decode(errors='replace').strip().replace('\n', ' | '))
    if r.returncode in (0, 3): ok = False
finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
subprocess.run('bash /opt/vp/build.sh', shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT); print('without:', r.returncode, r.stdout[:300].decode(errors='replace'))
if r.returncode: ok = False
print(sid, 'OK' if ok else 'BAD')
if not ok: print('  (remove or correct /verif/seeded/%s)' % sid)
sys.exit(not ok)
