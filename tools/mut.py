#!/usr/bin/env python3
"""Automatic mutants: mut.py SEED COUNT FILE... : mutates a scratch copy of /repo, keeps mutants that change the IR and pass the stable tests, runs the checks of the file until one reports."""
import sys, os, re, random, subprocess, shutil, glob, json, time
seed, count, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
R = '/tmp/mut%d' % seed; LOG = '/root/mut/log%d.txt' % seed
MAP = {'axl_list': 'C17', 'axl_hash': 'C18', 'axl_stack': 'C19 C25', 'axl_factory': 'C20 C01 C04', 'axl_stream': 'C22 C21 C03 C04 C07 C01 C15 C02 C23 C28', 'axl_doc': 'C04 C12 C11 C05 C03 C25 C02 C28 C27 C06 C10 C01 C07 C08', 'axl_node': 'C09 C10 C12 C05 C08 C26 C11 C06 C25 C27 C28 C04 C01', 'axl_dtd': 'C13 C16 C14 C15', 'axl_error': 'C02 C15', 'axl_ns_doc': 'C24', 'axl_ns_node': 'C24', 'axl_babel': 'C23', 'axl_item': 'C10'}
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
shutil.rmtree(R, ignore_errors=True); os.makedirs(R); 
for d in ('src', 'ns', 'babel', 'test'): shutil.copytree('/repo/' + d, R + '/' + d)
sh('python3 /opt/vp/gen_driver.py /repo/test/test_01.c %s/driver.c' % R)
CF = '-w -DHAVE_CONFIG_H -DTEST_DIR=/repo/test -I/repo/_build -I/repo/_build/src -I%s/test -I%s/src -I%s/ns -I%s/babel -std=gnu89 -g -O1 -DSHOW_DEBUG_LOG -DAXL_NS_SUPPORT -DAXL_BABEL_SUPPORT -DVERSION=\\"x\\" -D__axl_disable_broken_bool_def__' % (R, R, R, R)
SRC = [f for d in ('src', 'ns', 'babel') for f in sorted(glob.glob('%s/%s/axl*.c' % (R, d)))]
os.makedirs(R + '/o')
def cc(f): return sh('gcc %s -c %s -o %s/o/%s.o' % (CF, f, R, os.path.basename(f)))
for f in SRC + [R + '/driver.c']: 
    p = cc(f); assert p.returncode == 0, p.stdout
def tests():
    p = sh('gcc -o %s/drv %s/o/*.o -lm' % (R, R)); 
    if p.returncode: return None
    w = R + '/w'; shutil.rmtree(w, ignore_errors=True); shutil.copytree('/repo/test', w)
    try: sh([R + '/drv', R + '/lines'], cwd=w, timeout=40)
    except subprocess.TimeoutExpired: return None
    return set(l.split()[1] for l in open(R + '/lines') if l.startswith('PASS')) if os.path.exists(R + '/lines') else None
def ir(f): return sh(['clang-18', '-S', '-emit-llvm', '-O1', '-w', '-std=gnu99', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-DSHOW_DEBUG_LOG', '-DVERSION="x"', '-I/verif/rt/config', '-I' + R + '/src', '-I' + R + '/ns', '-I' + R + '/babel', f, '-o', '-']).stdout
base = tests(); print('base', len(base)); 
def mask(s):
    out = list(s); i = 0
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^[ \t]*#[^\n]*', s, re.S | re.M):
        for k in range(m.start(), m.end()):
            if out[k] != '\n': out[k] = '\x01'
    return ''.join(out)
OPS = [(r'(?<![<>=!-])<=(?!=)', ['<', '==']), (r'(?<![<>-])<(?![<=])', ['<=', '!=']), (r'(?<![<>=-])>=', ['>']), (r'(?<![<>-])>(?![>=])', ['>=', '!=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\+\+', ['--']), (r'\baxl_true\b', ['axl_false']), (r'\baxl_false\b', ['axl_true']), (r'\bcontinue;', ['break;']), (r'\bbreak;', [';']), (r'(?<![\w.])([02-9]|1[0-9]?)(?![\w.])', ['N+1', 'N-1']), (r'\+=', ['=', '-=']), (r'\bif \(! ?', ['if (']), (r'->next\b', ['->previous']), (r'->first\b', ['->last']), (r'(?m)^[ \t]+[\w>\-\*\. \[\]\(\)&,+]+;[ \t]*$', ['DEL']), (r'(?m)^[ \t]+(?:if|while) \((.*)\)(?= \{?[ \t]*$)', ['NEG'])]
rng = random.Random(seed)
def candidates(f):
    s = open(f, encoding='latin1', newline='').read(); m = mask(s); r = []
    # only inside function bodies
    for rx, reps in OPS:
        for k in re.finditer(rx, m):
            ln0 = m.rfind('\n', 0, k.start()) + 1; ln1 = m.find('\n', k.end()); line = s[ln0:ln1]
            if not line.startswith((' ', '\t')) or 'axl_return_' in line or 'axl_log' in line or '__axl_log' in line or 'axl_error_' in line and 'NULL' in line: continue
            pre = m[max(0, ln0 - 300):ln0]
            if re.search(r'axl_log \([^;]*$', pre): continue
            if line.strip().startswith('*'): continue
            for rep in reps:
                t = k.group(0); a, b = k.start(), k.end(); st = s[a:b]
                if rep == 'DEL':
                    if re.match(r'\s*(return|break|continue|goto|else)\b', st) or re.match(r'\s*(const\s+)?\w+\s+\*?\s*\w+(\s*=.*)?;', st) and not re.search(r'^\s*\w+\s*[=(]|->|\(', st): continue
                    if '=' not in st and '(' not in st and '++' not in st and '--' not in st: continue
                    new = '\t\t;'
                elif rep == 'NEG': c = s[a:b]; i = c.index('('); new = c[:i] + '(! ' + c[i:] + ')'
                elif rep in ('N+1', 'N-1'):
                    n = int(t); new = str(n + (1 if rep == 'N+1' else -1))
                    if n == 0 and rep == 'N-1': continue
                else: new = rep
                r.append((a, b, new, rx))
    return s, r
pools = []
for f in files:
    p = [x for x in SRC if os.path.basename(x) == f + '.c'][0]; s, c = candidates(p); rng.shuffle(c); pools.append((f, p, s, c))
irs = {p: ir(p) for _, p, _, _ in pools}
n = 0; st = dict(equiv=0, nocomp=0, tested=0, caught=0, missed=0)
log = open(LOG, 'a')
def say(*a): print(*a, flush=True); print(*a, file=log, flush=True)
while n < count:
    f, p, s, c = pools[n % len(pools)] if len(pools) > 1 else pools[0]
    if not c: break
    a, b, new, rx = c.pop(); t = s[:a] + new + s[b:]
    open(p, 'w', encoding='latin1', newline='').write(t)
    try:
        x = ir(p)
        if x == irs[p] or cc(p).returncode: st['equiv'] += 1; continue
        try: os.unlink(R + '/lines')
        except OSError: pass
        got = tests()
        if got is None or base - got: st['tested'] += 1; continue
        n += 1; ln = s.count('\n', 0, a) + 1; old = s.split('\n')[ln - 1].strip(); nw = t.split('\n')[ln - 1].strip(); res = None; t0 = time.time()
        for prop in MAP.get(f, 'C23').split():
            q = sh(['python3', os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/check.py', prop, 'quick'], env=dict(os.environ, VERIF_REPO=R, VERIF_BUDGET='150'))
            if q.returncode == 1: res = prop; break
            if q.returncode == 2: res = 'build'; break
        st['caught' if res else 'missed'] += 1
        say('%s %s:%d  %s  ==>  %s   [%s] %.0fs' % ('MISS ' if not res else 'ok   ', f, ln, old, nw, res, time.time() - t0))
    finally: 
        open(p, 'w', encoding='latin1', newline='').write(s); cc(p)
say(st); shutil.rmtree(R, ignore_errors=True)
