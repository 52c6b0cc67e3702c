#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its current source.

usage: check.py <property> [quick|thorough] [--only ENTRY] [-v]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a solver
counterexample that also fails natively (AddressSanitizer build of /repo).
"""
import sys, os, json, subprocess, time, tempfile, shutil, threading, queue, glob, re, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
CLANG = '/usr/bin/clang-18'; LINK = '/usr/bin/llvm-link-18'; SYMX = VERIF + '/build/symx'
INC = ['-I' + VERIF + '/rt/config', '-I' + VERIF + '/rt', '-I' + VERIF + '/harness'] + ['-I%s/%s' % (REPO, d) for d in ('src', 'ns', 'babel')]
DEFS = ['-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-DSHOW_DEBUG_LOG', '-DVERSION="verif"', '-std=gnu99', '-w', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-ftrivial-auto-var-init=pattern']
IRF = ['-g', '-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-c', '-emit-llvm']
NATF = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-c']
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'vasprintf', 'open', 'close', 'read', 'stat', 'fopen', 'fwrite', 'fputs', 'fputc', 'fprintf', 'vfprintf', 'fflush', 'ferror', 'fclose', 'getenv']

def repo_sources():
    r = []
    for d in ('src', 'ns', 'babel'):
        for f in sorted(glob.glob('%s/%s/*.c' % (REPO, d))):
            if os.path.basename(f).startswith('axl'): r.append(f)
    return r

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

class BuildError(Exception): pass
def par(cmds, n=8):
    errs = []; q = queue.Queue()
    for c in cmds: q.put(c)
    def w():
        while True:
            try: c = q.get_nowait()
            except queue.Empty: return
            p = run(c)
            if p.returncode: errs.append(' '.join(c) + '\n' + p.stderr[-3000:])
    ts = [threading.Thread(target=w) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise BuildError(errs[0])

def build(tmp, srcs, instr=False):
    if not os.path.exists(SYMX):
        p = run(['make', '-C', VERIF + '/engine'])
        if p.returncode: raise BuildError(p.stderr)
    os.makedirs(tmp + '/ir'); os.makedirs(tmp + '/nat'); cmds = []; irs = []; nats = []
    for f in repo_sources():
        b = os.path.basename(f)[:-2]
        irs.append('%s/ir/%s.bc' % (tmp, b)); nats.append('%s/nat/%s.o' % (tmp, b))
        X = ['-O0', '-finstrument-functions', '-fsanitize-coverage=trace-loads,trace-stores'] if instr else []
        cmds.append([CLANG] + IRF + X + DEFS + INC + [f, '-o', irs[-1]])
        cmds.append([CLANG] + NATF + X + DEFS + INC + [f, '-o', nats[-1]])
    cmds.append([CLANG] + IRF + ['-fno-builtin'] + DEFS + INC + [VERIF + '/rt/rt.c', '-o', tmp + '/ir/_rt.bc'])
    cmds.append([CLANG] + IRF + ['-fno-builtin'] + DEFS + INC + [VERIF + '/rt/vf.c', '-o', tmp + '/ir/_vf.bc'])
    cmds.append([CLANG] + NATF + DEFS + INC + ['-DNATIVE', VERIF + '/rt/vf.c', '-o', tmp + '/nat/_vf.o'])
    cmds.append([CLANG] + NATF + DEFS + INC + [VERIF + '/rt/replay.c', '-o', tmp + '/nat/_replay.o'])
    for s in srcs:
        b = os.path.basename(s)[:-2]
        cmds.append([CLANG] + IRF + ['-fno-builtin'] + DEFS + INC + [s, '-o', '%s/ir/h_%s.bc' % (tmp, b)])
        cmds.append([CLANG] + NATF + DEFS + INC + [s, '-o', '%s/nat/h_%s.o' % (tmp, b)])
    par(cmds)
    p = run([LINK] + irs + [tmp + '/ir/_rt.bc', tmp + '/ir/_vf.bc', '-o', tmp + '/ir/lib.bc'])
    if p.returncode: raise BuildError(p.stderr)
    cmds = []; 
    for s in srcs:
        b = os.path.basename(s)[:-2]
        cmds.append([LINK, tmp + '/ir/lib.bc', '%s/ir/h_%s.bc' % (tmp, b), '-o', '%s/%s.bc' % (tmp, b)])
        cmds.append([CLANG, '-fsanitize=address', '-rdynamic', '-o', '%s/%s.native' % (tmp, b)] + nats + [tmp + '/nat/_vf.o', tmp + '/nat/_replay.o', '%s/nat/h_%s.o' % (tmp, b), '-ldl', '-lm'] + ['-Wl,--wrap=' + w for w in WRAPS])
    par(cmds)

REPENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:malloc_fill_byte=190:max_malloc_fill_size=1000000000:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1')
def replay(tmp, src, entry, args, bytes_, to=20):
    b = os.path.basename(src)[:-2]
    fd, path = tempfile.mkstemp(dir=tmp); os.write(fd, ' '.join(map(str, bytes_)).encode()); os.close(fd)
    try: p = run(['%s/%s.native' % (tmp, b), path, entry] + [str(a) for a in args], timeout=to, env=REPENV)
    except subprocess.TimeoutExpired: return 'timeout', 'no termination within %d s' % to
    finally: os.unlink(path)
    if p.returncode == 0: return None, p.stderr[-300:]
    if p.returncode == 66 and 'ERROR: AddressSanitizer: ' not in p.stderr: return None, 'replay infrastructure: ' + p.stderr[-300:]
    if p.returncode == 2: return None, 'replay infrastructure'
    m = re.search(r'REPLAY: FAILED.*|SUMMARY: .*|ERROR: AddressSanitizer.*', p.stderr)
    return 'exit %d' % p.returncode, (m.group(0) if m else p.stderr[-400:])

def merge(a, b):
    for k, v in b.items():
        if k in ('why',): a[k] = a.get(k) or v
        elif k == 'incomplete': a[k] = a.get(k, False) or v
        elif k in ('wall', 'max_constraints'): a[k] = max(a.get(k, 0), v)
        elif k == 'reach':
            d = a.setdefault(k, {})
            for x, y in v.items(): d[x] = d.get(x, 0) + y
        elif k == 'functions':
            d = a.setdefault('_fn', {})
            for n, c, t, fk in v: o = d.get(n, (0, t, 0)); d[n] = (max(o[0], c), t, o[2] + fk)
        elif isinstance(v, list): a.setdefault(k, []).extend(v)
        else: a[k] = a.get(k, 0) + v

RUNNING = set(); STOPPED = [False]; RLOCK = threading.Lock()
def run_stoppable(cmd):
    """an engine run that is ended when another run of the check has found a violation"""
    with RLOCK:
        if STOPPED[0]: return subprocess.CompletedProcess(cmd, -9, '', 'stopped')
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True); RUNNING.add(p)
    o, e = p.communicate()
    with RLOCK: RUNNING.discard(p)
    return subprocess.CompletedProcess(cmd, p.returncode, o, e)
def stop_others():
    with RLOCK:
        STOPPED[0] = True
        for p in RUNNING:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass

def engine(tmp, e, tier, budget):
    out = tempfile.mktemp(dir=tmp, prefix='out'); b = os.path.basename(e['src'])[:-2]; jobs = e.get('jobs', 1)
    cmd = [SYMX, '%s/%s.bc' % (tmp, b), '--entry', e['entry'], '--jobs', str(jobs), '--out', out, '--time', str(budget), '--steps', str(e.get('steps', 20000000)), '--max-errors', str(e.get('max_errors', 1)), '--mem', str(e.get('mem', 3000))]
    for a in e.get('args', []): cmd += ['--arg', str(a)]
    t = time.time(); p = run_stoppable(cmd); res = {}
    for f in sorted(glob.glob(out + '*')):
        try: merge(res, json.load(open(f)))
        except Exception as x: res['bad'] = str(x)
        os.unlink(f)
    if STOPPED[0] and p.returncode == -9: res['stopped'] = True; res['incomplete'] = True; res['why'] = 'ended after a violation was found by another run'
    elif p.returncode or not res.get('paths') or res.get('bad'):
        res['engine_error'] = 'rc=%d %s %s' % (p.returncode, p.stderr[-500:], res.get('bad', ''))
    res['secs'] = time.time() - t
    return res

def load_known(pid):
    r = []
    try:
        for l in open(VERIF + '/known_findings.jsonl'):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get('property') == pid and k.get('status') == 'known': r.append(k)
    except FileNotFoundError: pass
    return r
def is_known(known, e, err):
    for k in known:
        if k.get('entry') and not re.fullmatch(k['entry'], e['entry']): continue
        if k.get('kind') and k['kind'] != err['kind']: continue
        if k.get('match') and not re.search(k['match'], err['msg'] + ' @ ' + err['stack']): continue
        return k
    return None

def main():
    import specs
    a = [x for x in sys.argv[1:] if not x.startswith('-')]; verbose = '-v' in sys.argv
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'); only = a[2] if len(a) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    total = float(os.environ.get('VERIF_BUDGET', '560' if tier == 'quick' else '6000'))
    spec = specs.SPECS[pid]
    entries = []
    for e in spec['entries']:
        if tier == 'quick' and e.get('tier') == 'thorough': continue
        if tier == 'thorough' and e.get('tier') == 'quick': continue
        if only and not re.fullmatch(only, e['entry']): continue
        e = dict(e); e['src'] = VERIF + '/harness/' + e.get('src', spec['src'])
        if tier == 'thorough' and 'thorough_args' in e: e['args'] = e['thorough_args']
        al = e.get('args', [])
        variants = e.get('variants_thorough' if tier == 'thorough' and 'variants_thorough' in e else 'variants')
        for v in (variants if variants else [al]): x = dict(e); x['args'] = list(v); entries.append(x)
    os.makedirs(VERIF + '/build', exist_ok=True); os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=VERIF + '/build')
    rc = 0; viol = []; unconf = []; knownhits = {}; results = []; rep_ok = 0; rep_done = []
    known = load_known(pid)
    try:
        try: build(tmp, sorted(set(e['src'] for e in entries)), spec.get('instr'))
        except BuildError as x:
            print('BUILD FAILED (no verdict)\n' + str(x)); evidence(pid, tier, seed, spec, [], [], [], 0, [], time.time() - t0, {'build_error': str(x)[:2000]}); return 2
        lock = threading.Condition(); free = [8]; stopflag = [False]
        order = sorted(entries, key=lambda e: -e.get('jobs', 1) * e.get('weight', 1))
        def one(e):
            nonlocal rep_ok
            res = engine(tmp, e, tier, min(e.get('time', total), max(5, total - (time.time() - t0))))
            res['e'] = e; conf = []
            for err in res.get('errors', []):
                k = is_known(known, e, err)
                st, info = replay(tmp, e['src'], e['entry'], e['args'], err['bytes'])
                err['replay'] = (st, info)
                if k: 
                    with lock: knownhits[k['id']] = k
                    continue
                if st: conf.append(err)
                else:
                    with lock: unconf.append((e, err))
            for s in res.get('samples', [])[:6]:
                st, info = replay(tmp, e['src'], e['entry'], e['args'], s['bytes'])
                if st: conf.append({'kind': 'native-disagreement', 'msg': info, 'stack': '', 'bytes': s['bytes'], 'names': s['names'], 'replay': (st, info)})
                else:
                    with lock: rep_ok += 1; rep_done.append((e['entry'], e['args'], s))
            with lock:
                results.append(res)
                for c in conf: viol.append((e, c))
                if conf: stopflag[0] = True
            if conf and not verbose: stop_others()
            if verbose: print('  %-28s %-12s paths=%-7s z3=%-5s q=%-7s %.1fs %s %s %s' % (e['entry'], e['args'], res.get('paths'), res.get('z3_calls'), res.get('queries'), res['secs'], 'INCOMPLETE ' + res.get('why', '') if res.get('incomplete') else '', res.get('reach'), res.get('engine_error', '')), flush=True)
        def worker(e):
            j = min(8, e.get('jobs', 1))
            try: one(e)
            finally:
                with lock: free[0] += j; lock.notify_all()
        ths = []
        for e in order:
            j = min(8, e.get('jobs', 1))
            with lock:
                while free[0] < j: lock.wait()
                if stopflag[0] and not verbose: break
                free[0] -= j
            t = threading.Thread(target=worker, args=(e,)); t.start(); ths.append(t)
        [t.join() for t in ths]
        rdir = VERIF + '/replays/' + pid; shutil.rmtree(rdir, ignore_errors=True)
        for k in knownhits.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        n = 0
        for e, c in viol[:8]:
            os.makedirs(rdir, exist_ok=True); n += 1
            base = '%s/%d-%s' % (rdir, n, e['entry'])
            shutil.copy('%s/%s.native' % (tmp, os.path.basename(e['src'])[:-2]), base + '.native')
            open(base + '.vals', 'w').write(' '.join(map(str, c['bytes'])) + '\n')
            open(base + '.txt', 'w').write('property %s entry %s args %s\nkind: %s\n%s\nstack: %s\nsymbolic inputs: %s\nbytes: %s\nas text: %r\nnative: %s\nreplay: %s.native %s.vals %s %s\n' % (pid, e['entry'], e['args'], c['kind'], c['msg'], c['stack'], ' '.join(c['names']), c['bytes'], bytes(c['bytes']), c['replay'], base, base, e['entry'], ' '.join(map(str, e['args']))))
            print('VIOLATION property=%s replay=%s.txt' % (pid, base)); print('   %s: %s\n   native: %s' % (c['kind'], c['msg'], c['replay'])); rc = 1
        for e, c in unconf: print('note: not reproduced natively, not reported: %s %s %s %s' % (e['entry'], c['kind'], c['msg'], c['stack'][:200]))
        for r in results:
            miss = [l for l in r['e'].get('reach', []) if not r.get('reach', {}).get(l)]
            if miss and not r.get('errors') and not r.get('stopped'): print('note: %s %s did not reach %s' % (r['e']['entry'], r['e']['args'], miss)); r['missed'] = miss
            if r.get('engine_error'): print('note: no verdict for %s %s: %s' % (r['e']['entry'], r['e']['args'], r['engine_error']))
            if r.get('incomplete') and not r.get('errors') and not r.get('stopped'): print('note: %s %s explored partially (%s)' % (r['e']['entry'], r['e']['args'], r.get('why')))
        evidence(pid, tier, seed, spec, results, viol, unconf, rep_ok, rep_done, time.time() - t0, {'known_findings': [k['id'] for k in knownhits.values()]})
        tot = sum(r.get('paths', 0) for r in results)
        print('%s %s: %d harness runs, %d paths, %d solver calls (%.1f s), %d native replays, %.1f s -> %s' % (pid, tier, len(results), tot, sum(r.get('z3_calls', 0) for r in results), sum(r.get('z3_time', 0) for r in results), rep_ok, time.time() - t0, 'VIOLATED' if rc else 'held'))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def evidence(pid, tier, seed, spec, results, viol, unconf, rep_ok, rep_done, wall, extra):
    fn = {}
    for r in results:
        for n, (c, t, fk) in r.get('_fn', {}).items(): o = fn.get(n, (0, t, 0)); fn[n] = (max(o[0], c), t, o[2] + fk)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    cov = {'states': tot('forks') + len(results), 'transitions': tot('steps'), 'traces_validated_against_impl': rep_ok,
        'samples': [{'entry': e, 'args': a, 'inputs': dict(zip(s['names'], s['bytes']))} for e, a, s in rep_done[:6]] or ['none'],
        'paths_completed': tot('paths'), 'assertions_evaluated': tot('asserts'), 'solver_queries': tot('queries'), 'solver_calls_z3': tot('z3_calls'), 'answered_from_query_cache': tot('cache_hits'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'), 'solver_time_s': round(tot('z3_time'), 3),
        'exhaustive_within_bounds': bool(results) and not any(r.get('incomplete') or r.get('engine_error') or r.get('missed') for r in results),
        'functions_encoded': {n: '%d/%d blocks' % (c, t) for n, (c, t, fk) in sorted(fn.items())},
        'harness_runs': [{'entry': r['e']['entry'], 'args': r['e']['args'], 'bounds': r['e'].get('bounds', ''), 'paths': r.get('paths', 0), 'complete': not (r.get('incomplete') or r.get('engine_error')), 'why_incomplete': r.get('why', '') or r.get('engine_error', ''), 'witnesses_reached': r.get('reach', {}), 'witnesses_missed': r.get('missed', []), 'wall_s': round(r['secs'], 2)} for r in results],
        'bounds': spec.get('bounds', ''), 'outside_the_claim': spec.get('outside', ''), 'violations': [{'entry': e['entry'], 'args': e['args'], 'kind': c['kind'], 'msg': c['msg'], 'stack': c['stack'], 'bytes': c['bytes'], 'replay': c['replay']} for e, c in viol], 'unconfirmed': [{'entry': e['entry'], 'kind': c['kind'], 'msg': c['msg'], 'stack': c['stack'], 'bytes': c['bytes']} for e, c in unconf]}
    cov.update(extra)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2)}, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())
