#!/usr/bin/env python3
"""Assembles DESIGN.md: design/head.md + one section per property (how it is decided, bounds from specs.py, cost from design/cost.json) + findings + design/tail.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from specs import SPECS
how = {}
cur = None
for l in open(R + '/design/how.md'):
    if l.startswith('## '): cur = l[3:].strip(); how[cur] = ''
    elif cur: how[cur] += l
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
cost = json.load(open(R + '/design/cost.json')) if os.path.exists(R + '/design/cost.json') else {}
if '--cost' in sys.argv:   # refresh from the evidence of the last run
    for p in P:
        f = R + '/evidence/%s.json' % p['id']
        if os.path.exists(f):
            e = json.load(open(f))
            if e.get('tier') != 'quick': continue
            c = e.get('coverage', e)
            cost[p['id']] = [c.get('paths_completed'), c.get('assertions_evaluated'), c.get('solver_queries'), c.get('solver_calls_z3'), round(c.get('solver_time_s') or 0), round(e.get('wall_s') or 0)]
    json.dump(cost, open(R + '/design/cost.json', 'w'), indent=0)
o = open(R + '/design/head.md').read().rstrip() + '\n\n# Properties\n\n'
for p in P:
    s = SPECS[p['id']]; o += '## %s %s\n\n' % (p['id'], p['title'])
    o += how.get(p['id'], '').strip() + '\n\n'
    o += 'Bounds: %s.\n\nOutside: %s.\n\n' % (s['bounds'].rstrip('.'), s['outside'].rstrip('.'))
    if cost.get(p['id']): o += 'Cost (quick tier, 8 cores): %s paths, %s assertions evaluated, %s feasibility queries of which %s went to z3 (%s s of solver time); %s s of wall time.\n\n' % tuple(cost[p['id']])
o += '# Genuine defects found\n\nAll were repaired with minimal `fix:` commits (known_findings.jsonl); none is left as a known finding.\n\n'
for l in open(R + '/known_findings.jsonl'):
    d = json.loads(l); o += '- %s %s: %s\n' % (d['property'], d.get('commit', ''), d['what'])
t = open(R + '/design/tail.md').read(); c = '| bug | property | what it breaks | caught |\n|---|---|---|---|\n'
for l in open(R + '/design/catch.txt'):
    i, pr, y = l.strip().split(' ', 2)
    m = json.load(open(R + '/seeded/%s/meta.json' % i)) if os.path.exists(R + '/seeded/%s/meta.json' % i) else {}
    c += '| %s | %s | %s | %s |\n' % (i, pr, m.get('what_it_breaks', ''), y)
o += '\n' + t.replace('@CATCH@', c.rstrip()).replace('@MUT@', open(R + '/design/mut.txt').read().strip())
open(R + '/DESIGN.md', 'w').write(o)
