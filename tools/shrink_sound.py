#!/usr/bin/env python3
"""Drops random operations, faults and preemptions from passing plans: a plan
which holds must hold after every step the minimiser may take."""
import json, random, subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
from concurrent.futures import ThreadPoolExecutor
def one(prop, i, n):
    b = check.Bin(prop); bad = []; r = random.Random(i)
    for k in range(n):
        p = subprocess.run([b.path, 'plan', prop, str(r.getrandbits(60))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        p = json.loads(p)
        for rep in range(6):
            c = json.loads(json.dumps(p))
            def drop(l):
                for q in range(len(l) - 1, -1, -1):
                    if r.random() < 0.4: del l[q]
            if r.random() < .6: drop(c.get('faults', []))
            if check.OPS.get(prop) == 'together':
                for i in range(len(c['procs'][0]['ops']) - 1, -1, -1):
                    if r.random() < .4:
                        for x in c['procs']: del x['ops'][i]
            for x in c['procs']:
                if prop not in check.OPS and r.random() < .6: drop(x.get('ops', []))
                if r.random() < .6: drop(x.get('qs', []))
                if r.random() < .3: x['split'] = 0
            for x in c['phases']:
                if r.random() < .6: drop(x.get('preempt', []))
            res = b.batch(c)
            if res.get('viol') or res.get('error'): bad.append((res.get('error'), [v['key'] + ' ' + v['msg'][:200] for v in res['viol']], p['seed']))
    b.close()
    return bad
for prop in sys.argv[2:]:
    with ThreadPoolExecutor(8) as ex:
        bad = sum(ex.map(lambda i: one(prop, i, int(sys.argv[1])), range(8)), [])
    print(prop, len(bad), bad[:3])
