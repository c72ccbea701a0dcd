"""dev aid: calib.py ID [prefix] [scale] [seeds] - share of observations beyond the tolerance per stratum key, merged over seeds"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from registry import CHECKS
pid = sys.argv[1]
pre = sys.argv[2] if len(sys.argv) > 2 else ''
sc = float(sys.argv[3]) if len(sys.argv) > 3 else 5
seeds = int(sys.argv[4]) if len(sys.argv) > 4 else 1
V, S = {}, {}
for run in CHECKS[pid]['runs']:
    if run['variant'] != 'plain':
        continue
    exe = vbuild.build(run['variant'], run['groups'], ['main.cpp'] + run['harness'])[0]
    for seed in range(11, 11 + seeds):
        ps = [subprocess.Popen([exe, '--scale', str(sc * run.get('scale', 1)), '--seed', str(seed), '--cpu', '200', '--shard', '%d/8' % s] + run.get('args', []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for s in range(8)]
        for p in ps:
            for l in p.stdout.read().decode('utf8', 'replace').split('\n'):
                if not l.startswith('{'):
                    continue
                try: d = json.loads(l)
                except ValueError: continue
                if d['t'] == 'end':
                    for k, s in d['strata'].items():
                        m = S.setdefault(k, dict(n=0, bad=0, q=s['q'], hist={}))
                        m['n'] += s['n']; m['bad'] += s['bad']; m['q'] = s['q']
                        for b, n in s['hist'].items():
                            m['hist'][int(b)] = m['hist'].get(int(b), 0) + n
                    for k, n in d['viol'].items():
                        V[k] = V.get(k, 0) + n
                elif d['t'] == 'viol':
                    V.setdefault(k if False else d['key'], 0)
                elif d['t'] in ('crash', 'hang'):
                    print(d)
for k in sorted(V):
    print('VIOL', k, V[k])
G = {}
for k in S:
    if not k.startswith(pre): continue
    m = S[k]; h = m['hist']; a, _, b = k.partition(':')
    G.setdefault(a, []).append('%s %d/%d%s' % (b, m['bad'], m['n'], (' 1e%d' % sorted(h)[-1]) if h else ''))
for a in sorted(G):
    print('%-22s %s' % (a, ' | '.join(sorted(G[a]))))
