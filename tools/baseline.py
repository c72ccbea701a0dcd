"""calibration (not used by any check): baseline.py SEEDS ID..  - runs a monitor with seeds 1-3 and 101.. at the quick
tier and stores how many events exceed the tolerance and the powers of ten above it, per stratum and pooled"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, vbuild
from registry import CHECKS
seeds = int(sys.argv[1])
os.makedirs(os.path.join(V, 'tools', 'baseline'), exist_ok=True)
for pid in sys.argv[2:]:
    strata = {}
    for run in CHECKS[pid]['runs']:
        if run['variant'] != 'plain' or run.get('tier', 'quick') != 'quick':
            continue
        exe = vbuild.build(run['variant'], run['groups'], ['main.cpp'] + run['harness'])[0]
        for seed in [1, 2, 3][:seeds] + list(range(101, 98 + seeds)):
            m, problems = check.Merged(), []
            check.run_workload(run, exe, run['variant'], 'quick', seed, m, problems)
            if problems or m.viol:
                print(pid, seed, problems, list(m.viol)[:5])
            for k, s in m.strata.items():
                d = strata.setdefault(k, dict(n=0, bad=0, tol=-1, hist={}))
                d['n'] += s['n']; d['bad'] += s['bad']; d['tol'] = max(d['tol'], s['tol'])
                for b, n in s.get('hist', {}).items():
                    d['hist'][b] = d['hist'].get(b, 0) + n
    p = check.pools(strata)
    for v in p.values():
        v['ex'] = {k: n for k, n in v['ex'].items() if n}
    json.dump(dict(sorted(p.items())), open(os.path.join(V, 'tools', 'baseline', pid + '.json'), 'w'), indent=0, sort_keys=True)
    print(pid, len(strata), 'strata,', len(p), 'pools', flush=True)
