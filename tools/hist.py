"""dev aid: run a monitor's shards and print the error histograms: hist.py ID prefix [scale] [seed]"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from registry import CHECKS
pid, pre = sys.argv[1], sys.argv[2]
sc = sys.argv[3] if len(sys.argv) > 3 else '1'
seed = sys.argv[4] if len(sys.argv) > 4 else '1'
run = CHECKS[pid]['runs'][0]
exe = vbuild.build(run['variant'], run['groups'], ['main.cpp'] + run['harness'])[0]
ps = [subprocess.Popen([exe, '--scale', sc, '--seed', seed, '--cpu', '100', '--shard', '%d/8' % s] + run.get('args', []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for s in range(8)]
H = {}
for p in ps:
    for l in p.stdout.read().decode('utf8', 'replace').split('\n'):
        if l.startswith('{"t":"end"'):
            for k, s in json.loads(l)['strata'].items():
                if k.startswith(pre):
                    m = H.setdefault(k, {})
                    for b, n in s['hist'].items():
                        m[int(b)] = m.get(int(b), 0) + n
for k in sorted(H):
    n = sum(H[k].values())
    print('%-30s n=%-6d %s' % (k, n, ' '.join('%s:%.4g' % (b if b < 90 else 'nan', sum(v for c, v in H[k].items() if c >= b) / n) for b in sorted(H[k]) if b >= -7)))
