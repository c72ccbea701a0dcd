"""dev aid: rates.py ID [prefix] [minrate] - strata of the last evidence file, worst first"""
import json, sys, os
e = json.load(open(os.path.join(os.environ.get('VERIF_EVIDENCE', '/verif/evidence'), sys.argv[1] + '.json')))['coverage']['strata']
pre = sys.argv[2] if len(sys.argv) > 2 else ''
rows = []
for k, v in e.items():
    if not k.startswith(pre):
        continue
    a, rest = v.split('/', 1)
    n, lim = rest.split(' (limit ')
    rows.append((int(a) / float(lim[:-1]) if float(lim[:-1]) else (9 if int(a) else 0), k, int(a), int(n), lim[:-1]))
rows.sort(reverse=True)
for r in rows[:int(sys.argv[3]) if len(sys.argv) > 3 else 25]:
    print('%-42s %d/%d = %.4f  limit %s' % (r[1], r[2], r[3], r[2] / r[3], r[4]))
