"""Development aid (not used by any check): plant, confirm and try seeded changes in a scratch copy.
  seedtool.py new SPEC.py        create seeded/<id>/ from a spec (ID, PROP, EDITS, NEEDS, BREAKS, DEMO)
  seedtool.py verify ID..        build + stable tests + demo with and without the patch in /tmp/wt
  seedtool.py try ID.. [--checks P01,P02]   run the checks against the patched scratch copy
"""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt'
SH = '''#!/bin/bash
# run in the repository's directory after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/include" -I/usr/include/eigen3 -I/usr/include/eigen3/unsupported "$D/demo.cpp" -L"$PWD/_build/lib" -lopengv -lpthread -o "$T/demo" || exit 3
timeout 200 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    if not os.path.isdir(WT):
        sh('cp -a /repo ' + WT)
        for n in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % n).read().replace('/repo', WT).replace('/opt/vp/build.sh', '/tmp/wt_build.sh')
            open('/tmp/wt_%s.sh' % n, 'w').write(t)
        sh('rm -r /tmp/wt/_build')
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (WT, WT, WT))


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        fresh()
        for f, a, b in s['edits']:
            p = os.path.join(WT, f)
            t = open(p).read()
            assert t.count(a) >= 1, (s['id'], f, 'not found', a)
            assert t.count(a) == 1, (s['id'], f, 'ambiguous', t.count(a))
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', '-C', WT, 'diff'], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(s.get('sh', SH))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('created', s['id'])
    sh('git -C %s checkout -q -- .' % WT)


def demo(i):
    r = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=WT)
    return r.returncode, r.stdout.decode('utf8', 'replace')[-400:]


def verify(ids):
    fresh()
    print('build', sh('bash /tmp/wt_build.sh').returncode)
    for i in ids:
        print(i, 'unchanged:', demo(i))
    for i in ids:
        r = sh('git -C %s apply %s/seeded/%s/patch.diff' % (WT, V, i))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout.decode())
            continue
        r = sh('bash /tmp/wt_test.sh /tmp/wt_o.json')
        o = json.load(open('/tmp/wt_o.json'))
        print(i, 'patched: %d passed, failed %s;' % (len(o['passed']), o['failed']), 'demo', demo(i), flush=True)
        sh('git -C %s checkout -q -- .' % WT)


def tryit(ids, checks):
    fresh()
    env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD='/tmp/wtb', VERIF_EVIDENCE='/tmp/wte')
    for i in ids:
        prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        if sh('git -C %s apply %s/seeded/%s/patch.diff' % (WT, V, i)).returncode:
            print(i, 'DOES NOT APPLY')
            continue
        for c in (checks or [prop]):
            r = sh('python3 %s/check.py %s' % (V, c), env=env)
            out = r.stdout.decode('utf8', 'replace')
            v = [l.strip()[:150] for l in out.split('\n') if re.match(r'  \S+ \(\d+\):', l)]
            print('%s  %s -> exit %d  %s' % (i, c, r.returncode, (v[:2] or out[-200:])), flush=True)
        sh('git -C %s checkout -q -- .' % WT)


if __name__ == '__main__':
    a = sys.argv[2:]
    ch = None
    if '--checks' in a:
        k = a.index('--checks')
        ch = a[k + 1].split(',')
        del a[k:k + 2]
    if a == ['all']:
        a = sorted(os.listdir(V + '/seeded'))
    {'new': lambda: new(a[0]), 'verify': lambda: verify(a), 'try': lambda: tryit(a, ch)}[sys.argv[1]]()
