#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the library from /repo's current working tree together with the monitor
of one property, runs the monitor's workload in parallel shards, merges what the
monitors observed, writes evidence/<ID>.json and decides:
  exit 0  the property held on everything observed (known findings are printed)
  exit 1  a violation that known_findings.txt does not list
  exit 2  no verdict (build failure, watchdog): never folded into either verdict
"""
import argparse, fnmatch, json, math, os, re, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
import vbuild
from registry import CHECKS, RULES

SAN_ENV = {
    'asan': {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_segv=1',
             'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'},
    'tsan': {'TSAN_OPTIONS': 'halt_on_error=0:report_signal_unsafe=0:exitcode=0:second_deadlock_stack=1'},
    'msan': {'MSAN_OPTIONS': 'abort_on_error=1:halt_on_error=1'},
}


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m:
                out.append(m.groups())
    return out


class Merged:
    def __init__(self):
        self.evals = self.distinct = 0
        self.counts, self.maxi, self.strata, self.viol = {}, {}, {}, {}
        self.samples = []
        self.ended = 0

    def add(self, o):
        self.ended += 1
        self.evals += o['evals']
        self.distinct += o['distinct']
        for k, n in o['counts'].items():
            self.counts[k] = self.counts.get(k, 0) + n
        for k, n in o['max'].items():
            self.maxi[k] = max(self.maxi.get(k, n), n)
        for k, n in o['viol'].items():
            self.violation(k, None, n)
        for k, s in o['strata'].items():
            m = self.strata.setdefault(k, dict(n=0, bad=0, q=s['q'], tol=s.get('tol', -1), ex='', stratum='', case=-1))
            m['tol'] = max(m['tol'], s.get('tol', -1))
            if s['bad'] and not m['bad']:
                m.update(ex=s['ex'], stratum=s['stratum'], case=s['case'])
            m['n'] += s['n']
            for b, n in s.get('hist', {}).items():
                m.setdefault('hist', {})[int(b)] = m.setdefault('hist', {}).get(int(b), 0) + n
            m['bad'] += s['bad']
        self.samples += o['samples']

    def violation(self, key, rec, n=0):
        v = self.viol.setdefault(key, dict(n=0, recs=[]))
        v['n'] += n
        if rec is not None and len(v['recs']) < 6:
            v['recs'].append(rec)


def limit_for(n, q):
    """bad events tolerated among n when the property bounds their share by q"""
    if q <= 0:
        return 0
    return q * n + 3.0 * math.sqrt(q * n) + 1.0


def exceed(hist, bad, tol):
    """events worse than the tolerance, and worse than each power of ten from 1e-7 on"""
    out = {'bad': bad}
    if tol > 0:
        for k in range(-7, 4):
            out['1e%d' % k] = sum(n for b, n in hist.items() if b >= k)
        out['nan'] = hist.get(99, 0)
    return out


def pools(strata):
    """every stratum, and all strata of the same quantity together"""
    out = {}
    for k, s in strata.items():
        for name in {k, k.split('/')[0] + '/*'}:
            p = out.setdefault(name, dict(n=0, ex={}, tol=-1))
            p['tol'] = max(p['tol'], s['tol'])
            p['n'] += s['n']
            for d, n in exceed(s.get('hist', {}), s['bad'], s['tol']).items():
                p['ex'][d] = p['ex'].get(d, 0) + n
    return out


def baseline_limit(n, n0, ex0, factor):
    """events among n tolerated if ex0 of n0 were observed during calibration on correct code"""
    q = factor * (ex0 + 2.0) / n0
    return q * n + 4.0 * math.sqrt(q * n) + 3.0


def drifted(pid, tier, strata):
    p = os.path.join(VERIF, 'tools', 'baseline', pid + '.json')
    if not os.path.exists(p):
        return
    base = json.load(open(p))
    for name, s in sorted(pools(strata).items()):
        b = base.get(name)
        if b is None or s['n'] == 0:
            continue
        slack = 1.0 if tier == 'quick' else 1.5
        for d, n in s['ex'].items():
            # shares of errors that are within the tolerance are only compared coarsely
            within = d.startswith('1e') and float(d) < s['tol'] * 5
            lim = slack * baseline_limit(s['n'], b['n'], b['ex'].get(d, 0), 2.5 if within else 1.5)
            if n > lim:
                yield name, d, n, s['n'], lim
                break


def tail(path, n=6000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - n))
            return f.read().decode('utf8', 'replace')
    except OSError:
        return ''


def san_site(text):
    """stable description of a sanitizer / assertion report: kind and first library frame"""
    kind = ''
    m = re.search(r'(AddressSanitizer|MemorySanitizer|ThreadSanitizer): ([a-zA-Z-]+)', text)
    if m:
        kind = m.group(2)
    m2 = re.search(r'runtime error: (.*)', text)
    if m2:
        kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m2.group(1))[:80]
    m3 = re.search(r"Assertion [`'](.*?)' failed", text)
    if m3 and not kind:
        kind = 'assert'
    site = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)', text):
        if vbuild.REPO + '/' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1))
            site = fn.split('::')[-1]
            break
    return re.sub(r'\s+', '_', (kind + '@' + site) if site else (kind or 'signal'))


def run_one(exe, base, extra, env, wall, merged, lock, state, shard, tmpdir):
    outp = os.path.join(tmpdir, 'o%d' % shard)
    errp = os.path.join(tmpdir, 'e%d' % shard)
    with open(outp, 'wb') as o, open(errp, 'wb') as e:
        try:
            r = subprocess.run([exe] + base + extra, stdout=o, stderr=e, env=env, timeout=wall)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    ended = False
    dead = None
    with lock:
        for line in open(outp, 'rb'):
            line = line.decode('utf8', 'replace').strip()
            if not line.startswith('{'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('t') == 'viol':
                merged.violation(d['key'], d)
            elif d.get('t') == 'end':
                merged.add(d)
                ended = True
            elif d.get('t') in ('crash', 'hang'):
                dead = d
        if not ended:
            state.append(dict(rc=rc, dead=dead, shard=shard, err=tail(errp, 20000)))
        err = tail(errp, 400000)
        if 'WARNING: ThreadSanitizer' in err:
            for rep in err.split('WARNING: ThreadSanitizer')[1:]:
                kind = rep.split('(')[0].strip(': ').split('\n')[0].strip().replace(' ', '_')
                site = san_site('#0 0x0 in x /x:0\n' + rep).split('@')[-1]
                merged.violation('tsan:%s@%s' % (kind, site), dict(msg=rep[:1500], stratum='', case=-1), 1)


def run_workload(spec, exe, variant, tier, seed, merged, problems):
    shards = spec.get('shards', vbuild.JOBS)
    env = dict(os.environ)
    env.update(SAN_ENV.get(variant, {}))
    cpu = spec.get('cpu', 40)
    wall = spec.get('wall', 600 if tier == 'quick' else 7200)
    base = ['--tier', tier, '--seed', str(seed), '--cpu', str(cpu)] + spec.get('args', [])
    if variant in SAN_ENV:
        base.append('--sani')
    if 'scale' in spec:
        base += ['--scale', str(spec['scale'])]
    lock = threading.Lock()
    state = []
    with tempfile.TemporaryDirectory(prefix='vchk') as td:
        ths = []
        for s in range(shards):
            t = threading.Thread(target=run_one, args=(exe, base, ['--shard', '%d/%d' % (s, shards)], env, wall,
                                                       merged, lock, state, s, td))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        for st in state:
            d = st['dead']
            if d is None:
                # sanitizer killed it without a breadcrumb, or something outside the property
                if st['rc'] == 'timeout':
                    problems.append('shard %d reached the wall-clock watchdog (%ds)' % (st['shard'], wall))
                elif isinstance(st['rc'], int) and ('Sanitizer' in st['err'] or 'runtime error' in st['err']):
                    merged.violation('%s:%s' % (variant, san_site(st['err'])), dict(msg=st['err'][-3000:], stratum='', case=-1), 1)
                else:
                    problems.append('shard %d ended with %r: %s' % (st['shard'], st['rc'], st['err'][-600:]))
                continue
            # re-run the single case alone (hang: with four times the budget) before believing it
            one = list(base)
            if d['t'] == 'hang':
                one[one.index('--cpu') + 1] = str(cpu * 3)
            m2, st2 = Merged(), []
            run_one(exe, one, ['--only', d['stratum'], '--case', str(d['case'])], env, cpu * 20 + 120, m2, lock, st2, 99, td)
            if not st2 and d['t'] == 'crash':
                # a crash that depends on what ran before (uninitialised memory, say) is still a crash of the real code
                merged.violation('crash:%s:%s' % (san_site(st['err']), d['stratum']),
                                 dict(msg='crash (only after the preceding cases of its shard); ' + st['err'][-2500:], stratum=d['stratum'], case=-1), 1)
            elif not st2:
                problems.append('%s in case %s/%s did not repeat alone' % (d['t'], d['stratum'], d['case']))
            elif st2[0]['dead'] is None and st2[0]['rc'] == 'timeout':
                problems.append('case %s/%s: wall-clock watchdog' % (d['stratum'], d['case']))
            else:
                kind = st2[0]['dead']['t'] if st2[0]['dead'] else 'crash'
                site = '' if kind == 'hang' else ':' + san_site(st2[0]['err'])
                merged.violation('%s%s:%s' % (kind, site, d['stratum']),
                                 dict(msg='%s in a library call; %s' % (kind, st2[0]['err'][-2500:]), stratum=d['stratum'], case=d['case']), 1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    spec = CHECKS[pid]
    merged, problems, builds = Merged(), [], []
    only = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.tier = rep['seed'], rep['tier']
        only = rep
    for run in spec['runs']:
        if run.get('tier') and run['tier'] != a.tier:
            continue
        if only and run['variant'] != only.get('variant', run['variant']):
            continue
        try:
            exe, secs, new, old = vbuild.build(run['variant'], run['groups'], ['main.cpp'] + run['harness'])
        except vbuild.BuildError as e:
            print('BUILD FAILED (no verdict)\n' + str(e))
            return 2
        builds.append(dict(variant=run['variant'], seconds=round(secs, 1), compiled=new, cached=old))
        r = dict(run)
        if only and only.get('stratum'):
            r['args'] = r.get('args', []) + ['--only', only['stratum'], '--case', str(only['case'])]
            r['shards'] = 1
        before = dict(merged.viol)
        run_workload(r, exe, run['variant'], a.tier, a.seed, merged, problems)
        for k in merged.viol:
            if k not in before:
                merged.viol[k]['variant'] = run['variant']
    # strata -> violations
    rates = {}
    for k, s in sorted(merged.strata.items()):
        lim = limit_for(s['n'], s['q'])
        rates[k] = '%d/%d (limit %.4g)' % (s['bad'], s['n'], lim)
        if s['bad'] > lim and not (only and only.get('stratum')):
            merged.violation('rate:' + k, dict(
                msg='%d of %d events of this stratum break the property (at most %.1f tolerated); first: %s' % (s['bad'], s['n'], lim, s['ex']),
                stratum=s['stratum'], case=s['case']), s['bad'])
        elif only and s['bad']:
            merged.violation('rate:' + k, dict(msg=s['ex'], stratum=s['stratum'], case=s['case']), s['bad'])
    # the share of large errors against the share calibrated on correct code
    if not only:
        for name, d, n, tot, lim in drifted(pid, a.tier, merged.strata):
            ex = next((s for k, s in sorted(merged.strata.items()) if (k == name or k.split('/')[0] + '/*' == name) and s['bad']), None)
            merged.violation('share:%s@%s' % (name, d), dict(
                msg='%d of %d events are worse than %s (at most %.1f expected); first: %s' % (
                    n, tot, 'tolerated' if d == 'bad' else d, lim, ex['ex'] if ex else ''),
                stratum=ex['stratum'] if ex else '', case=ex['case'] if ex else -1), n)
    wall = time.time() - t0
    known = [(k, w) for p, k, w in known_findings() if p == pid]
    new, seen = [], {}
    for key in sorted(merged.viol):
        hit = [(k, w) for k, w in known if fnmatch.fnmatchcase(key, k)]
        if hit:
            seen[hit[0]] = seen.get(hit[0], 0) + max(1, merged.viol[key]['n'])
        else:
            new.append(key)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=spec.get('level', 'exploration'),
              coverage=dict(evaluations=merged.evals, distinct_nontrivial=merged.distinct,
                            rule=RULES.get(pid, spec.get('rule', '')), samples=sorted(set(merged.samples))[:24] or ['(none)'],
                            observed=merged.counts, worst=merged.maxi, strata=rates, builds=builds,
                            known_findings_seen={k: n for (k, _), n in seen.items()}),
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    if not a.replay:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for (k, w), n in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s [%s, %d observed]' % (pid, w, k, n))
    if new:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        for key in new:
            v = merged.viol[key]
            rec = v['recs'][0] if v['recs'] else dict(msg='', stratum='', case=-1)
            path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:100]))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, key=key, count=v['n'], tier=a.tier, seed=a.seed, stratum=rec.get('stratum', ''),
                               case=rec.get('case', -1), variant=v.get('variant', spec['runs'][0]['variant']),
                               records=v['recs'],
                               how='python3 %s/check.py %s --replay %s' % (VERIF, pid, path)), f, indent=1)
            print('  %s (%d): %s' % (key, v['n'], rec.get('msg', '')[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%s %s seed=%d: %d evaluations, %d distinct, %d strata, %d violations, %.1fs (build %s)' % (
        pid, a.tier, a.seed, merged.evals, merged.distinct, len(rates), len(new), wall,
        '+'.join('%.0fs' % b['seconds'] for b in builds)))
    if a.verbose:
        for k, s in sorted(merged.strata.items()):
            lim = limit_for(s['n'], s['q'])
            if a.all or s['bad'] > 0.4 * lim or s['q'] > 8.0 * max(s['bad'], 3) / s['n']:
                h = sorted(s.get('hist', {}).items())
                print('%-40s %d/%d q=%g lim=%.1f  %s' % (k, s['bad'], s['n'], s['q'], lim, ' '.join('%s:%d' % (b if b < 90 else 'nan', n) for b, n in h[-9:])))
        print(json.dumps(dict(counts=merged.counts, maxi=merged.maxi)))
    vbuild.prune()
    if new:
        return 1
    if problems:
        print('NO VERDICT: ' + ' | '.join(problems))
        return 2
    if merged.ended == 0 or merged.evals == 0:
        print('NO VERDICT: nothing was observed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
