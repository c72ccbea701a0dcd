"""setup_cmd: offline, builds the monitors once so that the checks start from a warm cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from registry import CHECKS
bad = 0
done = set()
for pid in sorted(CHECKS):
    for run in CHECKS[pid]['runs']:
        if run.get('tier') == 'thorough':
            continue
        key = (run['variant'], tuple(run['groups']), tuple(run['harness']))
        if key in done:
            continue
        done.add(key)
        try:
            exe, s, new, old = vbuild.build(run['variant'], run['groups'], ['main.cpp'] + run['harness'])
            print('%s %s: %.1fs, %d compiled, %d cached' % (pid, run['variant'], s, new, old), flush=True)
        except vbuild.BuildError as e:
            bad = 1
            print('%s: build failed\n%s' % (pid, str(e)[-1500:]), flush=True)
sys.exit(bad)
