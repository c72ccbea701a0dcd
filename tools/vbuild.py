"""Builds OpenGV (from /repo's current working tree) plus one monitor.

Objects are cached in /verif/build (ignored by git) under a hash of the flags,
the source bytes and every header of the repository, so a stale object can
never be linked.  Nothing is written in /repo.
"""
import glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')
JOBS = max(2, min(8, os.cpu_count() or 8))

INC = ['-I' + REPO + '/include', '-I/usr/include/eigen3', '-I/usr/include/eigen3/unsupported', '-I' + H]
COMMON = ['-std=c++17', '-fPIC', '-w']
VARIANTS = {
    # Eigen's assertions stay on (no NDEBUG), as in the repository's own test build
    'plain': dict(flags=['-O1'], link=[]),
    # UBSan without the pointer checks that ASan or Eigen's own assertions cover (they quadruple the build time)
    'asan': dict(flags=['-O1', '-DVF_CONTAINER_ASSERTIONS', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,shift,signed-integer-overflow,'
                        'integer-divide-by-zero,float-cast-overflow,bool,enum,return,unreachable', '-fno-sanitize-recover=all'],
                 link=['-fsanitize=address,undefined']),
    'asanfull': dict(flags=['-O1', '-DVF_CONTAINER_ASSERTIONS', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                            '-fno-sanitize-recover=all'], link=['-fsanitize=address,undefined']),
    # for valgrind: optimised little, line tables, no instrumentation of its own
    'vg': dict(flags=['-O1', '-g1'], link=[]),
    'tsan': dict(flags=['-O1', '-g1', '-fsanitize=thread'], link=['-fsanitize=thread']),
    'msan': dict(flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory'], link=['-fsanitize=memory']),
    'cov': dict(flags=['-O1', '-fprofile-instr-generate', '-fcoverage-mapping'],
                link=['-fprofile-instr-generate']),
}
GROUPS = {
    'math': ['src/math/*.cpp'],
    'adapters': ['src/absolute_pose/*Adapter.cpp', 'src/absolute_pose/MA*.cpp', 'src/relative_pose/*Adapter.cpp',
                 'src/relative_pose/MA*.cpp', 'src/point_cloud/*Adapter.cpp', 'src/point_cloud/MA*.cpp'],
    'triangulation': ['src/triangulation/*.cpp'],
    'point_cloud': ['src/point_cloud/*.cpp'],
    'absolute': ['src/absolute_pose/*.cpp', 'src/absolute_pose/**/*.cpp'],
    'relative': ['src/relative_pose/*.cpp', 'src/relative_pose/**/*.cpp'],
    'all': ['src/**/*.cpp'],
}
# rough single-thread compile cost (s), only used to start the long ones first
COST = {'modules/sixpt/modules2.cpp': 19, 'absolute_pose/methods.cpp': 18, 'relative_pose/methods.cpp': 18,
        'absolute_pose/modules/main.cpp': 15, 'upnp2.cpp': 12, 'relative_pose/modules/main.cpp': 11,
        'fivept_nister/modules.cpp': 11, 'fivept_kneip/code.cpp': 10, 'point_cloud/methods.cpp': 10,
        'upnp4.cpp': 7, 'RelativePoseSacProblem.cpp': 6, 'ge/modules.cpp': 5}


class BuildError(Exception):
    pass


SRC = ('.hpp', '.h', '.hh', '.ipp', '.inl', '.tcc', '.cpp', '.cc', '.cxx', '.c')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(root, exts=('.hpp', '.h', '.hh', '.ipp', '.inl', '.tcc')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in glob.glob(os.path.join(REPO, pat), recursive=True):
                if f not in out:
                    out.append(f)
    return sorted(out)


def cost(src):
    for k, v in COST.items():
        if src.endswith(k):
            return v
    return os.path.getsize(src) / 40000.0


def build(variant, groups, harness, log=None):
    """returns (path of the linked monitor, seconds, compiled, cached)"""
    t0 = time.time()
    v = VARIANTS[variant]
    flags = COMMON + v['flags'] + INC
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    cxx = 'clang++'
    sysid = sha(' '.join(flags), run([cxx, '--version'])[1])
    hh = sha(sysid, tree_hash(os.path.join(REPO, 'include')), tree_hash(os.path.join(REPO, 'src')))
    vh = sha(hh, tree_hash(H))
    pch = os.path.join(bd, 'pre-%s.pch' % sha(sysid, read(os.path.join(H, 'pre.hpp'))))
    if not os.path.exists(pch):
        tmp = pch + '.%d' % os.getpid()
        rc, o = run([cxx] + flags + ['-x', 'c++-header', os.path.join(H, 'pre.hpp'), '-o', tmp])
        if rc:
            raise BuildError(o[-4000:])
        os.replace(tmp, pch)
    exth = read(os.path.join(H, 'ext.hpp'))
    jobs = []   # (cost, obj, cmd)
    objs = []
    use_ext = bool(set(groups) & {'absolute', 'relative', 'point_cloud', 'all'})
    inc_ext = ['-include', os.path.join(H, 'ext.hpp')] if use_ext else []
    for k in range(1, 9 if use_ext else 1):
        o = os.path.join(bd, 'e-%s.o' % sha(sysid, exth, str(k)))
        objs.append(o)
        jobs.append((10.0, o, [cxx] + flags + ['-include-pch', pch, '-DVF_X=', '-DVF_PART=%d' % k, '-x', 'c++',
                                             '-c', os.path.join(H, 'ext.hpp')]))
    for s in sources(groups):
        o = os.path.join(bd, 's-%s.o' % sha(hh, exth if use_ext else b'', os.path.relpath(s, REPO), read(s)))
        objs.append(o)
        jobs.append((cost(s), o, [cxx] + flags + ['-include-pch', pch] + inc_ext + ['-c', s]))
    for s in harness:
        p = os.path.join(H, s)
        # g_*.cpp compiles a binding of the repository against the stand-ins of harness/stubs
        binding = s.startswith('g_')
        bh = tree_hash(os.path.join(REPO, 'matlab'), SRC) + tree_hash(os.path.join(REPO, 'python'), SRC) if binding else ''
        o = os.path.join(bd, 'h-%s.o' % sha(vh, s, read(p), exth if use_ext else b'', bh))
        objs.append(o)
        jobs.append((12.0, o, [cxx] + flags + (['-I' + os.path.join(H, 'stubs'), '-O2', '-D_GLIBCXX_ASSERTIONS'] if binding
                                               else ['-include-pch', pch] + inc_ext) + ['-c', p]))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    for j in jobs:
        if os.path.exists(j[1]):
            os.utime(j[1])
    todo.sort(key=lambda j: -j[0])

    def one(j):
        tmp = j[1] + '.%d.tmp' % os.getpid()
        t = time.time()
        rc, o = run(j[2] + ['-o', tmp])
        if rc == 0:
            os.replace(tmp, j[1])
        return rc, o, j, time.time() - t
    err = None
    with ThreadPoolExecutor(JOBS) as ex:
        for rc, o, j, dt in ex.map(one, todo):
            if log is not None:
                log.append((dt, j[2][-1]))
            if rc and err is None:
                err = (' '.join(j[2][-1:]) + '\n' + o)[-6000:]
    if err:
        raise BuildError(err)
    exe = os.path.join(bd, 'x-%s' % sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        rsp = tmp + '.rsp'
        with open(rsp, 'w') as f:
            f.write('\n'.join(objs))
        rc, o = run([cxx] + v['flags'] + v['link'] + ['-fuse-ld=lld', '@' + rsp, '-lpthread', '-o', tmp])
        if rc:
            rc, o = run([cxx] + v['flags'] + v['link'] + ['@' + rsp, '-lpthread', '-o', tmp])
        os.unlink(rsp)
        if rc:
            raise BuildError(o[-6000:])
        os.replace(tmp, exe)
    return exe, time.time() - t0, len(todo), len(jobs) - len(todo)


def prune(limit=6 << 30):
    """keep the cache bounded"""
    fs = []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass
