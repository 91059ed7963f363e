"""Driver of the checks: builds harnesses from /repo's working tree, runs the shards,
replays what they report, compares with the known findings and writes the evidence."""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCPU = max(2, min(8, os.cpu_count() or 2))
LIBDIRS = ['', 'mpi', 'fftw', 'signal', 'parallel']
LIBS = ['-lfftw3f', '-lfftw3', '-lopenblas']
BASE = ['-std=gnu++14', '-pthread', '-w', '-fno-diagnostics-color']
INC = ['-I%s/fakempi' % VERIF, '-I%s/src' % REPO, '-I%s/support/include' % VERIF,
       '-I%s/lib' % VERIF, '-I%s/harness' % VERIF]


# the thread model checker: code under test is instrumented, its runtime (sched/) is not
MCT_WRAP = ['-Wl,' + ','.join('--wrap=' + w for w in (
    'malloc free calloc realloc posix_memalign aligned_alloc memcpy memmove memset pthread_mutex_lock '
    'pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_wrlock pthread_rwlock_rdlock '
    'pthread_rwlock_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_once').split())]
MCT_FLAGS = ['-fsanitize=thread', '-fno-builtin-memcpy', '-fno-builtin-memset', '-I%s/sched' % VERIF]


PYFLAGS = ['-I%s/python/src' % REPO, '-I/usr/include/python3.12',
           '-I/usr/lib/python3/dist-packages/numpy/core/include']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:32]


_fhash = {}


def fhash(path):
    if path not in _fhash:
        try:
            with open(path, 'rb') as f:
                _fhash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fhash[path] = 'missing'
    return _fhash[path]


def compile_one(src, flags):
    """Compile src, reusing an object only if the command and the content of every file
    the compiler read are the same."""
    cmd = ['g++'] + flags + ['-c', src]
    key = sha(' '.join(cmd))
    base = os.path.join(BUILD, 'obj', key)
    obj, dep, man = base + '.o', base + '.d', base + '.json'
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if all(fhash(p) == h for p, h in m.items()):
                return obj
        except ValueError:
            pass
    tmp = '%s.%d.o' % (base, os.getpid())
    tdep = '%s.%d.d' % (base, os.getpid())
    r = subprocess.run(cmd + ['-MD', '-MF', tdep, '-o', tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    txt = open(tdep).read().split(':', 1)[1].replace('\\\n', ' ')
    deps = {p: fhash(p) for p in txt.split()}
    os.replace(tmp, obj)
    os.unlink(tdep)
    json.dump(deps, open(man + '.%d' % os.getpid(), 'w'))
    os.replace(man + '.%d' % os.getpid(), man)
    return obj


def lib_sources():
    out = []
    for d in LIBDIRS:
        for f in sorted(glob.glob(os.path.join(REPO, 'src/ovxx', d, '*.cpp'))):
            if os.path.basename(f) in ('check_config.cpp', 'fftw.cpp', 'huge_page_allocator.cpp'):
                continue
            out.append(f)
    out += sorted(glob.glob(os.path.join(REPO, 'src/vsip', '*.cpp')))
    return out


class Prog:
    """One harness executable.
    kind: 'mc' (sequential enumerator), 'fake' (scheduled MPI model)
    runs: list of (label, [args]) ; each is run over `shards` shards
    """

    def __init__(self, name, srcs, kind='mc', flags=(), runs=None, shards=NCPU, lib=True,
                 ldflags=(), asan=False, opt='-O1', thorough_runs=None, libs=None, incs=(),
                 libflags=(), budget=None, nofake=False, modules=()):
        self.name, self.srcs, self.kind = name, list(srcs), kind
        self.flags = list(flags)
        self.runs = runs or [('', [])]
        self.thorough_runs = thorough_runs
        self.shards, self.lib, self.ldflags = shards, lib, list(ldflags)
        self.asan, self.opt = asan, opt
        self.incs = list(incs)
        self.libflags = list(libflags)
        self.libs = LIBS if libs is None else libs
        self.budget = budget or {}
        self.nofake = nofake
        self.modules = list(modules)     # extension modules of the Python bindings (python/src/*.cpp)
        if self.modules:
            self.flags += PYFLAGS + ['-DSCRIPT_DIR="%s/harness"' % VERIF]
            self.libflags = ['-fPIC'] + self.libflags
        if kind == 'mct':
            self.nofake = True
            self.flags = MCT_FLAGS + self.flags
            self.libflags = MCT_FLAGS + self.libflags
            self.ldflags = MCT_WRAP + self.ldflags

    def cflags(self):
        f = [self.opt] + BASE
        if self.asan:
            f += ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1']
        return f + self.incs + INC

    def units(self):
        u = []
        for s in self.srcs:
            fl = self.flags
            if isinstance(s, tuple):
                s, extra = s
                fl = fl + list(extra)
            u.append((os.path.join(VERIF, s), self.cflags() + fl))
        if self.kind == 'mct':
            for c in ('mct', 'mpistub'):
                u.append((os.path.join(VERIF, 'sched', c + '.cpp'),
                          ['-O2', '-std=c++17', '-pthread', '-w', '-I%s/sched' % VERIF, '-I%s/fakempi' % VERIF]))
        if self.lib:
            libs = lib_sources() if self.lib is True else \
                [os.path.join(REPO, 'src', s) for s in self.lib]
            for s in libs:
                u.append((s, self.cflags() + self.libflags))
            if not self.nofake:
                u.append((os.path.join(VERIF, 'fakempi/fakempi.cpp'),
                          ['-O2', '-std=c++17', '-pthread', '-w', '-I%s/fakempi' % VERIF]))
            if self.modules:
                u[-1][1].append('-fPIC')
        for m in self.modules:
            u.append((os.path.join(REPO, 'python/src', m), ['-O0'] + self.cflags()[1:] + ['-fPIC'] + PYFLAGS))
        return u

    def link_modules(self, objs, out):
        """libovxx.so, one shared object per extension module, and the harness embedding Python."""
        n, k = len(self.srcs), len(self.modules)
        mods = out + '_mods'
        os.makedirs(mods)
        lib = os.path.join(mods, 'libovxx.so')
        cmds = [['g++', '-shared', '-pthread', '-o', lib] + objs[n:len(objs) - k] + self.libs]
        for m, o in zip(self.modules, objs[len(objs) - k:]):
            d = os.path.join(mods, m[:-4] + '.so')
            os.makedirs(os.path.dirname(d), exist_ok=True)
            cmds.append(['g++', '-shared', '-pthread', '-o', d, o, lib, '-Wl,-rpath,' + mods, '-lboost_python312'] + self.libs)
        cmds.append(['g++', '-pthread', '-o', out] + objs[:n] + self.ldflags + ['-lpython3.12'])
        for c in cmds:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode:
                raise BuildError('%s\n%s' % (' '.join(c), r.stdout[-4000:]))

    def link(self, objs, out):
        if self.modules:
            return self.link_modules(objs, out)
        cmd = ['g++', '-pthread'] + (['-fsanitize=address'] if self.asan else []) + \
            ['-o', out] + objs + self.ldflags + self.libs
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        if r.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def build(progs, workdir):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    jobs = {}
    units = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for p in progs:
            units[p.name] = p.units()
            for u in units[p.name]:
                k = (u[0], tuple(u[1]))
                if k not in jobs:
                    jobs[k] = ex.submit(compile_one, u[0], u[1])
        errs = []
        for k, j in jobs.items():
            try:
                j.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs[:3]))
        links = []
        for p in progs:
            objs = [jobs[(u[0], tuple(u[1]))].result() for u in units[p.name]]
            out = os.path.join(workdir, p.name)
            links.append(ex.submit(p.link, objs, out))
        for l in links:
            l.result()
    # keep the object cache bounded
    objs = sorted(glob.glob(os.path.join(BUILD, 'obj', '*.o')), key=os.path.getmtime)
    total = sum(os.path.getsize(o) for o in objs)
    while objs and total > 6e9:
        o = objs.pop(0)
        total -= os.path.getsize(o)
        for s in (o, o[:-2] + '.json'):
            try:
                os.unlink(s)
            except OSError:
                pass


ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=0:exitcode=77:'
           'allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=64',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', TSAN_OPTIONS='exitcode=66', PYTHONDONTWRITEBYTECODE='1')


def run_one(exe, args, timeout, cwd):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, env=ENV)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), \
            (e.stderr or b'').decode(errors='replace')


class Fail:
    def __init__(self, prog, key, case, msg, args):
        self.prog, self.key, self.case, self.msg, self.args = prog, key, case, msg, args


def parse(prog, out, label_args):
    fails, stats, maxs, samples, done = [], {}, {}, [], False
    for l in out.split('\n'):
        p = l.split('\t')
        if p[0] == 'FAIL' and len(p) >= 5:
            fails.append(Fail(prog, p[1], p[2], p[3], label_args + p[4].split()))
        elif p[0] == 'STAT':
            stats[p[1]] = stats.get(p[1], 0) + int(p[2])
        elif p[0] == 'STATMAX':
            maxs[p[1]] = max(maxs.get(p[1], 0), int(p[2]))
        elif p[0] == 'SAMPLE':
            samples.append(p[1])
        elif p[0] == 'DONE':
            done = True
    return fails, stats, maxs, samples, done


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) prog=(\S+) key=(\S+) case=`(.*?)`(?: msg=`(.*?)`)? :: (.*)$',
                         l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def match_known(f, known):
    for k in known:
        if fnmatch.fnmatchcase(f.prog.name, k[0]) and fnmatch.fnmatchcase(f.key, k[1]) and \
                re.fullmatch(k[2], f.case) and (not k[3] or re.search(k[3], f.msg)):
            return k
    return None


def check(spec, tier, replay=None):
    prop = spec['property']
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workdir = os.path.join(BUILD, 'run', '%s.%d' % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    try:
        return _check(spec, tier, replay, prop, t0, seed, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def _check(spec, tier, replay, prop, t0, seed, workdir):
    progs = spec['progs']
    if callable(progs):
        progs = progs(tier) if progs.__code__.co_argcount else progs()
    if tier == 'quick' and os.environ.get('VF_OPT', spec.get('quick_opt')):
        for p in progs:
            p.opt = os.environ.get('VF_OPT', spec.get('quick_opt'))
    if replay:
        rp = json.load(open(replay))
        progs = [p for p in progs if p.name == rp['prog']]
        if not progs:
            progs = [p for p in spec['progs']('thorough') if p.name == rp['prog']]
        build(progs, workdir)
        rc, out, err = run_one(os.path.join(workdir, progs[0].name), rp['args'], 900, workdir)
        sys.stdout.write(out)
        sys.stderr.write(err)
        fails = parse(progs[0], out, [])[0]
        if any(f.key == rp['key'] for f in fails):
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('the replayed case no longer fails')
        return 0

    build(progs, workdir)
    tb = time.time()
    print('%s: built %d programs in %.1f s' % (prop, len(progs), tb - t0))
    sys.stdout.flush()
    total_budget = 700 if tier == 'quick' else spec.get('thorough_budget', 3000)
    jobs = []
    for p in progs:
        runs = p.runs if tier == 'quick' or p.thorough_runs is None else p.thorough_runs
        for label, args in runs:
            for k in range(p.shards):
                a = list(args) + ['--tier', tier, '--shard', '%d/%d' % (k, p.shards)]
                jobs.append((p, label, a))
    allfails, stats, maxs, samples, errors = [], {}, {}, [], []
    per = {}

    def work(j):
        p, label, a = j
        left = total_budget - (time.time() - t0)
        b = p.budget.get(tier)
        if b is None:
            b = max(20, left * 0.8)
        r = run_one(os.path.join(workdir, p.name), a + ['--budget', '%.0f' % min(b, max(20, left))],
                    max(60, left + 120), workdir)
        return j, r

    with cf.ThreadPoolExecutor(spec.get('parallel', NCPU)) as ex:
        for j, (rc, out, err) in ex.map(work, jobs):
            p, label, a = j
            base = []
            i = 0
            # arguments a replay needs: everything but sharding
            while i < len(a):
                if a[i] in ('--shard',):
                    i += 2
                    continue
                base.append(a[i])
                i += 1
            f, st, mx, sa, done = parse(p, out, base)
            allfails += f
            name = p.name + (':' + label if label else '')
            d = per.setdefault(name, {})
            for k, v in st.items():
                stats[k] = stats.get(k, 0) + v
                d[k] = d.get(k, 0) + v
            for k, v in mx.items():
                maxs[k] = max(maxs.get(k, 0), v)
            if len([s for s in samples if s.startswith(name)]) < 3:
                samples += [name + ': ' + s for s in sa[:2]]
            if not done:
                errors.append('%s %s: exit %s without finishing\n%s\n%s' %
                              (p.name, ' '.join(a), rc, out[-1500:], err[-3000:]))
    known = known_findings(prop)
    seen_known, viol = {}, []
    keys = {}
    for f in allfails:
        k = match_known(f, known)
        if k:
            seen_known.setdefault(k, f)
            continue
        keys.setdefault((f.prog.name, f.key), []).append(f)
    rdir = os.path.join(VERIF, 'replays', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    n = 0
    nshown = 0
    for (pn, key), fs in sorted(keys.items()):
        # replay before reporting
        ok = None
        for f in fs[:4]:
            rc, out, err = run_one(os.path.join(workdir, pn), f.args, 600, workdir)
            rf = [x for x in parse(f.prog, out, [])[0]]
            if any(x.key == key for x in rf):
                ok = f
                break
            if rf:                       # fails again, in another way
                ok = f
                key = rf[0].key
                break
        if ok is None:
            errors.append('%s: %s [%s] did not fail again when replayed: %s' %
                          (pn, key, fs[0].case, fs[0].msg))
            continue
        os.makedirs(rdir, exist_ok=True)
        n += 1
        path = os.path.join(rdir, '%d.json' % n)
        json.dump({'property': prop, 'prog': pn, 'key': key, 'case': ok.case, 'message': ok.msg,
                   'args': ok.args, 'how': './check %s --replay %s' % (prop, path),
                   'others': [x.case for x in fs[1:20]]}, open(path, 'w'), indent=1)
        viol.append((path, pn, key, ok, len(fs)))
    for k, f in seen_known.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, k[4], f.case))
    for path, pn, key, f, cnt in viol[:20]:
        print('%s %s: %s [%s] (%d reports)' % (pn, key, f.msg, f.case, cnt))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errors[:5]:
        print('CHECK-ERROR ' + e, file=sys.stderr)
    wall = time.time() - t0
    cov = spec['coverage'](stats, maxs) if 'coverage' in spec else default_cov(spec, stats, maxs)
    cov['samples'] = samples[:12] or ['(no sample recorded)']
    cov['per_program'] = per
    cov['build_s'] = round(tb - t0, 1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %s  (%.1f s)' % (prop, tier, ', '.join('%s=%s' % kv for kv in sorted(stats.items())), wall))
    if viol:
        return 1
    if errors:
        return 2
    return 0


def default_cov(spec, st, mx):
    ex = st.get('executed', 0) + st.get('executions', 0)
    capped = st.get('capped', 0) + st.get('budget_cut_scenarios', 0) + st.get('dfs_capped', 0)
    c = {'exhaustive': capped == 0, 'rule': spec['rule'], 'bounds': spec.get('bounds', '')}
    if spec['level'] == 'model_checking':
        c['states'] = st.get('states', 0) + st.get('choice_points', 0)
        c['transitions'] = st.get('transitions', 0) + st.get('steps', 0)
        c['traces_validated_against_impl'] = ex
        c['distinct_outcomes'] = st.get('outcomes', 0) + st.get('distinct_outcomes', 0)
    else:
        c['evaluations'] = ex
        c['distinct_nontrivial'] = st.get('nontrivial', 0)
        c['distinct_outcomes'] = st.get('outcomes', 0)
    if capped:
        c['cap'] = 'the time or count budget cut %d shards or searches; what ran is what is counted' % capped
    return c
