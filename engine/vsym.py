"""Build and exploration driver of the symbolic execution engine."""
import hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
CXX = '/usr/bin/clang++'
Z3D = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
LIBS = '-lipopt -ldmumps_seq -lgfortran -lquadmath -ldl -lCbcSolver -lCbc -lpthread -lrt -lCgl -lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lbz2 -lz -llapack -lblas -lm'.split()
# sources that the configured build does not compile (need ASL, FilterSQP, MA27, CPLEX ...)
NOT_BUILT = {'BonNodeSolver', 'BonMin', 'BonAmplSetup', 'BonCurvBranchingSolver', 'BonCurvatureEstimator',
             'BonFilterWarmStart', 'BonBqpdSolver', 'BonBqpdWarmStart', 'BonFilterSolver',
             'sos_kludge', 'BonSolReader', 'BonAmplInterface', 'BonAmplTMINLP'}
INCDIRS = ['Interfaces', 'Interfaces/Ipopt', 'Algorithms', 'Algorithms/Branching', 'Algorithms/OaGenerators',
           'Algorithms/QuadCuts', 'CbcBonmin', 'CbcBonmin/Heuristics']

class BuildError(Exception):
    pass

def incs():
    return ['-I' + os.path.join(HERE, 'config')] + ['-I' + os.path.join(REPO, 'src', d) for d in INCDIRS] + ['-I/usr/include/coin']

BASE = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-w', '-fno-pie',
        '-DHAVE_CONFIG_H', '-DHAVE_CSTDDEF', '-DBONMINLIB_BUILD']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def engine():
    """Engine binaries, keyed by the engine's own sources."""
    key = sha(*[open(os.path.join(HERE, f), 'rb').read() for f in ('SymPass.cpp', 'SymRuntime.cpp', 'SymReplay.cpp', 'sym.h', 'build.sh')])
    d = os.path.join(CACHE, 'engine-' + key)
    if not os.path.exists(os.path.join(d, 'ok')):
        tmp = d + '.tmp%d' % os.getpid()
        r = run(['bash', os.path.join(HERE, 'build.sh'), tmp])
        if r.returncode:
            raise BuildError('engine: ' + r.stderr.decode()[-4000:])
        open(os.path.join(tmp, 'ok'), 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d

def compile_one(src, mode, eng, extra=()):
    """mode: sym (instrumented) | nat (native) | asan. Cached by preprocessed text."""
    flags = BASE + incs() + ['-I' + HERE, '-I' + os.path.join(VERIF, 'harness')] + list(extra)
    pp = run([CXX] + flags + ['-E', '-P', src])
    if pp.returncode:
        raise BuildError(pp.stderr.decode()[-3000:])
    # __LINE__ in asserts survives -P as numbers already; line info is not needed for the key
    key = sha(pp.stdout, mode, ' '.join(flags), os.path.basename(eng) if mode == 'sym' else '')
    out = os.path.join(CACHE, 'obj', key + '.o')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d.%d' % (out, os.getpid(), threading.get_ident())
    cmd = [CXX] + flags + ['-c', src, '-o', tmp]
    if mode == 'sym':
        cmd.insert(1, '-fpass-plugin=' + os.path.join(eng, 'SymPass.so'))
    if mode == 'asan':
        cmd.insert(1, '-fsanitize=address')
    r = run(cmd)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr.decode()[-3000:]))
    os.rename(tmp, out)
    return out

def repo_sources():
    s = []
    for d in INCDIRS:
        for f in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.cpp'))):
            if os.path.basename(f)[:-4] not in NOT_BUILT:
                s.append(f)
    return s

def build(harness, mode, extra_defs=()):
    eng = engine()
    srcs = repo_sources()
    h = os.path.join(VERIF, 'harness', harness)
    models = os.path.join(VERIF, 'harness', 'models.cpp')
    # the harness comes first: where it defines a stand-in for a function of the
    # repository (a sub-solver), that definition is the one linked
    jobs = [(h, tuple(extra_defs))] + [(s, ()) for s in srcs]
    if mode == 'sym':
        jobs.append((models, ()))
    else:
        jobs.append((os.path.join(HERE, 'SymReplay.cpp'), ()))
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], mode, eng, j[1]), jobs))
    key = sha(mode, *objs, eng)
    exe = os.path.join(CACHE, 'bin', os.path.splitext(harness)[0] + '-' + mode + '-' + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    cmd = [CXX, '-no-pie', '-Wl,-z,muldefs', '-o', tmp] + objs + LIBS
    if mode == 'sym':
        cmd += [os.path.join(eng, 'SymRuntime.o'), '-L' + Z3D + '/lib', '-lz3', '-Wl,-rpath,' + Z3D + '/lib', '-rdynamic']
    if mode == 'asan':
        cmd += ['-fsanitize=address']
    r = run(cmd)
    if r.returncode:
        raise BuildError('link: ' + r.stderr.decode()[-4000:])
    os.rename(tmp, exe)
    # keep the cache small
    for f in sorted(glob.glob(os.path.join(CACHE, 'bin', '*')), key=os.path.getmtime)[:-40]:
        try: os.unlink(f)
        except OSError: pass
    return exe

ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C')

class Result:
    def __init__(self):
        self.paths = 0; self.ends = {}; self.viol = {}; self.asserts = {}; self.reach = {}; self.funcs = set(); self.conc = {}
        self.leak = {}; self.unknown = {}; self.limits = {}; self.diverge = 0; self.crashes = []; self.errors = []
        self.q = self.sat = self.unsat = self.unk = self.aq = 0; self.solver_t = 0.0; self.entries = 0; self.maxentries = 0
        self.pending = 0; self.wall = 0.0; self.timeouts = 0; self.samples = []
    def complete(self):
        return not (self.pending or self.unknown or self.limits or self.diverge or self.errors or self.timeouts)

def explore(exe, case, budget, maxpaths=10**9, stop_on_viol=3, qtimeout=10000, maxconc=64, pathtime=60, maxentries=4000, workers=NPROC, verbose=False):
    res = Result(); lock = threading.Condition(); q = [('0 0 0', '')]; active = [0]; stop = [False]; t0 = time.time()
    def worker(k):
        rin, win = os.pipe(); rout, wout = os.pipe()
        env = dict(ENV, SYM_IN=str(rin), SYM_OUT=str(wout), SYM_QTIMEOUT=str(qtimeout), SYM_MAXCONC=str(maxconc), SYM_PATHTIME=str(pathtime), SYM_MAXENTRIES=str(maxentries))
        logf = open(os.devnull, 'w') if not verbose else open('/tmp/vsym.%d.log' % k, 'w')
        p = subprocess.Popen([exe] + case, pass_fds=(rin, wout), env=env, stdout=logf, stderr=logf, stdin=subprocess.DEVNULL, cwd=rundir)
        os.close(rin); os.close(wout); fin = os.fdopen(win, 'w'); fout = os.fdopen(rout, 'r', errors='replace')
        try:
            while True:
                with lock:
                    while not q and active[0] and not stop[0]:
                        lock.wait(0.2)
                    if time.time() - t0 > budget or res.paths >= maxpaths:
                        stop[0] = True
                    if stop[0] or not q:
                        lock.notify_all(); break
                    item = q.pop(); active[0] += 1
                ok = False; news = []
                try:
                    fin.write(item[0] + item[1] + '\n'); fin.flush()
                    lines = []
                    for line in fout:
                        lines.append(line.rstrip('\n'))
                        if line.startswith('EXIT'):
                            ok = True; break
                except OSError:
                    lines = []
                with lock:
                    active[0] -= 1
                    if not ok:
                        res.errors.append('worker died (case %s) before the first path' % ' '.join(case)); stop[0] = True; lock.notify_all(); break
                    digest(lines, item)
                    lock.notify_all()
        finally:
            try: fin.close()
            except OSError: pass
            p.kill(); p.wait(); fout.close(); logf.close()
    def digest(lines, item):
        res.paths += 1; path = None
        for l in lines:
            w = l.split(' ', 1); k = w[0]; r = w[1] if len(w) > 1 else ''
            if k == 'NEW':
                f = r.split(' '); n = int(f[2]); q.append((' '.join(f[:3 + n]), (' ' + ' '.join(f[3 + n:])) if len(f) > 3 + n else ''))
            elif k == 'VIOL':
                what, vals = r.rsplit(' |', 1); res.viol.setdefault(what, []).append(vals.strip())
                if sum(len(v) for v in res.viol.values()) >= stop_on_viol * 8 or len(res.viol) >= stop_on_viol: stop[0] = True
            elif k == 'ASSERT': res.asserts[r] = res.asserts.get(r, 0) + 1
            elif k == 'REACH': res.reach[r] = res.reach.get(r, 0) + 1
            elif k == 'UNKNOWN' : res.unknown[r] = res.unknown.get(r, 0) + 1
            elif k in ('NOREAL', 'Z3EXC'): res.unknown[l] = res.unknown.get(l, 0) + 1
            elif k == 'LIMIT': res.limits[r] = res.limits.get(r, 0) + 1
            elif k == 'DIVERGE': res.diverge += 1
            elif k == 'ERROR': res.errors.append(r)
            elif k == 'LEAK':
                for x in r.split(): res.leak[x] = res.leak.get(x, 0) + 1
            elif k == 'FUNCS': res.funcs.update(r.split())
            elif k == 'CONCFN':
                for x in r.split(): res.conc[x] = res.conc.get(x, 0) + 1
            elif k == 'PATH':
                path = r.split(); res.ends[path[0]] = res.ends.get(path[0], 0) + 1
                d = dict(x.split('=') for x in path[1:]); res.q += int(d['q']); res.sat += int(d['sat']); res.unsat += int(d['unsat']); res.unk += int(d['unk']); res.aq += int(d['aq']); res.solver_t += float(d['t'])
                res.entries += int(d['entries']); res.maxentries = max(res.maxentries, int(d['entries']))
            elif k == 'EXIT':
                c, s = r.split()
                if path is None:
                    if s == '9': res.timeouts += 1; res.limits['path time'] = res.limits.get('path time', 0) + 1
                    else: res.crashes.append((item[1].strip(), 'exit %s signal %s' % (c, s)))
                    if len(res.crashes) >= stop_on_viol * 4: stop[0] = True
        if len(res.samples) < 3 and item[1]: res.samples.append(item[1].strip())
    rundir = tempfile.mkdtemp(prefix='vsym')
    try:
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
        for t in ts: t.start()
        for t in ts: t.join()
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    res.pending = len(q); res.wall = time.time() - t0
    return res

def write_replay(path, prop, harness, case, what, vals):
    with open(path, 'w') as f:
        f.write('# property=%s harness=%s case=%s\n# %s\n' % (prop, harness, ' '.join(case), what))
        for kv in vals.split():
            f.write(kv + '\n')

def replay(exe, case, path, timeout=60):
    """(reproduced, text)"""
    d = tempfile.mkdtemp(prefix='vsymr')
    try:
        r = subprocess.run([exe] + case, env=dict(ENV, SYM_REPLAY=path), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        out = r.stdout.decode(errors='replace'); rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace')[-2000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc == 1 and 'REPLAY-VIOLATION' in out: return 'violation', out[-4000:]
    if rc < 0: return 'crash', out[-4000:] + '\nsignal %d' % -rc
    if rc == 0: return 'ok', out[-2000:]
    return 'other %d' % rc, out[-2000:]

def demangle(names):
    names = sorted(names)
    if not names: return []
    r = run(['c++filt'], input='\n'.join(names).encode())
    return sorted(set(r.stdout.decode().split('\n')) - {''})

if __name__ == '__main__':
    print('engine built in', engine())
