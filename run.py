#!/opt/veriftools/pyvenv/bin/python
"""Solver-based check of one property:  run.py <property id>  (tier from VERIF_TIER or --tier)."""
import sys, os, re, time, json, subprocess, tempfile, shutil, struct, math, hashlib, traceback, signal, gc
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'llsym')); sys.path.insert(0, HERE)
REPO = os.environ.get('VPIC_REPO', '/repo')
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
COMMON = ['-std=c++11', '-w', '-fno-strict-aliasing', '-ffp-contract=off', '-DOMPI_SKIP_MPICXX']
VARIANTS = {
    'ref':    ['-DVPIC_USE_PTHREADS'],
    'v4sse':  ['-DVPIC_USE_PTHREADS', '-DUSE_V4_SSE', '-DVPIC_USE_LEGACY_SORT'],
    'v8avx2': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-DUSE_V4_AVX2', '-DUSE_V8_AVX2'],
    'v8omp':  ['-DVPIC_USE_OPENMP', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE'],
    'v16portable': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE', '-DUSE_V8_PORTABLE', '-DUSE_V16_PORTABLE'],
    # further configurations of the same sources (not among the five that are tested)
    'v4portable': ['-DVPIC_USE_PTHREADS', '-DUSE_V4_PORTABLE'],
    'v4avx':  ['-DVPIC_USE_PTHREADS', '-mavx', '-DUSE_V4_AVX'],
    'v8avx':  ['-DVPIC_USE_PTHREADS', '-mavx', '-DUSE_V4_AVX', '-DUSE_V8_AVX'],
    'v16avx512': ['-DVPIC_USE_PTHREADS', '-mavx2', '-mfma', '-mavx512f', '-mavx512dq', '-DUSE_V4_AVX2', '-DUSE_V8_AVX2', '-DUSE_V16_AVX512'],
    'digits': ['-DVPIC_USE_PTHREADS', '-DVPIC_PRINT_MORE_DIGITS'],
}
IRF = ['-O1', '-S', '-emit-llvm', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-fno-builtin-printf', '-fno-math-errno', '-Xclang', '-mno-constructor-aliases']
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_sources():
    out = []
    for d, ds, fs in os.walk(REPO+'/src'):
        ds.sort()
        if '/test' in d[len(REPO):]: continue
        for f in sorted(fs):
            if f.endswith('.cc'): out.append(os.path.join(d, f))
    return out
def relname(p): return os.path.relpath(p, REPO)

class Build:
    def __init__(s, tmp): s.tmp = tmp; s.errors = []
    def flags(s, v, src=None):
        fl = list(VARIANTS[v])
        return COMMON+fl+MPI_INC+['-I'+REPO+'/src', '-I'+REPO+'/deck', '-I'+HERE+'/harness', '-I'+HERE+'/harness/alias']
    def ir(s, variant, src):
        out = os.path.join(s.tmp, 'ir', variant, re.sub(r'\W', '_', src)+'.ll')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        extra = ['-idirafter', HERE+'/harness/stub'] if 'VPIC_USE_OPENMP' in ' '.join(VARIANTS[variant]) else []
        r = sh(['clang++']+s.flags(variant)+IRF+hflags(src)+hmeta(src)[3]+extra+[src, '-o', out])
        if r.returncode: return None, r.stdout
        return out, ''
    def irs(s, variant, srcs, pool):
        res = list(pool.map(lambda x: s.ir(variant, x), srcs))
        bad = [(x, r[1]) for x, r in zip(srcs, res) if r[0] is None]
        if bad: raise RuntimeError('compilation failed: %s\n%s' % (bad[0][0], bad[0][1][-3000:]))
        return {x: r[0] for x, r in zip(srcs, res)}

_hfl = {}
def hmeta(src):
    if src not in _hfl:
        t = open(src).read() if '/harness/' in src else ''
        _hfl[src] = ([x for l in re.findall(r'^// FLAGS: (.*)$', t, re.M) for x in l.split()],
                     [x for l in re.findall(r'^// EXCLUDE: (.*)$', t, re.M) for x in l.split()],
                     [x for l in re.findall(r'^// ALSO: (.*)$', t, re.M) for x in l.split()],
                     [x for l in re.findall(r'^// IRFLAGS: (.*)$', t, re.M) for x in l.split()],
                     re.search(r'^// STANDALONE$', t, re.M))
    return _hfl[src]
def hflags(src): return hmeta(src)[0]

SYM = re.compile(r'^(?:define|@)', re.M)
def quick_syms(text):
    """(defined, referenced) symbol names of an IR module"""
    defs = set()
    for m in re.finditer(r'^define .*?@("[^"]*"|[\w.$-]+)\(', text, re.M): 
        if not re.match(r'define (internal|private|linkonce_odr|weak_odr|available_externally)', m.group(0)): defs.add(m.group(1))
    for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = (?!external|internal|private|linkonce_odr|extern_weak)', text, re.M): defs.add(m.group(1))
    refs = set(re.findall(r'^declare .*?@("[^"]*"|[\w.$-]+)\(', text, re.M))
    refs |= set(re.findall(r'^@("[^"]*"|[\w.$-]+) = external', text, re.M))
    return defs, refs

def closure(hsrcs, syms, exclude):
    """repository modules a harness needs"""
    owner = {}
    for m, (d, r) in syms.items():
        if relname(m) in exclude: continue
        for x in d: owner.setdefault(x, m)
    need = []; seen = set()
    work = set()
    have = set()
    for d, r in hsrcs: work |= r; have |= d
    while work:
        x = work.pop()
        if x in have: continue
        have.add(x)
        m = owner.get(x)
        if m and m not in seen:
            seen.add(m); need.append(m); work |= syms[m][1]
    return sorted(need)

# ------------------------------------------------------------------ worker
G = {}
def worker(a):
    job, tier, seed, deadline = a
    import engine, execu, mpi, simd, expr as X
    signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
    t0 = time.time()
    res = {'job': job, 'err': None}
    try:
        left = deadline-t0
        if left < 3:
            res['err'] = 'skipped: time budget of the check exhausted'; res['skipped'] = True; return res
        budget = min(job.get('budget', 60), left)
        signal.alarm(int(budget*1.6)+45)
        sys.setrecursionlimit(20000)
        mk = lambda conc: make_engine(job, tier, seed, budget, conc)
        e = mk(None)
        try: e.run('hs_main')
        except engine.EngineError as x:
            res['err'] = 'engine: %s' % x
        except TimeoutError:
            res['err'] = 'timeout'
        st = e.S.st
        res.update(paths=dict(e.paths), nobl=e.nobl, nrew=e.nrew, nsolver=e.nsolver, queries=st.queries, sat=st.sat, unsat=st.unsat, unknown=st.unknown,
                   stime=st.time, forks=e.nforks, steps=e.steps, undecided=e.undecided[:20], nund=len(e.undecided), incomplete=e.incomplete,
                   entered=sorted(e.entered), witness=e.witness, samples=e.samples, reached=e.reached, ninstr=sum(f.ninstr for f in e.L.funcs.values() if f.parsed),
                   viol=[(v.label, v.inputs, v.cfg, v.kind, v.note) for v in e.viol+e.kviol], uninit=e.nuninit, pcmax=e.pcond_max)
        if job.get('validate'):
            val = []
            for sd in job.get('vseeds', (1, 2, 3)):
                try:
                    c = mk(sd); c.budget = 40; c.run('hs_main')
                    if c.paths.get('assume'): val.append((sd, 'assume', None)); continue
                    val.append((sd, 'ok' if not c.incomplete else 'inc', [(o[0], o[-1], float(o[1]) if o[0] == 'n' else bool(o[1]), float(o[2]) if o[0] == 'n' else None) for o in c.trace]))
                except engine.EngineError as x: val.append((sd, 'err:'+str(x), None))
            res['val'] = val
    except TimeoutError: res['err'] = 'timeout'
    except BaseException as x:
        res['err'] = 'crash: '+''.join(traceback.format_exception(type(x), x, x.__traceback__))[-1800:]
    signal.alarm(0)
    res['wall'] = time.time()-t0
    return res
class Forks:
    """runs worker() on every item in forked children, at most NCPU at a time (no threads around)"""
    def __init__(s, items, tmp): s.items = list(items); s.tmp = tmp; s.run = {}; s.n = 0
    def __iter__(s):
        import pickle
        while s.items or s.run:
            while s.items and len(s.run) < NCPU:
                it = s.items.pop(0); s.n += 1
                out = os.path.join(s.tmp, 'res%d' % s.n)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        r = worker(it)
                        with open(out, 'wb') as f: pickle.dump(r, f)
                    except BaseException as x:
                        with open(out, 'wb') as f: pickle.dump({'job': it[0], 'err': 'worker: %r' % x}, f)
                    os._exit(0)
                s.run[pid] = (it, out, time.time(), it[0].get('budget', 60)*2.2+150)
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                for p, (it, out, t, lim) in s.run.items():
                    if time.time()-t > lim:
                        try: os.kill(p, signal.SIGKILL)
                        except OSError: pass
                time.sleep(0.02); continue
            if pid not in s.run: continue
            it, out, t, lim = s.run.pop(pid)
            if os.path.exists(out):
                try: r = pickle.load(open(out, 'rb'))
                except Exception as x: r = {'job': it[0], 'err': 'worker result lost: %r' % x}
                os.unlink(out)
            else: r = {'job': it[0], 'err': 'worker ended by signal (status %d) after %.0f s' % (st, time.time()-t)}
            yield r
    def kill(s):
        for p in s.run:
            try: os.killpg(p, signal.SIGKILL)
            except OSError:
                try: os.kill(p, signal.SIGKILL)
                except OSError: pass
        for p in s.run:
            try: os.waitpid(p, 0)
            except OSError: pass
        s.run = {}
def conc_inputs(seed):
    M64 = (1 << 64)-1
    def fnv(s):
        h = 1469598103934665603 ^ (seed*0x9E3779B97F4A7C15 & M64)
        for c in s.encode():
            h ^= c; h = h*1099511628211 & M64
        h ^= h >> 29; h = h*0xBF58476D1CE4E5B9 & M64; h ^= h >> 32
        return h
    import expr as X
    def f(full, k, w, lo, hi):
        if k == 'f':
            v = lo+(hi-lo)*((fnv(full) % 4096)/4096.0)
            return X.r32(v) if w == 32 else v
        if lo is not None and k == 'i': return (lo+fnv(full) % (hi-lo+1)) & X.M(w)
        return fnv(full) & X.M(w)
    return f
def make_engine(job, tier, seed, budget, conc):
    import engine, execu
    L = engine.Linker()
    V = G['mods'][job['v']]
    hm = G['hmods'][(job['h'], job['v'])]
    for name, path in hm: L.add(name, open(path).read())
    L.link()
    o = dict(job.get('opts', {}))
    e = execu.Engine(L, mode=job.get('mode', 'R'), cfg=job.get('cfg', ()), seed=seed, budget=budget, concrete=conc_inputs(conc) if conc is not None else None, **o)
    e.nprocs = job.get('procs', 1)
    e.kfind = [re.compile(m) for m in G.get('known', [])]; e.jobname = jname(job)
    return e

# ------------------------------------------------------------------ native side
class Native:
    def __init__(s, b, tmp): s.b = b; s.tmp = tmp; s.objs = {}; s.exes = {}; s.log = []
    def obj(s, variant, src, san):
        out = os.path.join(s.tmp, 'nat', variant+('-asan' if san else ''), re.sub(r'\W', '_', src)+'.o')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out): return out
        cmd = ['g++', '-O1', '-g1', '-c']+s.b.flags(variant)+hflags(src)+(['-fsanitize=address'] if san else [])
        if 'VPIC_USE_OPENMP' in ' '.join(VARIANTS[variant]): cmd.append('-fopenmp')
        if src.endswith('.c'): cmd = ['gcc', '-O1', '-g1', '-w', '-c']
        r = sh(cmd+[src, '-o', out+'.tmp'])
        if r.returncode: raise RuntimeError('native compilation failed: %s\n%s' % (src, r.stdout[-2000:]))
        os.replace(out+'.tmp', out)
        return out
    def exe(s, job, san):
        key = (job['h'], job['v'], san)
        if key in s.exes: return s.exes[key]
        srcs = [p for p in G['nsrc'][(job['h'], job['v'])]]+[HERE+'/harness/hs_native.cc', HERE+'/harness/hs_mpi.c']
        with ThreadPoolExecutor(NCPU) as tp: objs = list(tp.map(lambda x: s.obj(job['v'], x, san), srcs))
        out = os.path.join(s.tmp, 'nat', '%s-%s%s' % (job['h'], job['v'], '-asan' if san else ''))
        cmd = ['g++', '-rdynamic', '-o', out]+objs+['-lpthread', '-ldl', '-lm']+(['-fsanitize=address'] if san else [])
        if 'VPIC_USE_OPENMP' in ' '.join(VARIANTS[job['v']]): cmd.append('-fopenmp')
        r = sh(cmd)
        if r.returncode: raise RuntimeError('native link failed: '+r.stdout[-2000:])
        s.exes[key] = out
        return out
    def run(s, job, san, env, timeout=130):
        exe = s.exe(job, san)
        d = tempfile.mkdtemp(dir=s.tmp)
        ev = dict(os.environ); ev.update(env)
        ev['HS_CFG'] = ','.join(str(int(x)) for x in job.get('cfg', ())); ev['HS_DIR'] = d; ev['HS_NP'] = str(job.get('procs', 1))
        ev['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=%d:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0' % int(env.get('FILLB', 199))
        if not san: ev['MALLOC_PERTURB_'] = '56'
        try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=ev)
        except subprocess.TimeoutExpired as x: return 124, (x.stdout or b'').decode(errors='replace')
        else:
            o = r.stdout.decode(errors='replace')
            for i in range(job.get('procs', 1)):
                if os.path.exists(d+'/trace.%d' % i): o += '\n'+open(d+'/trace.%d' % i, errors='replace').read()
            return r.returncode, o
        finally: shutil.rmtree(d, ignore_errors=True)

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        seen = set()
        for full, (k, w), v in inputs:
            if full in seen: continue
            seen.add(full)
            if k == 'f': u = struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
            else: u = int(v)
            f.write('%s %x\n' % (full, u))

def confirm(nat, job, inputs, tmp, n):
    """run the real code on the solver's assignment"""
    p = os.path.join(tmp, 'in%d.txt' % n); write_inputs(p, inputs)
    for fb in (199, 255):
        rc, out = nat.run(job, True, {'HS_IN': p, 'FILLB': str(fb)})
        fails = re.findall(r'^HSFAIL (.*)$', out, re.M)
        asan = re.findall(r'ERROR: AddressSanitizer: (\S+)', out)
        if 'HSASSUME' in out and not fails and not asan: continue
        if fails or asan or rc < 0 or rc in (124,):
            return True, {'rc': rc, 'fails': fails[:5], 'asan': asan[:2], 'tail': out[-600:] if not fails else ''}, p
    return False, {'rc': rc, 'tail': out[-400:]}, p

def validate(nat, job, val, stats):
    for sd, status, tr in val:
        if status != 'ok':
            stats['val_skipped'] += 1
            if status.startswith('err'): stats['val_notes'].append('%s: %s' % (jname(job), status[:160]))
            continue
        rc, out = nat.run(job, False, {'HS_SEED': str(sd), 'HS_TRACE': '1'})
        nt = []
        for l in out.split('\n'):
            t = l.split(' ')
            if t[0] == 'T': nt.append(('b', ' '.join(t[1:-1]), t[-1] == '1', None))
            elif t[0] == 'N':
                f = lambda h: struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
                nt.append(('n', ' '.join(t[1:-2]), f(t[-2]), f(t[-1])))
        if job.get('procs', 1) > 1:
            key = lambda o: o[1]; nt.sort(key=key); tr = sorted(tr, key=key)
        ok = len(nt) == len(tr); exact = 0
        bad = None if ok else 'lengths %d (encoding) %d (native, rc %d): %s' % (len(tr), len(nt), rc, out[-300:] if not nt else '')
        if ok:
            for a, b in zip(tr, nt):
                if a[0] != b[0] or a[1] != b[1]: bad = 'order %r %r' % (a, b); break
                if a[0] == 'b':
                    if a[2] != b[2]: bad = '%r %r' % (a, b); break
                    exact += 1
                else:
                    e = all(x == y or (x != x and y != y) for x, y in ((a[2], b[2]), (a[3], b[3])))
                    if e: exact += 1
                    elif not all(abs(x-y) <= job.get('vtol', 2e-5)*max(1, abs(x)) for x, y in ((a[2], b[2]), (a[3], b[3]))): bad = '%r %r' % (a, b); break
        if bad: stats['val_bad'].append('%s seed %d: %s' % (jname(job), sd, bad[:400]))
        else: stats['val_ok'] += 1; stats['val_values'] += len(nt); stats['val_exact'] += exact

def jname(j): return '%s/%s/%s%s' % (j['h'], j['v'], ','.join(str(c) for c in j.get('cfg', ())), ' x%d' % j['procs'] if j.get('procs', 1) > 1 else '')

# ------------------------------------------------------------------ main
def load_known():
    """known_findings.txt:  'known: {"property":..., "id":..., "match":..., "what":...}'  or  'fixed: property=<id> <commit> <what failed>' (suppresses nothing)"""
    p = HERE+'/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'): d = json.loads(l[6:]); d['status'] = 'known'; out.append(d)
    return out
def known_match(known, label, job):
    for k in known:
        if re.search(k['match'], '%s @ %s' % (label, jname(job))): return k
    return None

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in sys.argv; only = None; noval = '--noval' in sys.argv
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i+1]
        if a == '--only': only = sys.argv[i+1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import specs
    P = specs.PROPS[pid]
    t0 = time.time()
    deadline = t0+(P.get('quick_s', 420) if tier == 'quick' else P.get('thorough_s', 3600))
    jobs = P['jobs'](tier)
    if only: jobs = [j for j in jobs if only in jname(j)]
    # validation of the encoding: the first job of every (harness, variant)
    seen = set()
    for j in jobs:
        k = (j['h'], j['v'], j.get('procs', 1) > 1, j['cfg'][0] if j['h'] in ('fld',) else 0)
        if k not in seen and not j.get('noval') and not noval: j['validate'] = True; seen.add(k)
    tmp = tempfile.mkdtemp(prefix='vpv-')
    try: rc = check(pid, P, tier, seed, jobs, tmp, deadline, t0, verbose, only)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def check(pid, P, tier, seed, jobs, tmp, deadline, t0, verbose, only):
    import specs
    b = Build(tmp)
    variants = []
    for j in jobs:
        if j['v'] not in variants: variants.append(j['v'])
    srcs = repo_sources()
    G['mods'] = {}; G['hmods'] = {}; G['nsrc'] = {}
    with ThreadPoolExecutor(NCPU) as tp:
        for v in variants:
            hs = sorted(set(j['h'] for j in jobs if j['v'] == v))
            hpaths = {h: HERE+'/harness/%s.cc' % h for h in hs}
            also = set()
            for h in hs: also |= set(hmeta(hpaths[h])[2])
            vsrcs = srcs if any(not hmeta(hpaths[h])[4] for h in hs) else []
            m = b.irs(v, vsrcs+[REPO+'/'+a for a in also]+list(hpaths.values()), tp)
            syms = dict(zip(m, tp.map(lambda p: quick_syms(open(p).read()), m.values())))
            G['mods'][v] = m
            for h in hs:
                ex = set(hmeta(hpaths[h])[1]); al = [REPO+'/'+a for a in hmeta(hpaths[h])[2]]
                roots = [syms[hpaths[h]]]+[syms[a] for a in al]
                need = closure(roots, {s_: syms[s_] for s_ in vsrcs}, ex)
                need = [n for n in need if n not in al]
                G['hmods'][(h, v)] = [(('H:' if p == hpaths[h] else '')+relname(p), m[p]) for p in [hpaths[h]]+al+need]
                G['nsrc'][(h, v)] = [hpaths[h]]+al+need
    tb = time.time()-t0
    if verbose: print('# IR built in %.1f s: %s' % (tb, ', '.join('%s/%s: %d modules' % (h, v, len(x)) for (h, v), x in G['hmods'].items())))
    nat = Native(b, tmp)
    order = sorted(range(len(jobs)), key=lambda i: (not jobs[i].get('validate'), -jobs[i].get('budget', 60)*jobs[i].get('weight', 1)))
    results = []
    gc.freeze()
    stats = {'val_ok': 0, 'val_values': 0, 'val_exact': 0, 'val_bad': [], 'val_skipped': 0, 'val_notes': []}
    viol = []; spurious = []
    nv = 0
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    G['known'] = [k['match'] for k in known]; hit = set()
    pool = Forks([(jobs[i], tier, seed, deadline) for i in order], tmp)
    try:
        for r in pool:
            results.append(r); j = r['job']
            if verbose or r['err']:
                print('# %-34s %.1fs %s paths=%s obl=%s rew=%s slv=%s q=%s(%.1fs) und=%s %s' % (jname(j), r.get('wall', 0), (r['err'] or 'ok')[-700:], r.get('paths'), r.get('nobl'), r.get('nrew'), r.get('nsolver'), r.get('queries'), r.get('stime', 0), r.get('nund'), r.get('incomplete') or ''))
                if verbose and r.get('undecided'): print('#    undecided', r['undecided'][:4])
                if verbose and r.get('reached'): print('#    reached', r['reached'])
            for (label, inputs, cfg, kind, note) in r.get('viol', []):
                kf = known_match(known, label, j)
                if kf and kf['id'] in hit: continue
                if len([1 for x in viol if x['label'] == label]) >= 2 or len(viol) >= 3: continue
                nv += 1
                try: ok, info, p = confirm(nat, j, inputs, tmp, nv)
                except RuntimeError as x: ok, info, p = False, {'rc': -1, 'tail': str(x)[-500:]}, None
                if verbose: print('#    counterexample %s [%s] %s -> native %s %s' % (label, kind, note[:120], 'CONFIRMED' if ok else 'not confirmed', {k: v for k, v in info.items() if v}))
                if ok and kf: hit.add(kf['id']); continue
                (viol if ok else spurious).append({'label': label, 'job': j, 'inputs': inputs, 'info': info, 'note': note, 'path': p})
            if len(viol) >= 3: break
    finally: pool.kill()
    if not viol:
        for r in results:
            if r.get('val') and time.time() < deadline+60:
                try: validate(nat, r['job'], r['val'], stats)
                except RuntimeError as x: stats['val_bad'].append('%s: %s' % (jname(r['job']), str(x)[-300:]))
    # ---- report
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid+'-'): os.unlink(os.path.join(rdir, f))
    nviol = 0
    for i, v in enumerate(viol):
        nviol += 1
        p = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump({'property': pid, 'label': v['label'], 'harness': v['job']['h'], 'variant': v['job']['v'], 'cfg': list(v['job'].get('cfg', ())), 'procs': v['job'].get('procs', 1),
                   'inputs': [[n, list(t), v2 if t[0] == 'f' else int(v2)] for n, t, v2 in v['inputs']], 'native': v['info'], 'note': v['note'],
                   'how': 'python3-vt /verif/replay.py '+p}, open(p, 'w'), indent=1, default=str)
        if nviol <= 5:
            print('# %s in %s: native %s' % (v['label'], jname(v['job']), (v['info'].get('fails') or v['info'].get('asan') or ['rc %s' % v['info'].get('rc')])[0]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for s_ in spurious: print('# NOT CONFIRMED by the real code: %s in %s %s' % (s_['label'], jname(s_['job']), s_['info'].get('tail', '')[-160:].replace('\n', ' ')))
    for x in stats['val_bad']: print('# ENCODING MISMATCH', x)
    R = [r for r in results if 'paths' in r]
    S = lambda k: sum(r.get(k) or 0 for r in R)
    npaths = sum(sum(r['paths'].values()) for r in R)
    fns = {}
    for r in R:
        for m, f in r['entered']:
            if not m.startswith('H:') and not m.startswith('..'): fns.setdefault(m, set()).add(f)
    dem = demangle(sorted(set(f.lstrip('@').strip('"') for x in fns.values() for f in x)))
    incomplete = [jname(r['job'])+': '+(r['err'] or r.get('incomplete')) for r in results if r.get('err') or r.get('incomplete')]
    undec = [(jname(r['job']), r['nund']) for r in R if r.get('nund')]
    vac = [jname(r['job']) for r in R if not r.get('nobl') and not r.get('err')]
    nowit = [jname(r['job']) for r in R if not r.get('witness') and not r.get('err') and not r.get('viol')]
    samples = [s_ for r in R for s_ in r['samples'][:1]][:6]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time()-t0, 1), 'violations': nviol,
          'assumptions': P.get('assume', [])+specs.COMMON_ASSUME,
          'coverage': {'states': npaths+S('forks'), 'transitions': S('steps'), 'traces_validated_against_impl': stats['val_ok'], 'samples': samples or [jname(j) for j in jobs[:3]],
                       'functions_encoded': {m: sorted(dem.get(f.lstrip('@').strip('"'), f) for f in x) for m, x in sorted(fns.items())}, 'ir_instructions_of_encoded_functions': S('ninstr'),
                       'bounds': P['bounds'], 'outside': P.get('outside', ''), 'jobs': len(jobs), 'jobs_run': len(R), 'paths': {k: sum(r['paths'].get(k, 0) for r in R) for k in sorted(set(k for r in R for k in r['paths']))},
                       'obligations': S('nobl'), 'closed_by_normal_form': S('nrew'), 'closed_by_smt_query': S('nsolver'),
                       'smt_queries': S('queries'), 'smt_sat': S('sat'), 'smt_unsat': S('unsat'), 'smt_unknown': S('unknown'), 'solver_time_s': round(S('stime'), 2), 'undecided': undec, 'incomplete': incomplete,
                       'reachability_witness_jobs': sum(1 for r in R if r.get('witness')), 'jobs_without_witness': nowit, 'jobs_without_obligation': vac,
                       'values_compared_with_native_run': stats['val_values'], 'values_bit_identical': stats['val_exact'], 'encoding_mismatches': stats['val_bad'], 'validation_runs_skipped': stats['val_skipped'], 'validation_notes': stats['val_notes'][:5],
                       'unconfirmed_counterexamples': [{'label': s_['label'], 'job': jname(s_['job'])} for s_ in spurious], 'ir_build_s': round(tb, 1)}}
    if not only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid+'.json'), 'w'), indent=1, default=str)
    c = ev['coverage']
    print('# %s %s: %d jobs, %d paths, %d obligations (%d by normal form, %d by SMT), %d queries, solver %.1f s, undecided %d, incomplete %d, validated %d traces (%d mismatches), wall %.0f s'
          % (pid, tier, len(R), npaths, c['obligations'], c['closed_by_normal_form'], c['closed_by_smt_query'], c['smt_queries'], c['solver_time_s'], sum(x for _, x in undec), len(incomplete), stats['val_ok'], len(stats['val_bad']), ev['wall_s']))
    for x in incomplete[:6]: print('# incomplete:', x[-300:].strip().replace('\n', ' '))
    if vac: print('# jobs without obligations:', vac[:5])
    if nowit: print('# jobs without a reachability witness:', nowit[:5])
    if nviol: return 1
    if not R: print('# nothing was checked'); return 2
    return 0

def demangle(names):
    if not names: return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))

if __name__ == '__main__': main()
