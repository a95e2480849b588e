"""debug: dbg.py PID job-substring [--prof] [--conc SEED]  - run one job in process"""
import sys, os, time, gc
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/llsym')
import run, specs, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
pid, sub = sys.argv[1:3]
jobs = specs.PROPS[pid]['jobs']('thorough' if '--thorough' in sys.argv else 'quick')
j = [x for x in jobs if sub in run.jname(x)][0]
print(run.jname(j))
tmp = '/tmp/dbg-%s' % j['v']; os.makedirs(tmp, exist_ok=True)
b = run.Build(tmp)
srcs = run.repo_sources()
hp = run.HERE+'/harness/%s.cc' % j['h']
with ThreadPoolExecutor(8) as tp:
    m = b.irs(j['v'], srcs+[hp], tp)
syms = {p: run.quick_syms(open(q).read()) for p, q in m.items()}
need = run.closure([syms[hp]], {s: syms[s] for s in srcs}, set(run.hmeta(hp)[1]))
run.G['mods'] = {j['v']: m}; run.G['hmods'] = {(j['h'], j['v']): [(('H:' if p == hp else '')+run.relname(p), m[p]) for p in [hp]+need]}
import engine, execu, mpi, simd
gc.disable()
conc = int(sys.argv[sys.argv.index('--conc')+1]) if '--conc' in sys.argv else None
e = run.make_engine(j, 'quick', 1, float(os.environ.get('B', '60')), conc)
def go():
    t = time.time()
    try: e.run('hs_main')
    except BaseException as x:
        import traceback; traceback.print_exc()
    print('time %.1f' % (time.time()-t), e.paths, 'obl', e.nobl, 'rew', e.nrew, 'slv', e.nsolver, 'q', e.S.st.queries, '%.1fs' % e.S.st.time, 'und', e.undecided[:5], e.incomplete, 'forks', e.nforks, 'steps', e.steps)
    for v in e.viol: print('VIOL', v.label, v.kind, v.note, v.inputs[:10])
    print('reached', e.reached, 'uninit', e.nuninit)
if '--prof' in sys.argv:
    import cProfile, pstats
    p = cProfile.Profile(); p.enable(); go(); p.disable()
    pstats.Stats(p).sort_stats('cumtime').print_stats(35)
else: go()
