#!/opt/veriftools/pyvenv/bin/python
"""Run the real code on a recorded counterexample:  replay.py FILE.json   (builds /repo's current sources natively with ASan)"""
import sys, json, tempfile, shutil, os
import run
from concurrent.futures import ThreadPoolExecutor
d = json.load(open(sys.argv[1]))
job = {'h': d['harness'], 'v': d['variant'], 'cfg': tuple(d['cfg']), 'procs': d['procs']}
tmp = tempfile.mkdtemp(prefix='vpr-')
try:
    b = run.Build(tmp); hp = run.HERE+'/harness/%s.cc' % job['h']; srcs = run.repo_sources()
    al = [run.REPO+'/'+x for x in run.hmeta(hp)[2]]
    with ThreadPoolExecutor(8) as tp: m = b.irs(job['v'], srcs+[hp]+al, tp)
    sy = {p: run.quick_syms(open(q).read()) for p, q in m.items()}
    need = run.closure([sy[hp]]+[sy[a] for a in al], {s: sy[s] for s in srcs}, set(run.hmeta(hp)[1]))
    run.G['nsrc'] = {(job['h'], job['v']): [hp]+al+[n for n in need if n not in al]}
    nat = run.Native(b, tmp)
    ok, info, p = run.confirm(nat, job, [(n, tuple(t), v) for n, t, v in d['inputs']], tmp, 0)
    print('property %s, %s: %s' % (d['property'], d['label'], 'FAILS on the real code' if ok else 'does not fail'))
    for k, v in info.items(): print('  %s: %s' % (k, v))
finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if ok else 0)
