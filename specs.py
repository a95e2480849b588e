"""Jobs, bounds and assumptions of every property check."""
COMMON_ASSUME = [
    'clang 18 -O1 IR of the current /repo sources is executed; floating-point arithmetic is interpreted over exact reals unless a job says IEEE (mode F), so rounding error is outside those jobs (obligations carry a tolerance)',
    'MPI, pthread dispatch, file and clock calls are replaced by models (llsym/mpi.py, llsym/execu.py, harness/vh.h); log output is not checked',
    'allocation never fails; uninitialised heap and stack memory holds arbitrary values']
PROPS = {}
ALL5 = ['ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable']
def J(h, v, cfg, mode='R', **k):
    d = dict(h=h, v=v, cfg=tuple(cfg), mode=mode); d.update(k); return d

# ---------------------------------------------------------------- C01
def c01(tier):
    out = []
    for v in ALL5: out.append(J('c01', v, (5, 3, 3, 0, 2, 1), budget=200))
    for nx, ny, nz in ((1, 4, 3), (3, 1, 4), (4, 3, 1), (6, 1, 1), (1, 1, 1)):
        out.append(J('c01', 'ref', (nx, ny, nz, 0, 2, 0)))
    for i, w in enumerate((222222, 111111, 123234, 421312, 444444, 333333)): out.append(J('c01', ALL5[i % 5], (4, 3, 3, w, 2, 1+i % 2), budget=200)); out.append(J('c01', ALL5[(i+2) % 5], (3, 4, 4, w, 2, 2-i % 2), budget=200))
    out += [J('c01', 'ref', (3, 2, 2, 222222, 1, 0)), J('c01', 'ref', (2, 3, 2, 123234, 3, 2)), J('c01', 'ref', (2, 2, 2, 421312, 2, 1))]
    if tier == 'thorough':
        for v in ALL5+['v4portable', 'v4avx', 'v8avx']:
            out += [J('c01', v, (4, 4, 5, 0, 3, 2), budget=900), J('c01', v, (18, 2, 3, 222222, 2, 1), budget=900), J('c01', v, (3, 7, 5, 121212, 4, 0), budget=900)]
    return out
PROPS['C01'] = dict(jobs=c01, bounds='meshes up to 5x3x3 (thorough 18x2x3, 4x4x5, 3x7x5) incl. every axis being one cell; 1-4 pipelines in three execution orders; every field component of every voxel in [-1,1], 1/dx in [0.5,2], frac in [0.25,1] symbolic; wall kinds periodic/metal/symmetric/pmc/absorbing',
                    outside='larger meshes; rounding')
NA = {}

# ---------------------------------------------------------------- C02-C07: field kernels (harness fld.cc)
OPS = dict(ADV_E=0, DIV_E=1, RHOB=2, DIV_B=3, RMS_E=4, RMS_B=5, CLEAN_E=6, CLEAN_B=7, EN_F=8, CURL_B=9, SYNC_EB=10, SYNC_JF=11, SYNC_RHO=12, ADV_B=13, CLR_JF=14, CLR_RHOF=15, RHOB_DIV=16)
def F(op, v, n, dom=(1, 1, 1), codes=0, nmat=1, damp=0, np=2, mode=1, sym=1, nonuni=0, mask=0, **k):
    if dom != (1, 1, 1): k['procs'] = dom[0]*dom[1]*dom[2]; sym = 0
    return J('fld', v, (OPS[op],)+tuple(n)+tuple(dom)+(codes, nmat, damp, np, mode, sym, nonuni, mask), **k)
DEGEN = ((1, 4, 3), (3, 1, 4), (4, 3, 1), (6, 1, 1), (1, 1, 4))
def fjobs(tier, ops, degen=True, walls=(111111, 222222, 333333, 444444, 124431, 410320), multi=True, mats=(3, 1), damp=0, ops_all5=None):
    """common shape of the field checks: every build variant, thin meshes, every wall kind, several domains"""
    out = []
    for op in ops:
        for v in (ALL5 if ops_all5 is None or op in ops_all5 else ['ref']):
            for nm in mats: out.append(F(op, v, (5, 3, 3), nmat=nm, damp=damp, budget=200))
        if degen:
            for i, n in enumerate(DEGEN):
                if op in ('CLEAN_E', 'CLEAN_B') or 1: out.append(F(op, 'ref', n, codes=401401 if i % 2 else 0, nmat=2 if mats[0] > 1 else 1, mode=2))
        for i, w in enumerate(walls): out.append(F(op, 'ref', (3, 2, 2) if i % 2 else (2, 3, 2), codes=w, nmat=2 if mats[0] > 1 else 1, np=1, mode=0)); out.append(F(op, 'ref' if ops_all5 is not None and op not in ops_all5 else ALL5[i % 5], (4, 3, 3) if i % 2 else (3, 3, 4), codes=w, nmat=2 if mats[0] > 1 else 1, np=2, mode=1+i % 2, damp=damp, budget=200))
        if multi: out += [F(op, 'ref', (2, 2, 2), (2, 1, 1), nmat=2 if mats[0] > 1 else 1, nonuni=1), F(op, 'ref', (2, 1, 2), (1, 2, 1), codes=101101, nonuni=1), F(op, 'ref', (2, 2, 1), (1, 1, 3), codes=120420)]
        if tier == 'thorough':
            for v in (ALL5+['v4portable', 'v4avx', 'v8avx'] if ops_all5 is None or op in ops_all5 else ['ref', 'v8omp']):
                for nm in mats: out += [F(op, v, (4, 4, 5), nmat=nm, damp=damp, codes=134212, np=3, mode=2, budget=900), F(op, v, (18, 2, 3), nmat=nm, damp=damp, np=2, budget=900), F(op, v, (3, 7, 5), codes=111111, nmat=nm, np=4, mode=0, budget=900)]
            if multi: out += [F(op, 'ref', (3, 2, 2), (2, 2, 1), codes=4004, nmat=2 if mats[0] > 1 else 1, nonuni=1, budget=900), F(op, 'ref', (2, 2, 2), (2, 2, 2), budget=900), F(op, 'v8omp', (2, 3, 2), (3, 1, 1), codes=100300, budget=600)]
    return out
FB = 'meshes up to 5x3x3 (thorough 18x2x3, 4x4x5, 3x7x5) incl. axes of one cell; %sall five wall kinds; 1-3 processes (thorough 8) with equal and 1:2 cell sizes; 1-2 pipelines (thorough 4) in three completion orders; every field component of every voxel, metrics and coefficients symbolic'
FO = 'larger meshes and process counts; rounding; domains wider than one hop'
PROPS['C02'] = dict(jobs=lambda t: fjobs(t, ['ADV_E'], damp=1), bounds=FB % '1-3 materials; ', outside=FO)
PROPS['C03'] = dict(jobs=lambda t: fjobs(t, ['DIV_E', 'RHOB', 'DIV_B', 'RMS_E', 'RMS_B'], ops_all5=('DIV_B',))+[F(o, v, (5, 3, 3), nmat=2) for o in ('DIV_E', 'RHOB', 'RMS_E', 'RMS_B') for v in ('v8omp',)]+[F('RHOB_DIV', 'ref', (3, 2, 2), codes=c, nmat=m) for c in (0, 111111, 123123) for m in (1, 2)], bounds=FB % '1-3 materials; ', outside=FO)
PROPS['C04'] = dict(jobs=lambda t: fjobs(t, ['CLEAN_E', 'CLEAN_B'], ops_all5=('CLEAN_B',))+[F('CLEAN_E', 'v8omp', (5, 3, 3), nmat=2)], bounds=FB % '1-3 materials; ', outside=FO+'; a mesh of a single cell (the diffusion constant is undefined there)')
PROPS['C05'] = dict(jobs=lambda t: fjobs(t, ['EN_F', 'CURL_B'], ops_all5=('CURL_B',))+[F('EN_F', 'v8omp', (5, 3, 3), nmat=m) for m in (1, 2)], bounds=FB % '1-3 materials; ', outside=FO)
def c06(t):
    out = []
    ws = [111111, 222222, 333333, 444444, 124431, 312142, 431213, 243124, 10010, 200200, 4004, 300200, 40010]
    for op in ('ADV_E', 'ADV_B', 'DIV_E', 'RHOB', 'CLEAN_E', 'CLEAN_B', 'SYNC_EB', 'SYNC_JF', 'SYNC_RHO'):
        for i, w in enumerate(ws[:8]): out.append(F(op, ALL5[i % 5] if op in ('ADV_E', 'ADV_B', 'CLEAN_B') else 'ref', (4, 3, 3) if i % 2 else (3, 3, 4), codes=w, nmat=1+i % 2, np=2, mode=1+i % 2, budget=200)) if op not in ('SYNC_EB', 'SYNC_JF', 'SYNC_RHO') else 0
        for i, w in enumerate(ws): out.append(F(op, 'ref', ((2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 3))[i % (4 if t == 'thorough' else 3)], codes=w, nmat=1+i % 2, np=1, mode=0))
        for n in ((1, 3, 2), (3, 1, 1), (1, 1, 3)): out.append(F(op, 'ref', n, codes=134213, nmat=2, np=1, mode=0)) if op not in () else 0
        out.append(F(op, 'ref', (2, 2, 2), (2, 1, 1), codes=123142)); out.append(F(op, 'ref', (2, 2, 2), (1, 1, 2), codes=314412))
        if t == 'thorough':
            for w in (121212, 343434, 314141, 142424): out += [F(op, v, (4, 3, 5), codes=w, nmat=2, budget=600) for v in ('ref', 'v4sse', 'v8omp')]
    return out
PROPS['C06'] = dict(jobs=c06, bounds='every wall kind on every face, 11 wall combinations, meshes to 3x3x3 (thorough 4x3x5) incl. single-cell axes, 1-2 domains; all field values symbolic', outside='larger meshes; rounding')
PROPS['C07'] = dict(jobs=lambda t: [j for op in ('SYNC_EB', 'SYNC_JF', 'SYNC_RHO', 'ADV_E', 'DIV_E', 'CLEAN_B') for j in
        [F(op, 'ref', (3, 2, 2)), F(op, 'ref', (1, 2, 3)), F(op, 'ref', (2, 2, 2), (2, 1, 1)), F(op, 'ref', (1, 2, 3), (2, 1, 1), nonuni=1, codes=100100), F(op, 'ref', (3, 1, 2), (1, 2, 1), nonuni=1), F(op, 'ref', (2, 3, 1), (1, 1, 2), nonuni=1), F(op, 'ref', (2, 2, 2), (3, 1, 1), codes=100300), F(op, 'ref', (2, 2, 2), (1, 3, 1), codes=20020), F(op, 'ref', (2, 2, 2), (1, 1, 3)), F(op, 'ref', (2, 2, 2), (2, 2, 1))]
        +([F(op, 'ref', (2, 2, 2), (2, 2, 2), budget=900), F(op, 'ref', (3, 4, 2), (2, 1, 2), nonuni=1, budget=900), F(op, 'v8omp', (4, 2, 3), (1, 2, 2), budget=900)] if t == 'thorough' else [])], bounds='1-4 processes (thorough 8) in 9 layouts incl. self-neighbours and two different neighbours, equal and 1:2 cell sizes, meshes to 3x2x2 per process; all values symbolic', outside='larger meshes and layouts; rounding')

# ---------------------------------------------------------------- C08: domain partition
def c08(t):
    G = lambda kind, n, p, sym=0, ieee=0, mode='R', **k: J('grd', 'ref', (kind,)+tuple(n)+tuple(p)+(sym, ieee), mode=mode, procs=(p[0]*p[1]*p[2] if not sym else k.pop('w')), **k)
    out = []
    lay = [((4, 3, 2), (1, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((4, 2, 3), (2, 1, 1)), ((2, 4, 1), (1, 2, 1)), ((2, 1, 6), (1, 1, 3)), ((4, 4, 1), (2, 2, 1)), ((3, 2, 4), (3, 1, 2)), ((2, 2, 2), (2, 2, 2)), ((2, 6, 2), (1, 3, 2)), ((4, 1, 1), (4, 1, 1)), ((1, 4, 8), (1, 2, 4))]
    if t == 'thorough': lay += [((6, 4, 4), (3, 2, 2)), ((4, 4, 4), (4, 2, 2)), ((9, 3, 3), (3, 3, 1)), ((5, 1, 7), (5, 1, 1)), ((16, 2, 2), (16, 1, 1)), ((2, 16, 2), (2, 8, 1))]
    for kind in (0, 1, 2):
        for n, p in lay: out.append(G(kind, n, p))
    for n, p in (((6, 6, 6), (2, 1, 1)), ((3, 3, 3), (1, 3, 1)), ((5, 5, 10), (1, 1, 5)), ((7, 2, 3), (7, 1, 1)), ((6, 2, 2), (3, 2, 1)))+((((4, 4, 4), (2, 2, 2)), ((11, 3, 3), (11, 1, 1))) if t == 'thorough' else ()): out.append(G(0, n, p, ieee=1, mode='F', validate=False))
    for kind in (0, 1, 2): out.append(G(kind, (3, 3, 3), (2, 2, 2), sym=7, w=1))
    for w in (2, 3, 4, 6): out.append(G(0, (6, 6, 6), (w, w, w), sym=1+(w % 3)*3 if w != 6 else 4, w=w, budget=200))
    for w in (2, 3, 4):
        for d in (0, 1, 2): out.append(J('grd', 'ref', (3, 2, 2, 2, w, 1, 1, d, 0), procs=w))
    out += [J('grd', 'ref', (4, a, b, s, 2, 1, 1, 0, 0), procs=2) for a in range(3) for b in range(3) if a != b for s in (0, 1)]
    out.append(J('grd', 'ref', (5, 0, 0, 0, 1, 1, 1, 0, 0))); out.append(J('grd', 'ref', (5, 0, 0, 0, 1, 1, 1, 0, 0), procs=2))
    return out
PROPS['C08'] = dict(jobs=c08, bounds='all box corners and lengths symbolic; 11 layouts of 1-8 processes (thorough 16) x periodic/absorbing/metal; 3 handler ids; symbolic resolutions -1..6 and process counts -1..6 for acceptance; domains of different size along one axis; every join/fbc/pbc boundary -2..30 and value -9..9; tiling exact in IEEE arithmetic for 2,3,5,6,7 domains',
                    outside='larger layouts; metric values are compared with tolerance, not bit-exactly')

# ---------------------------------------------------------------- C13, C14, C15 (arrays): harness sfi.cc
def S(op, v='ref', n=(2, 2, 2), codes=0, np=1, mode=0, a=0, b=0, dom=(1, 1, 1), **k):
    if dom != (1, 1, 1): k['procs'] = dom[0]*dom[1]*dom[2]
    return J('sfi', v, (op,)+tuple(n)+(codes, np, mode, a, b)+tuple(dom), **k)
def c13(t):
    out = []
    for i, v in enumerate(ALL5): out.append(S(0, v, (3, 2, 2), a=5, b=i+1))
    for n, c in (((1, 1, 1), 0), ((1, 3, 2), 101101), ((2, 1, 4), 444444), ((4, 2, 1), 222222), ((2, 3, 2), 132132)): out.append(S(0, 'ref', n, c, a=4, b=3)); out.append(S(0, 'ref', n, c, a=0, b=1))
    for n, c in (((3, 3, 3), 0), ((2, 2, 2), 0), ((1, 1, 1), 0), ((1, 2, 3), 111111), ((3, 1, 2), 234234)):
        for a in range(n[0]*n[1]*n[2]): out.append(S(1, 'ref', n, c, a=a))
    for v in ('v4sse', 'v8omp', 'v16portable'): out.append(S(1, v, (3, 3, 3), a=13)); out.append(S(1, v, (3, 3, 3), a=0))
    for dom, c in (((1, 1, 1), 0), ((2, 1, 1), 0), ((1, 2, 1), 0), ((1, 1, 3), 0), ((2, 2, 1), 0)):
        for a in (0, 1, 3, 7):
            for b in ((0, 1) if dom != (1, 1, 1) else (0,)): out.append(S(6, 'ref', (2, 2, 2), c, a=a, b=b, dom=dom))
    for c in (200200, 20020, 2002, 222222, 333333, 444444): out += [S(6, 'ref', (2, 3, 2), c, a=a) for a in (0, 5, 11)]
    if t == 'thorough':
        for v in ALL5: out += [S(0, v, (4, 3, 5), 0, a=12, b=k) for k in (1, 7, 11)]
        out += [S(1, 'ref', (4, 3, 5), 0, a=a) for a in range(60)]+[S(6, 'ref', (2, 2, 2), 0, a=a, b=b, dom=(2, 2, 2)) for a in range(8) for b in (0, 3, 7)]
    return out
PROPS['C13'] = dict(jobs=c13, bounds='up to 5 particles (thorough 12) with arbitrary offsets, momenta and weights in chosen cells; every cell of meshes up to 3x3x3 (thorough 4x3x5) for the bound-charge deposit; 1-4 processes for the total; previous contents of every voxel, charge and metrics symbolic', outside='larger counts; rounding')
def c14(t):
    out = []
    for v in ALL5:
        out += [S(2, v, (5, 3, 3), 0, 2, 1), S(3, v, (3, 3, 2), 0, 2, 1, a=1, b=1), S(4, v, (2, 1, 2), 0, 3, 2)]
    for i, n in enumerate(((1, 1, 1), (1, 4, 3), (3, 1, 4), (4, 3, 1), (6, 1, 1))):
        out += [S(2, 'ref', n, 0, 3, 2), S(3, 'ref', n, 0, 1+i, i % 3, a=1, b=1), S(4, 'ref', n, 0, 5-i, 2)] if n[0]*n[1]*n[2] < 20 else []
    for k in range(1, 13): out.append(S(3, 'ref', (2, 1, 1), 0, k, k % 3, a=k & 1, b=1)); out.append(S(3, ALL5[1+k % 4], (1, 2, 1), 0, k, k % 3, a=1, b=1)); out.append(S(4, ALL5[k % 5], (1, 1, 1), 0, k, k % 3))
    out += [S(2, 'ref', (2, 3, 2), 123123), S(3, 'ref', (2, 2, 2), 111111, 2, 2, a=1, b=0)]
    if t == 'thorough':
        for v in ALL5+['v4portable', 'v4avx', 'v8avx']:
            out += [S(2, v, (18, 2, 3), 0, 3, 2, budget=600), S(3, v, (4, 3, 4), 0, 3, 2, a=1, b=1, budget=600), S(4, v, (3, 3, 3), 0, 2, 0, budget=600)]
            out += [S(3, v, (2, 1, 1), 0, k, 0, a=1, b=1, budget=600) for k in (16, 18, 19, 20, 27)]
    return out
PROPS['C14'] = dict(jobs=c14, bounds='meshes up to 5x3x3 (thorough 18x2x3) incl. axes of one cell; 1-12 pipelines (thorough 27) in three completion orders; five build variants; every array entry, metric and the point in the cell symbolic', outside='larger meshes; rounding')
# ---------------------------------------------------------------- C09/C10: particle motion
def P(op, what, v, n=(2, 2, 2), codes=0, cell=(1, 1, 1), np=1, lane=0, pl=1, mode=0, sgn=0, zero=0, fam=0, **k):
    k.setdefault('opts', dict(canon=1, forksel=1)); return J('par', v, (op, what)+tuple(n)+(codes,)+tuple(cell)+(np, lane, pl, mode, sgn, zero, fam), **k)
VW = dict(ref=1, v4sse=4, v8avx2=8, v8omp=8, v16portable=16, v4portable=4, v4avx=4, v8avx=8, v16avx512=16)
def motion(what, t):
    """one tracked particle; op 0: whole push (fields, Boris, displacement), op 1: move_p"""
    th = t == 'thorough'; out = []
    vs = ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable')
    # straight through cells: every direction
    for s in range(8): out += [P(0, what, vs[(s+k) % 5], sgn=s, fam=31, cell=(2-(s & 1), 1+(s >> 1 & 1), 2-(s >> 2)), np=17, lane=(5*s+3*k) % 17) for k in (range(5) if th else (0, 2))]
    # walls: one cell between them, and a mixture; every direction
    for i, c in enumerate((111111, 222222, 333333, 444444, 104103, 410120, 14032, 231412)):
        for s in range(8):
            if th or (s+i) % 2 == 0:
                out.append(P(1, what, vs[(s+i) % 5], n=(1, 1, 1), codes=c, sgn=s))
                out.append(P(0, what, vs[(s*3+i+2) % 5], n=(1, 2, 1) if i % 2 else (2, 1, 1), cell=(1, 1+(i & s & 1), 1) if i % 2 else (1+(s >> 1 & 1), 1, 1), codes=c, sgn=s, fam=31, np=17 if s % 3 else 3, lane=(s*3+i) % (16 if s % 3 else 3)))
    # particles without displacement along some axes
    for z in range(1, 8): out.append(P(0, what, vs[z % 5], codes=(0, 111111, 222222)[z % 3], zero=z, sgn=z*3 % 8, n=(1, 1, 1), fam=31, np=17, lane=z*2))
    # lanes, remainders, pipelines
    for k in range(17 if not th else 34): out.append(P(0, what, vs[1+k % 4], sgn=k*3 % 8, cell=(1+k % 2, 1, 2), np=34, lane=k if th else k*2, pl=1+k % 3, mode=k % 3, fam=31, codes=(0, 111111, 220122)[k % 3]))
    return out
def c09(t): return motion(1, t)
def c10(t): return motion(2, t)
MB = 'one particle with arbitrary position in its cell, displacement (up to 1 cell per axis in every one of the 8 directions; zero along any subset of axes), momentum, weight and charge, for the whole push in arbitrary electric and magnetic fields with gradients, and for move_p alone; domains of 1x1x1 to 2x2x2 cells, every face kind (periodic, reflecting, absorbing, handler, neighbouring domain) in 8 mixtures; 3-34 particles so that the tracked one is in every vector lane and the remainder; 1-3 pipelines under 3 schedules; scalar, SSE, AVX2, portable 16-wide and OpenMP builds'
MO = 'rounding (positions on a face after rounding); more than one moving particle in the same run (C12); displacements along an axis that are not zero but shorter than 1/1024 cell; for a zero displacement positions within 1/1024 of a face'
PROPS['C09'] = dict(jobs=c09, bounds=MB, outside=MO)
PROPS['C10'] = dict(jobs=c10, bounds=MB, outside=MO)


# ---------------------------------------------------------------- C11: momentum
def M11(op, v='ref', np=1, lane=0, pl=1, mode=0, fam=31, nsym=1, **k): return J('mom', v, (op, np, lane, pl, mode, fam, nsym), **dict(dict(opts=dict(canon=1, forksel=1)) if op == 0 else {}, **k))
def c11(t):
    out = []
    for i, v in enumerate(ALL5):
        np = 17 if i else 2
        for op in range(5):
            out.append(M11(op, v, np, (3*op+i) % 16 if i else op % 2))
            out.append(M11(op, v, np, (5*op+i+7) % 17 if i else op % 2, fam=30)); 
            if op == 0: out.append(M11(op, v, np, (5*i+2) % 16 if i else 0, fam=1))
    return out
PROPS['C11'] = dict(jobs=c11, bounds='arbitrary position in the cell, momentum (|u|<=2 per component), charge, electric field with gradients and magnetic field with gradients (each coefficient in [-2,2]) for one particle in chosen lanes and remainders of every kernel; push, centring, un-centring and both compositions; five build variants', outside='rounding; accuracy of the tangent series (the oracle uses the documented fifth-order series)')
def c12(t):
    out = []; th = t == 'thorough'
    MV = lambda v, np, pl, mode, pat, mx, **k: J('mom', v, (5, np, 0, pl, mode, pat, mx), opts=dict(canon=1, forksel=1), **k)
    for i, v in enumerate(ALL5):
        w = {'ref': 1, 'v4sse': 4, 'v8avx2': 8, 'v8omp': 8, 'v16portable': 16}[v]
        for op in (0, 1, 2):
            # sixteen arbitrary particles at once: a block, block and remainder, several blocks and pipelines
            out += [M11(op, v, 17, 0, 1, 0, 1, 16), M11(op, v, 35, 19, 1, 0, 1, 16), M11(op, v, 50, 25, 2+(op+i) % 2, (op+i) % 3, 1, 16), M11(op, v, 16, 0, 1, 0, 2 << (op+i) % 3, 16), M11(op, v, 31, 10, 3, 1, 2 << (op+i+1) % 3, 16)]
            if v != 'ref': out.append(M11(op, v, 17, (3, 7, 11)[(op+i) % 3], 1, 0, 31, 4))
            if th: out += [M11(op, v, n, n-16, p, n % 3, 1, 16) for n in range(32, 66, 3) for p in (1, 3)]+[M11(op, v, 33, 4*k, 1, 0, 31, 4) for k in range(8)]
        for k, np in enumerate((15, 16, 18, 34, 50)): out += [MV(v, np, 1+k % 3, k % 3, k, 0), MV(v, np, 1+k % 3, k % 3, (k+i) % 3, (3, 9, 17)[(k+i) % 3])]
        if v != 'ref': out += [H(1, v, np=33, lane=l, fam=1, cell=l % 8) for l in (range(33) if th else range(i % 3, 33, 3))]
        if th: out += [MV(v, n, 1+n % 5, n % 3, n % 7, m) for n in range(1, 70, 4) for m in (0, 1, 20)]
    return out
PROPS['C12'] = dict(jobs=c12, bounds='16 arbitrary particles at once, each in its own cell with its own electric field with gradients or magnetic field component, and 4 at once with everything arbitrary, in lists of 16-50 particles (thorough 65) over 1-3 pipelines under 3 schedules, push, centring and un-centring; kinetic energy of one arbitrary particle in a third of the lanes (thorough: all) of 33; mover lists of 15-50 particles (thorough 69) that stay, cross or leave in 5 patterns with plenty of or too little mover storage; five build variants', outside='rounding; the approximate reciprocals are exact here (their error is in C22); longer lists')

# ---------------------------------------------------------------- C25: collisions
def c25(t):
    th = t == 'thorough'; out = []
    def C(*c, **k): 
        k.setdefault('opts', dict(canon=1, forksel=1, flush=1)); out.append(J('col', k.pop('v', 'ref'), c, **k))
    for o in range(6):
        for model in (0, 1):
            for w in ((o+model)%3,) if not th else (0, 1, 2): C(0, model, w, o, int(th or (o, model) == (1, 1)), budget=200)
            if th or o % 2 == model: C(3, model, 0, o, int(th), budget=200)
            if th or o % 3 == model: C(3, model, 1, o, 1, budget=200)
        for w in (o//2,) if not th else (0, 1, 2): C(5, o % 2, w, o, int(th or o == 1), budget=200)
    for like, nk, nl, mk, ml, s4, pl, rate in ((0, 2, 1, 0, 0, 4, 1, 2), (0, 1, 2, 1, 1, 4, 2, 1), (0, 2, 2, 1, 0, 2, 3, 0), (1, 3, 0, 0, 0, 4, 1, 1), (1, 2, 0, 0, 0, 4, 1, 2), (1, 2, 0, 1, 0, 8, 2, 0)): C(1, like, nk, nl, mk, ml, s4, pl, pl % 3, rate, budget=100)
    for like, nk, nl, mk, ml, s4, pl, rate, rd, st in ((0, 2, 1, 0, 0, 2, 1, 1, 1, 0), (0, 1, 2, 0, 0, 2, 1, 1, 1, 0), (0, 2, 3, 0, 0, 2, 1, 1, 1, 0), (0, 3, 2, 1, 1, 2, 2, 0, 0, 1), (0, 2, 3, 1, 2, 2, 1, 0, 0, 2), (0, 1, 2, 1, 1, 4, 3, 0, 0, 3), (1, 3, 0, 1, 0, 2, 1, 0, 0, 1), (1, 3, 0, 0, 0, 2, 1, 1, 1, 0)): C(1, like, nk, nl, mk, ml, s4, pl, pl % 3, rate, rd, st, budget=100)
    for model in (0, 1): C(8, model, 0); C(8, model, 1)
    for np, pl, rate in ((3, 1, 2), (7, 3, 1), (5, 2, 0), (2, 4, 1)): C(2, np, pl, pl % 3, rate)
    for np, pl, k in ((1, 1, 1), (5, 2, 1), (7, 3, 0), (3, 1, 2)): C(4, np, pl, pl % 3, k)
    for like, nk, nl, mk, pl in ((1, 2, 0, 3, 1), (1, 4, 0, 1, 2), (0, 2, 2, 1, 1), (0, 3, 1, 2, 2), (0, 1, 3, 0, 3)): C(6, like, nk, nl, mk, pl, pl % 3, budget=100)
    for like, nk, nl, mk, pl, st in ((0, 5, 3, 1, 1, 0), (0, 3, 5, 1, 2, 1), (0, 7, 2, 1, 1, 2), (0, 2, 7, 1, 1, 3), (0, 4, 4, 1, 1, 2), (1, 7, 0, 5, 1, 0), (1, 8, 0, 2, 2, 1), (1, 5, 0, 3, 1, 1)): C(6, like, nk, nl, mk, pl, pl % 3, 2, st, budget=100)
    for like, nk, nl, pk, iv, big, dv in ((0, 1, 1, 0, 0, 0, 0), (0, 2, 1, 0, 1, 0, 1), (0, 1, 2, 1, 0, 0, 0), (0, 2, 2, 1, 2, 0, 1), (0, 3, 2, 2, 0, 0, 0), (0, 1, 1, 0, 1, 1, 0), (1, 2, 0, 0, 1, 0, 0), (1, 3, 0, 1, 0, 0, 1), (1, 4, 0, 1, 0, 0, 0), (1, 5, 0, 2, 1, 0, 0), (1, 5, 0, 3, 0, 0, 0), (1, 2, 0, 0, 0, 1, 1)): C(9, like, nk, nl, pk, iv, big, dv, budget=100)
    for i, s in ((1, 5), (3, 6), (3, 7), (0, 4), (-1, 3)):
        for k in (1, 2, 4, 8, 15): C(7, i, s, k)
    return out
PROPS['C25'] = dict(jobs=c25, bounds='one pair (or particle and fluid) with arbitrary momenta, drift, thermal partner and draws, equal weights and either one lighter, all six orders of the components of the relative momentum, hard sphere / large angle Coulomb / Takizuka-Abe, like and unlike species; impact parameters with at most one rejection; rates of both fluid models against the documented formula; pairing of cells of up to 4 particles with every 32-bit pairing draw (and of up to 8 in Takizuka-Abe with given shuffles), up to 2 cells, lists sorted or not, 1-3 pipelines in three completion orders; the angle of Takizuka-Abe for cells of up to 5 particles with any weights and base variance; unary and Langevin on up to 7 particles on 1-4 pipelines; interval and list of operators; real arithmetic, FLT_MIN read as 0', outside='rounding; relative momenta below 1/32 or within 1/64 of an axis; larger cells; more rejections in a row; the distribution of the draws (C20) and of the pairs')

# ---------------------------------------------------------------- C17: boundary_p
def c17(t):
    th = t == 'thorough'; out = []
    def B(D, n, codes, ns, np, mask, cells=0, rounds=1, room=0, var=0, twice=0, fill=0, v='ref', **k):
        W = D[0]*D[1]*D[2]
        out.append(J('bnd', v, tuple(D)+tuple(n)+(codes, ns, np, mask, cells, rounds, room, var, twice, fill), procs=W, opts=dict(canon=1, forksel=1), **k))
    # walls of one domain
    for i, codes in enumerate((222222, 333333, 555555, 666666, 235672, 526263, 777222, 123156, 213605)):
        for v in ('ref', 'v4sse', 'v8avx2', 'v8omp') if i % 3 == 1 or th else ('ref', ('v4sse', 'v8avx2', 'v8omp')[i % 3]):
            B((1, 1, 1), ((2, 2, 1), (1, 1, 1), (3, 2, 2))[i % 3], codes, 1+i % 2, 6, (0b101101, 0b111111, 0b010011)[(i+len(v)) % 3], room=i % 3, var=i, twice=i % 2, v=v)
    # domains: displacements ending in the first, the second ... domain, enough rounds or not, storage that grows and shrinks
    k = 0
    for D, n in (((2, 1, 1), (2, 1, 1)), ((1, 2, 1), (1, 2, 2)), ((1, 1, 2), (2, 1, 1)), ((3, 1, 1), (1, 2, 1)), ((1, 3, 1), (1, 1, 1)), ((2, 2, 1), (1, 1, 2)), ((1, 1, 3), (1, 2, 2)), ((2, 1, 2), (2, 1, 1))):
        for codes in (0, 222222, 563235):
            for cells, rounds in ((0, 1), (1, 1), (2, 3), (3, 2)):
                k += 1
                if th or k % 3 == 0 or (cells == 1 and codes == 0): B(D, n, codes, 1+k % 2, 3 if D[0]*D[1]*D[2] < 4 else 2, (0b101, 0b111, 0b110)[k % 3], cells, rounds, k % 3, k, int(k % 5 == 0), v=('ref', 'v4sse', 'v8avx2', 'v8omp')[k % 4])
    B((2, 1, 1), (1, 1, 1), 0, 2, 0, 0); B((2, 1, 1), (1, 1, 1), 0, 2, 3, 0, room=2)
    # storage that grows, and shrinks, with many particles in it
    for i, (room, fill) in enumerate(((2, 130), (2, 200), (1, 140), (2, 285), (2, 297))): B((1, 1, 1) if i % 2 else (2, 1, 1), (2, 1, 1), 525552, 1, 4, (0b1011, 0b1111)[i % 2], 0, 1, room, i, 0, fill, v=('ref', 'v4sse', 'v8avx2')[i % 3])
    B((1, 1, 1), (2, 2, 1), 555555, 2, 4, 0b0001, twice=1)
    return out
PROPS['C17'] = dict(jobs=c17, bounds='1-3 species of up to 8 particles per domain, 9 wall combinations (reflecting, absorbing, counting absorber, two kinds of handlers, unknown) of one domain and 8 layouts of 2-4 domains of 1-12 cells; any positions, momenta, weights and remaining displacements that end 0-3 cells beyond the face, with and without enough rounds; tight, ample and oversized storage, up to 301 particles in storage that grows or shrinks; a second call with more particles in the same process; vector and scalar copies; real arithmetic', outside='particles that leave the next cell through a second, different face (move_p: C09, C10); rounding; more particles, domains and species; DISABLE_DYNAMIC_RESIZING builds')

# ---------------------------------------------------------------- C18: injection
def I_(op, D, n, wrap, *c, v='ref', **k): return J('inj', v, (op,)+tuple(D)+tuple(n)+(wrap,)+tuple(c), **dict(k, procs=D[0]*D[1]*D[2]))
def c18(t):
    th = t == 'thorough'; out = []
    FS = dict(canon=1, forksel=1)
    for i, (D, n) in enumerate((((1, 1, 1), (3, 1, 2)), ((2, 1, 1), (2, 2, 1)), ((1, 2, 1), (1, 3, 2)), ((1, 1, 2), (2, 1, 2)), ((3, 1, 1), (1, 1, 1)), ((1, 3, 1), (2, 1, 1)))):
        for ax in range(3):
            if D[ax] == 1 and D != (1, 1, 1): continue
            for kind in (0, 1, 2, 3):
                if th or kind in (1, 2 if i % 2 else 0): out.append(I_(0, D, n, (i+kind) % 3, ax, kind, mode='F'))
    vs = ('ref', 'v4sse', 'v8avx2', 'v8omp') if th else ('ref', 'v4sse')
    k = 0
    for D, n in (((1, 1, 1), (3, 1, 2)), ((2, 1, 1), (2, 2, 1)), ((1, 2, 1), (1, 3, 2)), ((1, 1, 2), (2, 1, 2)), ((3, 1, 1), (1, 2, 1)), ((2, 2, 1), (1, 2, 1)), ((1, 1, 1), (1, 1, 1))):
        for wrap in (0, 1, 2):
            for c, walls in (((0, 0, 0), 0), ((0, 0, 0), 1), ((-1, 0, 0), 0b001000), ((0, -1, 0), 0b010000), ((1, 0, 1), 0b001000), ((1, 1, 1), 0b101010), ((9, 9, 9), 0), ((9, 9, 9), 0b111000), ((9, 0, 9), 0b001000), ((0, 9, 0), 0b010000), ((0, 0, 9), 0b100000), ((9, 0, 0), 0b001000), ((99, 0, 0), 0), ((0, 99, 0), 0b010000), ((0, 0, 99), 0b000100)):
                k += 1
                if not th and k % 4 != 1 and D[0]*D[1]*D[2] != 2: continue
                if not th and k % 2: continue
                G = [D[a]*n[a] for a in range(3)]
                cc = tuple(G[a]-1 if c[a] == 9 else G[a] if c[a] == 99 else min(c[a], G[a]-1) for a in range(3))
                out.append(I_(1, D, n, wrap, *cc, walls, k & 1, 0, 0, k % 3, v=vs[k % len(vs)], opts=FS))
    for i, (D, n, c) in enumerate((((1, 1, 1), (2, 2, 2), (0, 1, 0)), ((1, 1, 1), (1, 1, 1), (0, 0, 0)), ((2, 1, 1), (1, 2, 1), (1, 0, 0)))):
        for wrap in (0, 1, 2):
            for sg in range(8):
                if th or (sg+i+wrap) % 4 == 0: out.append(I_(2, D, n, wrap, *c, 0, sg & 1, sg, 0, (sg+wrap) % 2, v=vs[(i+sg//4) % 2], opts=FS))
        out.append(I_(2, D, n, i, *c, 0, 1, 5, 1, 3, opts=FS))
    out += [I_(3, (1, 1, 1), (2, 2, 2), i % 3, i) for i in range(6)]
    for i, n in enumerate(((2, 2, 2), (1, 2, 1))):
        out.append(I_(4, (1, 1, 1), n, i, 0, i, 1, 2, 1, 0, opts=FS))
        for sg in range(8):
            if th or sg % 3 == i: out.append(I_(4, (1, 1, 1), n, sg % 3, 1, sg >> 1 & 1, 1, 1+sg % 2, 1, sg, opts=FS))
    return out
PROPS['C18'] = dict(jobs=c18, bounds='every double coordinate within one unit of the box along one axis in IEEE arithmetic (4 boxes with inexact walls, periodic, absorbing and metal, 1-3 domains); any point of chosen cells, on shared walls, far walls and outside along all axes, any momentum, weight and charge over the reals, 1-4 domains of 1-12 cells; any age 1/8..2 with displacements up to a cell in 8 directions; full particle and mover storage, missing species, negative weight; both raw variants', outside='IEEE rounding of the momentum-dependent displacement; displacements beyond one cell (move_p: C10); NaN coordinates; larger decompositions')

# ---------------------------------------------------------------- C19: reflux and emission
def c19(t):
    th = t == 'thorough'; out = []
    FS = dict(canon=1, forksel=1); vs = ('ref', 'v4sse')
    for f in range(6):
        for w in range(3):
            if th or (f+w) % 2 == 0: out.append(J('emi', vs[(f+w)//2 % 2], (0, f, w, (f+w) % 3 and 7 & (f*3+w)), opts=dict(flush=1)))
    for f in range(6):
        for i, (n, codes, c) in enumerate((((2, 2, 2), 111111, (1, 2, 1)), ((1, 2, 3), 0, (1, 1, 2)), ((2, 1, 1), 222222, (2, 1, 1)))):
            for sg in (range(16) if th else ((f*5+i*3) % 16,)): out.append(J('emi', vs[(f+i) % 2], (1, f)+n+(codes,)+c+(sg,), opts=FS))
    k = 0
    for l in range(5):
        for nem, rp, rm in ((1, 20, 4), (2, 20, 4), (3, 4, 4), (2, 20, 0), (2, 3, 0), (2, 20, 1)):
            k += 1
            for qs in ((1, -1) if th else ((-1)**k,)): out.append(J('emv' if rm else 'emi', vs[k % 2], (2, l, nem, rp, rm, qs), opts=dict(canon=1, forksel=1)))
    out += [J('emi', 'ref', (3, k)) for k in range(13)]
    return out
PROPS['C19'] = dict(jobs=c19, bounds='reflux: 6 faces x 3 species, any momentum (also exactly zero components), position, remaining fraction of the step, temperatures and draws; emission with real ageing: 6 faces, 3 meshes (walls, periodic, absorbing), any field above the threshold, draws, age; lists of up to 3 components (also non-face components and repeated ones) x n_emit 1-3 x storage limits (particles 0-20, movers 0-4) x both charge signs, any fields and threshold; 12 refused argument combinations; variants ref, v4sse', outside='rounding; particles at rest exactly on a face during ageing (signed zero); distribution of the draws themselves (C20, C21); longer component lists')

# ---------------------------------------------------------------- C24: checkpoint
def c24(t):
    th = t == 'thorough'; out = []
    for ex in ((0, 1, 0x2d, 0xff) if not th else (0, 1, 2, 5, 0x2d, 0x36, 0x9c, 0xff)):
        for od in ((1, 6) if not th else range(1, 8)): out.append(J('ckp', 'ref', (0, ex, od)))
    out += [J('ckp', 'ref', (1, k)) for k in range(29)]
    out += [J('ckp', 'ref', (2, k)) for k in range(25)]
    for i, (n, v) in enumerate((((1, 1, 1), 'ref'), ((2, 1, 1), 'v4sse'))): out += [J('ckp', v, (3, m)+n) for m in ((0, 7) if not th else range(8))]
    out += [J('ckp', 'ref', (3, 7, 1, 1, 1), procs=2), J('ckp', 'ref', (4, 6 if th else 4), opts={})]
    return out
PROPS['C24'] = dict(jobs=c24, bounds='user objects: every raw byte, value, string character and element of 7 data layouts, 4 objects with any forward pointer for two of them, two generations; identifier histories of 4 steps (thorough 6) on 4 objects; 29 misuses; files with any other 64-bit value in place of each header mark and 9 other damages, cut short at 64 places; a whole simulation (grid, message buffers, materials, fields, interpolators, accumulators, hydro, 2 species, reflux, tally, 2 emitters, 4 collision operators, generators, user globals) with arbitrary contents on meshes 1x1x1 and 2x1x1, 1-2 processes', outside='damage to payload bytes (no checksum exists), larger sizes, failing writes of the device; an address outside the exported functions stands for itself')

# ---------------------------------------------------------------- C29: dumps
def c29(t):
    th = t == 'thorough'; out = []
    D = lambda *c, **k: out.append(J('dmp', k.pop('v', 'ref'), c, **k))
    D(0, 2, 1, 3); D(0, 1, 2, 1, procs=2)
    for n in ((2, 1, 3), (1, 1, 1)):
        for tag in (0, 1): D(1, *n, tag, tag); D(2, *n, tag, 1, tag); D(2, *n, tag, 0, 1-tag)
    D(1, 1, 2, 1, 1, 0, procs=2); D(2, 1, 1, 1, 0, 0, 0, procs=2); D(3, 2, 1, 1, 1, 3, 1, procs=2)
    for v in ('ref', 'v4sse'):
        for n in (range(10) if th else (0, 1, 4, 5, 9)): D(3, 2, 1, 2, n%2, n, min(n, 2), v=v)
    A = 0xffffff
    ms = [1 << k for k in range(24)]+[A, 0x7fffffff, 0, 7, 0x70, 0x70000, 0xf08f00, 0x800001]
    mh = [1 << k for k in range(14)]+[0x3fff, 0x7fffffff, 0, 7, 0x3f00, 0x2001]
    st = (((2, 1, 3), (1, 1, 1)), ((2, 2, 1), (2, 1, 1)), ((1, 4, 1), (1, 2, 1)), ((1, 1, 3), (1, 1, 3)), ((4, 1, 2), (2, 1, 2)), ((6, 2, 1), (3, 2, 1)), ((2, 3, 4), (1, 3, 2)))
    for op, m in ((4, ms), (5, mh)):
        for i, k in enumerate(m):
            for j, (n, s) in enumerate(st):
                if th or (i+op) % 7 == j: D(op, *n, 0, *s, k, (i+j) % 2 if op == 4 else 1, -1 if (i+j) % 3 else 33)
        for j, (n, s) in enumerate(st): D(op, *n, 1, *s, 0, 1, -1 if j % 2 else 0)
    D(5, 1, 2, 1, 1, 1, 1, 1, 0, 0, -1)
    D(4, 2, 1, 1, 0, 2, 1, 1, 9, 0, -1, procs=2)
    for k in range(16): D(6, 2, 3, 4, k)
    T = lambda *c, **k: out.append(J('dma', 'ref', c, **k))
    for a in range(3):
        for ns in range(4 if th else 3): T(0, 2, 1, 2, a, ns)
    T(0, 1, 2, 1, 0, 1, procs=2); T(1, 1, 1, 1, 2, procs=2); T(2, 1, 1, 1, 1, procs=2); T(3, 1, 1, 1, 0x1ff, 0xff, 1, procs=2)
    for k in (0, 1, 3): T(1, 1, 1, 1, k)
    for k in (0, 1, 3): T(2, 1, 1, 1, k)
    for i, (f, h) in enumerate(((A, 0x3fff), (0x7fffffff, 0x7fffffff), (0, 0), (7, 7), (0xff0000, 0x3f00), (0x70, 0x18), (0x8808, 0x90), (0x10101, 0x11))): T(3, 1, 2, 1, f, h, 1+i % 2); T(4, 1, 1, 1, f); T(4, 1, 1, 1, h)
    return out
PROPS['C29'] = dict(jobs=c29, bounds='every 32-bit word of every field, material and moment; every header value, boundary code, range and neighbour; 0-9 particles with any position, momentum and weight through a buffer of 4 (the buffer size is a compile-time hook), scalar and v4 kernels; band and interleaved, each variable alone and 8 (6) combinations, strides 1-3 alone and mixed on 7 meshes, own or simulation arrays, given or current step; 1-2 processes; 16 refusals; text tables of energies, species (0-2), materials and the global header with every symbolic number as written to the formatter, variable lists of 8 masks', outside='digits printf makes of a number, failing writes of the device, larger meshes')

# ---------------------------------------------------------------- C30: whole steps
def c30(t):
    th = t == 'thorough'; out = []
    FS = dict(canon=1, forksel=1)
    T = lambda *c, **k: out.append(J('stp', k.pop('v', 'ref'), c, opts=FS, **k))
    k = 0
    for n, codes, c, R, nm, W in (((2, 2, 2), 0, (1, 2, 1), 3, 1, 1), ((2, 1, 1), 0, (1, 1, 1), 3, 2, 1), ((1, 1, 1), 0, (1, 1, 1), 1, 1, 1), ((1, 1, 3), 0, (1, 1, 3), 0, 1, 1), ((1, 2, 1), 0, (1, 2, 1), 2, 1, 1),
            ((2, 2, 1), 100100, (2, 1, 1), 3, 1, 1), ((2, 2, 2), 10010, (1, 1, 2), 3, 1, 1), ((1, 2, 2), 11011, (1, 2, 2), 3, 1, 1), ((2, 2, 1), 200200, (2, 1, 1), 3, 1, 1), ((2, 2, 2), 222222, (1, 1, 2), 1, 1, 1),
            ((2, 2, 2), 20020, (2, 2, 1), 3, 1, 1), ((2, 2, 2), 2002, (1, 1, 1), 1, 1, 1), ((2, 2, 2), 300300, (1, 2, 1), 0, 1, 1), ((2, 2, 1), 333333, (2, 1, 1), 0, 1, 1), ((1, 2, 2), 30030, (1, 2, 1), 0, 1, 1),
            ((2, 1, 1), 0, (1, 1, 1), 3, 1, 2), ((2, 2, 1), 0, (1, 1, 1), 0, 1, 2), ((2, 1, 1), 0, (2, 1, 1), 1, 1, 2), ((2, 1, 2), 100100, (2, 1, 1), 3, 1, 2), ((2, 1, 2), 200200, (1, 1, 2), 3, 1, 2), ((2, 1, 1), 300300, (1, 1, 1), 0, 1, 2)):
        for sg in (range(8) if th else (k % 8, 7-k % 8)): T(0, *n, codes, *c, sg, R, nm, procs=W)
        k += 3
    for n, codes, c, sg, R in (((2, 2, 2), 0, (1, 2, 1), 5, 3), ((2, 2, 2), 10010, (1, 1, 2), 6, 3)): T(0, *n, codes, *c, sg, R, 1, v='v4sse')
    for i, (st, ns, iv, e, r) in enumerate(((4, 9, 2222, 0, 1), (0, 0, 3333, 1, 2), (5, 6, 2345, 0, 1), (6, 7, 2345, 1, 1), (5, 5, 1111, 0, 1), (6, 5, 1111, 0, 1), (12, 0, 435, 0, 1), (3, 4, 3000, 0, 1), (7, 99, 710, 0, 1), (0, 1, 7, 0, 1), (1, 9, 1110, 0, 3), (8, 9, 0, 1, 0), (9, 0, 3402, 0, 0), (2, 3, 101, 1, 1))):
        for n in (((2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2)) if th else (((2, 2, 1), (1, 2, 2), (2, 1, 2))[i % 3],)): T(1, *n, st, ns, iv, e, r, (3*i) % 8)
    for n, p, W in (((2, 3, 3), (1, 1, 1), 1), ((2, 2, 2), (2, 1, 1), 2), ((2, 2, 3), (1, 2, 1), 2), ((3, 3, 2), (1, 1, 2), 2), ((1, 2, 2), (1, 1, 1), 1), ((2, 2, 2), (3, 1, 1), 3), ((2, 2, 2), (2, 2, 1), 4), ((2, 2, 2), (2, 1, 2), 4)): T(2, *n, *p, procs=W)
    for n, codes, c, nm, W in (((2, 2, 1), 0, (1, 2, 1), 1, 1), ((2, 2, 2), 0, (2, 1, 1), 2, 1), ((1, 2, 2), 10010, (1, 1, 2), 1, 1), ((2, 2, 2), 111111, (2, 2, 1), 2, 1), ((2, 2, 1), 200200, (2, 1, 1), 1, 1), ((2, 1, 1), 0, (1, 1, 1), 1, 2), ((2, 2, 1), 100100, (2, 1, 1), 1, 2), ((2, 2, 2), 0, (2, 1, 1), 2, 2), ((2, 2, 1), 100100, (2, 1, 1), 2, 2)): T(3, *n, codes, *c, nm, procs=W)
    return out
PROPS['C30'] = dict(jobs=c30, bounds='one whole advance() with arbitrary fields, charges, materials (1-2) on 14 meshes of 1-3 cells per axis, 1-2 processes joined along x; one particle with any weight, momentum and position moving at most one cell per axis (and one of another species at rest): it stays, crosses cells, wraps, reflects, is absorbed, goes to the neighbouring domain or is dropped with an unprocessed mover; Gauss error compared at every node off the walls, magnetic divergence in every cell. Step sequence: driver against the documented sequence of the real kernels from the same symbolic state (two species, sort, operators, emitter, user hooks that change the state), 14 combinations of step, end step and intervals. Initialization: 10 meshes, 1-2 processes. Poynting flux: 8 decompositions up to 4 processes', outside='several moving particles at a time (superposition), several steps, other decompositions than along x for the step, two or more domains that are one cell thick along x (the kernels take such an axis as ignorable), Poynting flux with ny or nz of 1 (0/0)')

# ---------------------------------------------------------------- C31: what decks call
def c31(t):
    th = t == 'thorough'; out = []
    D = lambda *c, **k: out.append(J('dck', 'ref', c, **k))
    NS = ((2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1), (2, 2, 1))
    for op in (0, 1):
        for i in range(16 if th else 6): D(op, *NS[(i+op) % 5], i, 5 if th else 4)
    for i, a in enumerate(((1, 2), (-1, 2), (1, -1), (-1, -1), (3, 0), (0, 3))):
        for sd in (range(8) if th else (i, i+9)): D(2, *NS[(i+sd) % 5], sd, 6 if th else 5, *a)
        if i < 4:
            for sd in (range(4) if th else (i,)): D(3, *NS[i], sd, 5, a[0])
    for i, a in enumerate(((1, 2, 3), (0, 2, 4), (3, 0, 2), (4, 3, 0), (0, 0, 1), (0, 0, 0), (2, 0, 0))):
        for sd in (range(8) if th else (i, i+9)):
            D(4, *NS[(i+sd) % 5], sd, 6 if th else 5, *a)
            D(5, *NS[(i+sd+1) % 5], sd, 6 if th else 5, *a[1:])
    for i in range(16 if th else 8): D(6, *NS[i % 5], i, 5); D(7, *NS[(i+2) % 5], i, 4)
    D(8, 1, 1, 1, 0, 0, 0)
    for w in (1, 2, 3):
        D(8, 2, 3, 4, 0, 0, w, 1, 1, 1); D(8, 2, 2, 4, 0, 0, w, *((2, 1, 1), (1, 2, 1), (1, 1, 2))[w-1], procs=2)
    for w in (4, 5, 6, 10): D(8, 2, 1, 1, 0, 0, w)
    for b in range(6): D(8, 2, 3, 2, 0, 0, 7, b)
    for nn in ((2, 3, 4), (1, 4, 1), (5, 1, 2), (1, 1, 3), (2, 2, 1)): D(8, *nn, 0, 0, 8)
    for q in range(3): D(8, 2, 1, 2, 0, 0, 9, q)
    return out
PROPS['C31'] = dict(jobs=c31, bounds='regions on meshes of 1-2 cells per axis with 4-6 neighbouring points of arbitrary membership and four patterns of the others; any coefficients of equations linear in the position, any earlier fields, materials and neighbours; materials and boundaries to set, to leave and both; emitters on and in such regions; helpers with any values (sizes and topologies fixed per job)', outside='regions given by other expressions (the macros only evaluate them); modify(), user hooks, main(); larger meshes')

# ---------------------------------------------------------------- C20, C21: random numbers (bit-precise)
def R_(*cfg, **k): return J('rng', k.pop('v', 'ref'), cfg, mode='F', **k)
def c20(t):
    out = [R_(0, k) for k in range(16)]+[R_(1, k, budget=200) for k in range(16, 24)]+[R_(2, k) for k in (0, 1)]+[R_(4, k, budget=200) for k in range(16, 24)]
    th = t == 'thorough'
    for s in (0, 1):
        out += [R_(3, k, s, 0, budget=200) for k in (range(64) if th else (0, 1, 9+s, 30-s, 62, 63))]
        out += [R_(3, k, s, 1, budget=200) for k in (range(0, 256, 3) if th else (s, 100+s, 254, 255))]
    return out
PROPS['C20'] = dict(jobs=c20, bounds='every raw 32/64-bit value of every draw type; normal draws: chosen layers incl. first, second, tail (thorough: all), every remaining bit of the raw word, at most one rejection; IEEE arithmetic', outside='more rejections in a row; log and exp are modelled by their sign and range; statistical quality')
def c21(t):
    NC = 1408
    th = t == 'thorough'
    out = [R_(10), R_(11, 8, budget=200, opts=dict(cut=32))]
    pos = ((0, 1, 5), (3, 2, 4), (NC-9, 3, 4), (NC, 1, 3), (NC-3, 1, 3))
    for k in range(28):
        for i, (n, st, c) in enumerate(pos+(((5, 2, 20), (NC-64, 1, 30)) if th else ())):
            if th or (i+k) % 3 == 0 or i == 2: out.append(R_(12, k, n, st, c))
    for i, n in enumerate((0, 1, 6, NC-17, NC-8, NC-1, NC)):
        for j, seq in enumerate(((8, 9, 14, 15, 8, 16), (15, 8, 15, 9, 6, 7), (0, 1, 2, 3, 17, 12), (19, 13, 18, 4, 11, 5))):
            if th or (i+j) % 2 == 0: out.append(R_(13, n, *seq))
    for w in (1, 2, 3): out += [R_(14, nr, sy, int(nr == 1 or (w == 1 and nr == 2)), procs=w) for nr in (1, 2, 4) for sy in (0, 1)]
    for n in range(0, 5): out += [R_(15, n, 0, budget=300), R_(15, n, 1)]
    sh = ((2, 1, 1), (3, 1, 3), (4, 2, 2), (2, 2, 4), (3, 4, 4), (3, 4, 8), (4, 8, 8), (2, 8, 16), (3, 3, 3), (2, 3, 5), (3, 5, 6), (2, 12, 12), (3, 16, 16), (1, 4, 4))
    for n, sz, st in sh: out.append(R_(16, n, sz, st))
    return out
PROPS['C21'] = dict(jobs=c21, bounds='every seed; every block state of the generator for one block step; every draw type from 5 positions incl. the block end with strides 1-3; mixed sequences of 6 draws from 7 positions; pools of 1-4 generators on 1-3 processes; permutations of up to 4 elements, 14 element shapes; bit-precise', outside='longer fills and permutations; statistical quality')

# ---------------------------------------------------------------- C16: sort
def c16(t):
    th = t == 'thorough'; out = []
    def S16(v, n, np, pl, mode, oop, nsym, his=0, **k): out.append(J('srt', v, tuple(n)+(np, pl, mode, oop, nsym, his), **k))
    for v in ('ref', 'v4sse', 'v8omp', 'v8avx2'):
        for oop in (0, 1):
            for i, (n, np, ns) in enumerate((((2, 2, 1), 3, 3), ((1, 1, 1), 3, 0), ((3, 1, 1), 4, 4), ((1, 1, 4), 3, 3), ((2, 1, 2), 9, 2), ((3, 2, 2), 40, 1), ((1, 3, 1), 0, 0))):
                for pl, mode in ((1, 0), (2, 1), (3, 2), (5, 0), (12, 1)) if v in ('ref', 'v8omp') else ((1, 0),):
                    if v == 'ref' or (i+pl+oop) % 2 == 0 or v == 'v4sse': S16(v, n, np, pl, mode, oop, ns, 1 if i in (1, 4, 6) else 3 if i == 3 else 0)
        for pl in (1, 2, 7): S16(v, (2, 3, 2), 25, pl, 1, 0, 0, 2)
    if th:
        for oop in (0, 1):
            for v in ('ref', 'v4sse'):
                for pl in (1, 3, 4): S16(v, (2, 2, 1), 5, pl, 1, oop, 5, budget=900); S16(v, (5, 1, 1), 4, pl, 2, oop, 4, budget=900); S16(v, (4, 5, 3), 300, pl*5, 2, oop, 1, 1, budget=900); S16(v, (3, 3, 3), 60, pl, 0, oop, 2, budget=900)
        S16('ref', (4, 4, 17), 200, 64, 1, 0, 1, 1, budget=900)
    return out
PROPS['C16'] = dict(jobs=c16, bounds='every assignment of up to 4 (thorough 5) particles to the cells of meshes of 4 cells, fixed pseudo-random assignments of up to 40 (300) particles on top; both sort implementations, in and out of place, 1-12 (64) pipelines in three completion orders; repeated sorts of species of several sizes and meshes in one process, empty species; every payload value symbolic', outside='larger particle numbers; more than 256 pipelines')

# ---------------------------------------------------------------- C23: work distribution and dispatch
def c23(t):
    th = t == 'thorough'; out = []
    H = lambda *c, **k: J('pipe', k.pop('v', 'ref'), c, **k)
    for b in (1, 2, 4, 16, 128):
        for P in ((1, 2, 3, 4, 5, 7, 8, 12, 16) if not th else tuple(range(1, 41))+(64, 100, 128, 272)):
            if th or b in (1, 4, 16) or P in (3, 8): out.append(H(0, b, P, 0, P, 1 << 26))
    for P in ((2, 3, 4, 5, 6, 7) if th else (2, 4, 5)): out.append(H(2, 1, P, P-1, P-1, (255 if P in (2, 4) else 15)<<(3*th), mode='F', validate=False, budget=60 if not th else 900))
    for nx, ny in ((1, 1), (2, 1), (1, 3), (3, 4), (5, 2)):
        for b, P in ((1, 1), (1, 3), (4, 2), (16, 5)): out.append(H(1, nx, ny, 6 if not th else 40, b, P))
    for n in (1, 2, 5): out.append(H(3, n))
    for v in ('ref', 'v4sse', 'v8avx2', 'v16portable', 'v8omp'):
        for n in (1, 3): out += [H(7, n, 0, v=v), H(7, n, 1, v=v), H(7, n, 2, v=v)]
    for n in (1, 7, 272, 273, 0, -2): out.append(H(8, n, v='v8omp'))
    for d in (0, 1): out += [H(6, d, w) for w in range(9)]
    for tpp, dth in ((1, 1), (1, 0), (2, 1), (2, 0), (3, 1)):
        for at in (0, 1, 2, 3): out.append(H(5, tpp, dth, (2 if tpp-dth < 2 or at in (0, 3) else 1)+th, 0, 2, 0, at, budget=150 if not th else 900))
        if tpp < 3: out.append(H(5, tpp, dth, 1, 1, 2, 1, 0, budget=150))
        if tpp < 3 or th: out.append(H(5, tpp, dth, 1, 1, 1, 0, 1, budget=150))
    out.append(H(5, 2, 0, 2, 0, 1, 0, 1, budget=150))
    if th:
        for at in (0, 1, 2, 3): out += [H(5, 3, 0, 1, 0, 2, 0, at, budget=1500), H(5, 4, 1, 1, 0, 1, 0, at, budget=1500)]
    return out
PROPS['C23'] = dict(jobs=c23, bounds='every item count up to 2^26 for 9 pipeline counts up to 16 (thorough: 44 up to 272) and 5 block sizes; IEEE arithmetic for counts up to 15-255 (thorough 120-2040); voxel blocks with symbolic depth and offsets; the thread dispatcher with 1-2 worker threads (thorough 3), with and without the host as a pipeline: every schedule with 1-2 (thorough 3) preemptions inside one of boot, first dispatch, second dispatch, halt, and any number of switches where a thread waits, spurious wake-ups included; 9 kinds of misuse', outside='preemption between individual memory accesses (switches are at synchronisation calls and at the start and end of the work function); weak memory; more pipelines in one schedule')

# ---------------------------------------------------------------- C28: utilities
def U(*cfg, **k): return J('utl', k.pop('v', 'ref'), cfg, mode='F', **k)
def c28(t):
    th = t == 'thorough'
    out = [U(0, k, n, l) for k in (0, 1) for n, l in ((0, 1), (1, 2), (3, 1), (5, 2), (4, 3))+(((7, 2), (8, 4)) if th else ())]
    out += [U(1, k, n) for k in (0, 1) for n in (0, 1, 3)+((5,) if th else ())]
    out += [U(2, w, n, m) for w in (0, 1, 2) for n, m in ((0, 0), (3, 0), (0, 2), (3, 3), (4, 2), (2, 4))+(((6, 3), (7, 7)) if th else ())]
    out += [U(3, 1, 0), U(3, 2, 1), U(3, 2, 0), U(3, 3 if th else 1, 5)]
    out += [U(4, k) for k in range(13)]+[U(5, k) for k in range(5)]+[U(6), U(7)]+[U(8, k) for k in (0, 1, 4, 7, 12)]+[U(9, k) for k in range(12)]
    return out
PROPS['C28'] = dict(jobs=c28, bounds='up to 5 arguments (thorough 8) of up to 3 (4) arbitrary characters, numeric options from a list of 6 texts; every alignment 1..4096 with sizes 1..2^30 and every start (multiple of 8) of the raw block, every 32-bit bad alignment; every 32-bit field, mask and index; every byte of every swapped type', outside='allocation failure; bit indices of 32 and more; the texts numbers are parsed from beyond the listed ones')
# ---------------------------------------------------------------- C15: moments and energy
def H(op, v='ref', n=(2, 2, 2), np=1, lane=0, pl=1, mode=0, fam=0, cell=0, **k): return J('hyd', v, (op,)+tuple(n)+(np, lane, pl, mode, fam, cell), **k)
def c15(t):
    th = t == 'thorough'; out = []
    for i, v in enumerate(ALL5):
        big = v != 'ref'; np = 17 if big else 3
        for l in ((0, 3, 7, 12, 15, 16) if big else (0, 2)) if not th else range(np):
            for fam in (31, 1, 14): out.append(H(0, v, np=np, lane=l, fam=fam, cell=l % 8))
            out.append(H(1, v, np=np, lane=l, fam=1, cell=l % 8))
        out += [H(0, v, (3, 2, 1), 40, 19+5*i, 2, i % 3, 31, i), H(0, v, (2, 1, 3), 40, 36, 3, i % 3, 31, 5), H(1, v, (2, 2, 2), 40, 17, 3, i % 3, 1, i), H(1, v, (2, 2, 2), 20, 19, 1, 0, 1, i, procs=2)]
        if th: out += [H(0, v, (3, 2, 2), 70, 13*k, 3, k % 3, 31, k % 12) for k in range(5)]+[H(1, v, (2, 2, 2), 37, 9*k, 4, k % 3, 1, k, procs=1+k) for k in range(4)]
    for n, c in (((2, 2, 2), 0), ((1, 2, 3), 101101), ((2, 1, 2), 444444), ((3, 2, 1), 222222), ((1, 1, 1), 132132), ((2, 2, 1), 12012)): out.append(S(5, 'ref', n, c, 1, 0, 0, 0))
    out += [S(5, 'ref', (2, 2, 1), 0, dom=(2, 1, 1)), S(5, 'ref', (2, 1, 2), 444444, dom=(1, 2, 1)), S(5, 'ref', (1, 2, 2), 222222, dom=(1, 1, 2)), S(5, 'ref', (1, 1, 1), 0, dom=(2, 2, 1)), S(5, 'v8avx2', (2, 1, 1), 101101, dom=(2, 1, 1))]
    if th: out += [S(5, 'ref', (3, 2, 2), c, dom=d, budget=600) for c in (0, 444444, 132132) for d in ((3, 1, 1), (1, 2, 2), (2, 1, 2))]
    return out
PROPS['C15'] = dict(jobs=c15, bounds='one particle with arbitrary position, momentum (|u|<=2), weight and charge in arbitrary field coefficients (E and its gradients, B and its gradients, all in [-2,2]) among 3-40 particles (thorough 70) at rest, in the vector lanes and the remainder of every kernel, 1-3 pipelines (thorough 4) under 3 schedules; arbitrary previous content of the moments; synchronisation of arbitrary moments on meshes of 1-3 cells with periodic, PEC, SYM, PMC and absorbing faces and 1-4 domains; kinetic energy over 1-2 processes', outside='rounding; larger meshes; the series of the rotation is part of the oracle')
# ---------------------------------------------------------------- C22: vector classes
SIMV = (('v4portable', (4,)), ('v4sse', (4,)), ('v8avx', (4, 8)), ('v8avx2', (4, 8)), ('v16portable', (8, 16)), ('v16avx512', (16,)))
def c22(t):
    out = []
    for v, ns in SIMV:
        for n in ns:
            for op in list(range(10))+[11]:
                k = dict(mode='R' if op in (8, 9) else 'F')
                if op == 8: k.update(opts=dict(approx=1))
                if v == 'v16avx512': k.update(validate=False)
                out.append(J('sim', v, (op, n), **k))
            if n == 4: out.append(J('sim', v, (10, 4)))
            st = 4 if v == 'v16avx512' else n
            for f in (12, 13): out += [J('sim', v, (f, n, lo, st), mode='F', **(dict(validate=False) if v == 'v16avx512' else {})) for lo in range(0, n, st)]
    return out
PROPS['C22'] = dict(jobs=c22, bounds='every operation of the 4-, 8- and 16-wide classes (portable, SSE, AVX, AVX2, AVX512), every bit pattern in every lane; seven lane permutations, every splat and member index; memory blocks and 16 words on both sides with arbitrary content, transposed accesses with scattered pointers; reciprocal and reciprocal root within the documented hardware error for arguments in [1e-6,1e6]', outside='Altivec and NEON classes (not for this machine); lane permutations beyond the seven; logical operands other than 0/-1 lanes for merge and czero')
# ---------------------------------------------------------------- C27: message buffers
def c27(t):
    th = t == 'thorough'
    M = lambda *c, w=1, **k: J('mpb', 'ref', c, mode='F', **(dict(k, procs=w) if w > 1 else k))
    out = [M(0, 3, 0, 2), M(0, 3, 1, 2), M(0, 2, 2, 3), M(1, 0), M(1, 1)]+[M(2, k) for k in range(15)]
    for o in range(16): out.append(M(3, o, 2, o % 5, w=2))
    for o in ((0, 5, 10, 15) if not th else range(16)): out += [M(3, o, 3, o, w=1), M(3, o, 2 if not th else 3, o, w=3)]
    if th: out += [M(3, o, 2, o, w=4) for o in range(16)]+[M(0, 4, 0, 2, budget=900), M(0, 4, 1, 2, budget=900), M(0, 3, 2, 3, budget=900)]
    out += [M(4, n, k, w=2) for n, k in ((1, 2), (3, 9), (4, 4))]
    for w in (1, 2, 3, 4):
        for kind in range(7): out.append(J('mpb', 'ref', (5, kind, 1+(w+kind) % 3), mode='R' if kind == 0 else 'F', **(dict(procs=w) if w > 1 else {})))
    return out
PROPS['C27'] = dict(jobs=c27, bounds='all sequences of 2-3 (thorough 4) size requests on 2-3 ports and both directions from 7 sizes, one first request of any size up to 2^30 followed by any smaller one; ports -4..8; 1-3 processes (thorough 4) exchanging on every port in 16 posting/completion orders over 2-3 rounds of changing sizes; collectives on 1-4 processes with 1-3 values; all data symbolic', outside='larger process counts; sizes near 2^31; MPI itself is modelled')
# ---------------------------------------------------------------- C26: registries and coefficients
def c26(t):
    th = t == 'thorough'
    G = lambda *c, **k: J('reg', 'ref', c, **k)
    out = [G(0, n, m) for n, m in ((1, 0), (2, 1), (2, 2), (3, 0), (3, 1))]+[G(1)]
    out += [G(2, n, m) for n, m in ((1, 0), (2, 0), (2, 1), (1, 2), (2, 3))]+[G(3, n, m) for n, m in ((0, 0), (1, 0), (3, 0), (2, 1), (3, 1), (1, 1), (2, 2))]
    out += [G(4, n, c, m) for n, c, m in ((1, 1, 0), (2, 1, 0), (3, 0, 0), (2, 1, 1), (2, 0, 2))]
    out += [G(5, 1, m, f) for m, f in ((0, 0), (1, 1), (2, 0), (4, 2), (7, 3))]+[G(5, 3, m, 0) for m in (0o052, 0o701, 0o470)]
    if th: out += [G(0, 4, 0, budget=900), G(2, 3, 0, budget=900), G(4, 4, 0, 0, budget=600)]+[G(5, 3, m, m & 3, budget=600) for m in range(0, 512, 7)]
    return out
PROPS['C26'] = dict(jobs=c26, bounds='lists of up to 3 (thorough 4) materials, 2 (3) species, 3 conditions, 3 (4) emitters with names from 5 texts in any order incl. repeats, any last id 0..32767; 1-3 materials with every permittivity, permeability, conductivity (zero or 1/16..4), step and vacuum constant symbolic', outside='longer lists; conductivities whose decay underflows; rounding')
