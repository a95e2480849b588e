"""SMT back end (z3)."""
import time, math, random, struct
from fractions import Fraction
import z3
import expr as X
from expr import E
import inttr
from poly import PolyCtx, TooBig

class Stats:
    def __init__(s):
        s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.rewrite = 0; s.cached = 0

class Solver:
    def __init__(s, mode):
        s.mode = mode; s.st = Stats(); s.z = {}; s.side = {}; s.cache = {}; s.bounds = {}
        s.pctx = PolyCtx(); s.syms = {}
        s.uf = {}; s.it = None; s.defs = {}; s.divs = []
    # --------------------------------------------------------------- translation
    def fs(s, w): return z3.Float32() if w == 32 else z3.Float64()
    def num(s, c, w):
        if s.mode == 'R':
            if type(c) is float:
                if c != c or c in (math.inf, -math.inf): raise ValueError('inf/nan in query')
                f = X.frac(c)
            else: f = Fraction(c)
            return z3.RealVal(str(f))
        return z3.FPVal(c, s.fs(w)) if c == c else z3.fpNaN(s.fs(w))
    def tr(s, e, k=None, w=None):
        """translate value e (E or const) of kind k,w"""
        if type(e) is not E:
            if k == 'b': return z3.BoolVal(bool(e))
            if k == 'f': return s.num(float(e) if type(e) is int else e, w)
            return z3.BitVecVal(int(e), w)
        r = s.z.get(e.id)
        if r is not None: return r
        stack = [e]
        while stack:
            n = stack[-1]
            if n.id in s.z: stack.pop(); continue
            todo = [x for x in n.a if type(x) is E and x.id not in s.z]
            if todo: stack.extend(todo); continue
            s.z[n.id] = s.tr1(n); stack.pop()
        return s.z[e.id]
    def tr1(s, n):
        op, a, k, w = n.op, n.a, n.k, n.w
        R = s.mode == 'R'
        T = s.tr
        if op == 'sym':
            s.syms[n.id] = n
            nm = '%s@%d' % (a[0], n.id)
            if k == 'b': return z3.Bool(nm)
            if k == 'i': return z3.BitVec(nm, w)
            return z3.Real(nm) if R else z3.FP(nm, s.fs(w))
        if op == 'not': return z3.Not(T(a[0], 'b'))
        if op == 'band': return z3.And([T(x, 'b') for x in a])
        if op == 'bxor': return z3.Xor(T(a[0], 'b'), T(a[1], 'b'))
        if op == 'ite': return z3.If(T(a[0], 'b'), T(a[1], k, w), T(a[2], k, w))
        if k == 'i':
            if op in ('add', 'mul', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'):
                x = T(a[0], 'i', w); y = T(a[1], 'i', w)
                return {'add': lambda: x+y, 'mul': lambda: x*y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                        'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x/y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y),
                        'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            if op == 'neg': return -T(a[0], 'i', w)
            if op == 'cut':
                v = z3.BitVec('cut@%d' % n.id, w); s.side[n.id] = [v == T(a[0], 'i', w)]; return v
            if op == 'extract': return z3.Extract(a[1], a[2], T(a[0]))
            if op == 'concat': return z3.Concat(T(a[0], 'i', a[2]), T(a[1], 'i', a[3]))
            if op == 'zext': return z3.ZeroExt(w-a[0].w, T(a[0]))
            if op == 'sext': return z3.SignExt(w-a[0].w, T(a[0]))
            if op == 'bits':
                if R: return z3.BitVec('bits@%d' % n.id, w)
                return z3.fpToIEEEBV(T(a[0], 'f', w))
            if op in ('fptosi', 'fptoui'):
                if R:
                    i = z3.Int('toint@%d' % n.id); x = T(a[0], 'f', 32)
                    s.side[n.id] = [z3.If(x >= 0, z3.And(z3.ToReal(i) <= x, x < z3.ToReal(i)+1), z3.And(z3.ToReal(i)-1 < x, x <= z3.ToReal(i)))]
                    return z3.Int2BV(i, w)
                f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
                return f(z3.RTZ(), T(a[0]), z3.BitVecSort(w))
        if k == 'b':
            if op in ('eq', 'ult', 'slt'):
                ww = a[0].w if type(a[0]) is E else a[1].w
                x = T(a[0], 'i', ww); y = T(a[1], 'i', ww)
                return x == y if op == 'eq' else z3.ULT(x, y) if op == 'ult' else x < y
            if op in ('feq', 'flt', 'fle'):
                ww = a[0].w if type(a[0]) is E else a[1].w
                x = T(a[0], 'f', ww); y = T(a[1], 'f', ww)
                if R: return x == y if op == 'feq' else x < y if op == 'flt' else x <= y
                return z3.fpEQ(x, y) if op == 'feq' else z3.fpLT(x, y) if op == 'flt' else z3.fpLEQ(x, y)
            if op == 'fnan': return z3.fpIsNaN(T(a[0]))
        if k == 'f':
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x = T(a[0], 'f', w); y = T(a[1], 'f', w)
                if R: return x+y if op == 'fadd' else x-y if op == 'fsub' else x*y if op == 'fmul' else x/y
                m = z3.RNE()
                if op == 'fdiv' and type(a[1]) is not E and 0 < a[1] < math.inf:      # first tried with these facts about correctly rounded division only
                    r = z3.FP('fdiv@%d' % n.id, s.fs(w)); c = lambda v: z3.FPVal(v, s.fs(w)); le = z3.fpLEQ
                    s.side[n.id] = [z3.fpIsNaN(r) == z3.fpIsNaN(x)]+[z3.Implies(le(c(p), x), le(c(q), r)) for p, q in ((0.0, 0.0), (float(a[1]), 1.0), (-float(a[1]), -1.0))]+[z3.Implies(le(x, c(p)), le(r, c(q))) for p, q in ((0.0, 0.0), (float(a[1]), 1.0), (-float(a[1]), -1.0))]
                    s.defs[n.id] = r == z3.fpDiv(m, x, y)
                    return r
                return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](m, x, y)
            if op == 'fneg': return -T(a[0]) if R else z3.fpNeg(T(a[0]))
            if op == 'fabs':
                x = T(a[0]); return z3.If(x >= 0, x, -x) if R else z3.fpAbs(x)
            if op == 'rat': return z3.RealVal('%d/%d' % a)
            if op == 'fcut':
                v = z3.Real('fcut@%d' % n.id); s.side[n.id] = [v == T(a[0], 'f', w)]; return v
            if op == 'fcast':
                return T(a[0]) if R else z3.fpFPToFP(z3.RNE(), T(a[0]), s.fs(w))
            if op == 'sqrt':
                if R:
                    r = z3.Real('sqrt@%d' % n.id); x = T(a[0])
                    s.side[n.id] = [r >= 0, r*r == x]
                    return r
                return z3.fpSqrt(z3.RNE(), T(a[0]))
            if op == 'float':
                if R: return z3.Real('float@%d' % n.id)
                return z3.fpBVToFP(T(a[0]), s.fs(w))
            if op in ('sitofp', 'uitofp'):
                x = T(a[0])
                if R: return z3.ToReal(z3.BV2Int(x, op == 'sitofp'))
                return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), x, s.fs(w))
            if op == 'frem':
                return s.ufn('frem', w, [T(a[0], 'f', w), T(a[1], 'f', w)])
            if op.startswith('fn_'):
                xs = [T(x, 'f', w) for x in a]; r = s.ufn(op, w, xs); x = xs[0]
                c = lambda v: s.num(v, w)
                le = (lambda p, q: p <= q) if R else z3.fpLEQ
                lt = (lambda p, q: p < q) if R else z3.fpLT
                if op[3:].rstrip('f') == 'log':          # stated model: sign and range of the C library function
                    s.side[n.id] = [z3.Implies(z3.And(lt(c(0.0), x), le(x, c(1.0))), z3.And(le(c(-800.0), r), le(r, c(0.0)))), z3.Implies(z3.And(le(c(1.0), x), le(x, c(1e30))), z3.And(le(c(0.0), r), le(r, c(800.0)))),
                                    z3.Implies(z3.And(le(c(2.0**-53), x), le(x, c(1.0))), le(c(-37.0), r)), z3.Implies(z3.And(le(c(2.0**-24), x), le(x, c(1.0))), le(c(-17.0), r))]
                elif op[3:].rstrip('f') in ('exp',):
                    s.side[n.id] = [z3.Implies(le(x, c(0.0)), z3.And(le(c(0.0), r), le(r, c(1.0)))), z3.Implies(le(c(0.0), x), le(c(1.0), r))]
                elif op[3:] in ('sin', 'sinf', 'cos', 'cosf'):
                    s.side[n.id] = [le(c(-1.0), r), le(r, c(1.0))]
                return r
        raise NotImplementedError('tr %s %s' % (op, k))
    def ufn(s, nm, w, args):
        srt = z3.RealSort() if s.mode == 'R' else s.fs(w)
        f = z3.Function('%s_%d' % (nm, w), *([srt]*len(args)+[srt]))
        return f(*args)
    def sides(s, es, lim=10**9):
        """side constraints of all nodes below es (definitions of cut points: lim levels)"""
        out = []; seen = set(); stack = [(e, 0) for e in es if type(e) is E]; s.cutoff = False; s.hasf = False; s.divs = []
        if lim < 10**9: stack.reverse()
        while stack:
            n, lev = stack.pop(0) if lim < 10**9 else stack.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n.op in ('cut', 'fcut'):
                lev += 1 if n.op == 'cut' else 10
                if n.op == 'fcut': s.hasf = True
                if lev > lim: s.cutoff = True; continue
            if n.id in s.side: out += s.side[n.id]
            if n.id in s.defs: s.divs.append(s.defs[n.id])
            if n.op == 'sym':
                b = s.bounds.get(n.id)
                if b is not None: out += s.boundc(n, b)
            for x in n.a:
                if type(x) is E: stack.append((x, lev))
        return out
    def boundc(s, n, b):
        z = s.tr(n); lo, hi = b; out = []
        if n.k == 'f':
            if s.mode == 'R':
                if lo is not None: out.append(z >= s.num(lo, n.w))
                if hi is not None: out.append(z <= s.num(hi, n.w))
            else:
                if lo is not None: out.append(z3.fpGEQ(z, s.num(lo, n.w)))
                if hi is not None: out.append(z3.fpLEQ(z, s.num(hi, n.w)))
        return out
    # --------------------------------------------------------------- checking
    def slice(s, pc, tgt):
        vs = set()
        for t in tgt: vs |= X.vars_of(t)
        rest = list(pc); out = []
        changed = True
        while changed and rest:
            changed = False; nr = []
            for c in rest:
                v = X.vars_of(c)
                if v & vs:
                    out.append(c); 
                    if not v <= vs: vs |= v; changed = True
                else: nr.append(c)
            rest = nr
        return out
    def check(s, cs, timeout=2000, want_model=False, extra=(), nodef=False):
        """nodef: named terms (fcut) are not expanded unless that is needed to find a contradiction: sat may be spurious"""
        """cs: list of Boolean E / bools.  returns ('sat'|'unsat'|'unknown', model|None)"""
        l = []
        for c in cs:
            if type(c) is not E:
                if not c: return 'unsat', None
            else: l.append(c)
        key = (frozenset(c.id for c in l), len(extra))
        if nodef and s.cache.get(key) is None: key = (key, 1)
        if not want_model and not extra:
            r = s.cache.get(key)
            if r is not None: s.st.cached += 1; return r, None
        if not l and not extra: return 'sat', {}
        t0 = time.time()
        if s.mode == 'R' and not extra and inttr.wants(l):
            try:
                if s.it is None: s.it = inttr.IntTr(s)
                s.st.queries += 1
                if s.it.unsat(l, timeout):
                    s.st.time += time.time()-t0; s.st.unsat += 1; s.cache[key] = 'unsat'; return 'unsat', None
            except (inttr.NoTr, ValueError): pass
        try:
            fs = [s.tr(c, 'b') for c in l]
            for lim in (2, 4):
                sd = s.sides(l, lim)
                if not s.cutoff: break
                if nodef and s.hasf and lim > 2: break
                sol = z3.Solver(); sol.set('timeout', timeout); sol.add(fs); sol.add(sd); s.st.queries += 1
                r = str(sol.check())
                if r == 'unsat':
                    s.st.time += time.time()-t0; s.st.unsat += 1
                    if not extra: s.cache[key] = 'unsat'
                    return 'unsat', None
                if nodef and s.hasf:
                    s.st.time += time.time()-t0; s.cache[key] = 'sat'; return 'sat', None
                if want_model and r == 'sat' and s.hasf and not extra:
                    m = s.cutmodel(l, sol.model())
                    if m is not None: s.st.time += time.time()-t0; s.st.sat += 1; return 'sat', m
                    timeout = min(timeout, 4000)
                    if want_model == 'cheap': return 'unknown', None
            sd = s.sides(l)
        except ValueError:
            return 'unknown', None
        sol = z3.Solver() if s.mode == 'R' else z3.SolverFor('QF_BVFP') if s.mode == 'F' else z3.Solver()
        sol.set('timeout', timeout)
        sol.add(fs); sol.add(sd)
        for x in extra: sol.add(x)
        r = str(sol.check())
        if s.divs and r == 'sat' and not nodef:
            sol.add(s.divs); s.st.queries += 1; r = str(sol.check())
        dt = time.time()-t0
        s.st.time += dt; s.st.queries += 1
        setattr(s.st, r, getattr(s.st, r)+1)
        m = None
        if r == 'sat' and want_model:
            m = s.model(sol.model(), l)
        if not extra: s.cache[key] = r
        return r, m
    def cutmodel(s, l, zm):
        """complete a model in which named terms are free: the other inputs are chosen at random until every condition holds"""
        vs = set(); free = set(); stack = list(l); seen = set()
        while stack:
            n = stack.pop()
            if type(n) is not E or n.id in seen: continue
            seen.add(n.id)
            if n.op == 'sym': free.add(n.id)
            if n.op != 'fcut': stack.extend(n.a)
        for c in l: vs |= X.vars_of(c)
        base = {}
        for i in free: n = X.symnode(i); base[i] = s.val(zm.eval(s.tr(n), model_completion=True), n)
        rng = random.Random(len(l))
        for _ in range(60):
            env = dict(base)
            for i in vs-free:
                n = X.symnode(i)
                if n.k != 'f': env[i] = rng.getrandbits(n.w if n.k == 'i' else 1); continue
                lo, hi = s.bounds.get(i, (-1, 1)); lo = -1 if lo is None else lo; hi = 1 if hi is None else hi
                env[i] = Fraction(lo)+(Fraction(hi)-Fraction(lo))*Fraction(rng.randrange(0, 65), 64)
            try:
                if all(evalE(c, env, s.mode) for c in l): return env
            except (ZeroDivisionError, NotImplementedError, OverflowError, ValueError, TypeError): pass
        return None
    def model(s, zm, cs):
        vs = set()
        for c in cs: vs |= X.vars_of(c)
        out = {}
        for i in vs:
            n = X.symnode(i)
            z = s.tr(n)
            v = zm.eval(z, model_completion=True)
            out[i] = s.val(v, n)
        return out
    def val(s, v, n):
        if n.k == 'b': return z3.is_true(v)
        if n.k == 'i': return v.as_long()
        if s.mode == 'R':
            if z3.is_algebraic_value(v): v = v.approx(30)
            if z3.is_rational_value(v):
                return Fraction(v.numerator_as_long(), v.denominator_as_long())
            return Fraction(0)
        # FP
        bv = z3.simplify(z3.fpToIEEEBV(v))
        try: return X.bits2f(bv.as_long(), n.w)
        except Exception: return math.nan
    def feasible(s, pc, c, timeout=1500):
        r, _ = s.check(s.slice(pc, [c])+[c], timeout, nodef=True)
        return r
    def full_model(s, pc, timeout=10000, want=True):
        """model of the whole path condition, solved slice by slice"""
        left = list(pc); model = {}
        while left:
            sl = s.slice(left, [left[0]])
            ids = set(c.id for c in sl)
            if left[0].id not in ids: sl = [left[0]]; ids = {left[0].id}
            r, m = s.check(sl, timeout, want)
            if r != 'sat': return r, None
            model.update(m)
            left = [c for c in left if c.id not in ids]
        return 'sat', model

# ------------------------------------------------------------------ concrete evaluation of expressions (exact reals in R mode)
def evalE(e, env, mode='R'):
    memo = {}
    def val(x): return memo[x.id] if type(x) is E else (X.frac(x) if type(x) is float and mode == 'R' and x == x and abs(x) != math.inf else x)
    if type(e) is not E: return e
    stack = [e]
    while stack:
        n = stack[-1]
        if n.id in memo: stack.pop(); continue
        todo = [x for x in n.a if type(x) is E and x.id not in memo]
        if todo: stack.extend(todo); continue
        memo[n.id] = eval1(n, val, env, mode); stack.pop()
    return memo[e.id]
def _sq(x):
    if x < 0: return Fraction(0)
    sc = 1 << 120
    return Fraction(math.isqrt(x.numerator*sc*sc//x.denominator), sc)
def eval1(n, val, env, mode):
    op, a, w = n.op, n.a, n.w
    if op == 'rat': return Fraction(*a)
    if op == 'sym': return env.get(n.id, 0 if n.k != 'f' else Fraction(0) if mode == 'R' else 0.0)
    v = [val(x) for x in a]
    if n.k == 'f' and mode == 'R':
        if op == 'fadd': return v[0]+v[1]
        if op == 'fsub': return v[0]-v[1]
        if op == 'fmul': return v[0]*v[1]
        if op == 'fdiv': return v[0]/v[1] if v[1] else Fraction(10**9)
        if op == 'fneg': return -v[0]
        if op == 'fabs': return abs(v[0])
        if op in ('fcast', 'fcut'): return v[0]
        if op == 'sqrt': return _sq(Fraction(v[0]))
        if op == 'ite': return Fraction(v[1]) if v[0] else Fraction(v[2])
        if op == 'float': return Fraction(X.bits2f(int(v[0]), w)) if math.isfinite(X.bits2f(int(v[0]), w)) else Fraction(0)
        if op in ('sitofp',): return Fraction(X.sgn(int(v[0]), a[1]))
        if op == 'uitofp': return Fraction(int(v[0]))
        if op.startswith('fn_'): return Fraction(getattr(math, op[3:])(*[float(x) for x in v]))
        if op == 'frem': return Fraction(math.fmod(float(v[0]), float(v[1])))
    F = {'fadd': X.fadd, 'fsub': X.fsub, 'fmul': X.fmul, 'fdiv': X.fdiv}
    if op in F: return F[op](v[0], v[1], w)
    if op == 'fneg': return -v[0]
    if op == 'fabs': return abs(v[0])
    if op == 'sqrt': return X.fsqrt(v[0], w)
    if op == 'fcast': return X.rnd(v[0], w)
    if op == 'ite': return v[1] if v[0] else v[2]
    if op == 'not': return not v[0]
    if op == 'band': return all(v)
    if op == 'bxor': return bool(v[0]) != bool(v[1])
    if op == 'feq': return v[0] == v[1]
    if op == 'flt': return v[0] < v[1]
    if op == 'fle': return v[0] <= v[1]
    if op == 'fnan': return v[0] != v[0]
    if op == 'eq': return int(v[0]) == int(v[1])
    if op == 'ult': return v[0] < v[1]
    if op == 'slt':
        ww = a[0].w if type(a[0]) is E else a[1].w
        return X.sgn(v[0], ww) < X.sgn(v[1], ww)
    m = (1 << w)-1
    if op == 'add': return (v[0]+v[1]) & m
    if op == 'mul': return (v[0]*v[1]) & m
    if op == 'neg': return -v[0] & m
    if op == 'and': return v[0] & v[1]
    if op == 'or': return v[0] | v[1]
    if op == 'xor': return v[0] ^ v[1]
    if op in ('udiv', 'urem') and v[1] == 0: return m if op == 'udiv' else v[0]
    if op in ('sdiv', 'srem') and v[1] == 0: return 0
    if op in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'): return getattr(X, op)(v[0], v[1], w)
    if op == 'extract': return X.extract(v[0], a[1], a[2])
    if op == 'concat': return (v[0] << a[3]) | v[1]
    if op in ('zext', 'cut', 'fcut'): return v[0]
    if op == 'sext': return X.sext(v[0], a[0].w, w)
    if op == 'bits':
        return X.f2bits(float(v[0]), w)
    if op == 'float': return X.bits2f(int(v[0]), w)
    if op == 'sitofp': return X.sitofp(v[0], a[1], w)
    if op == 'uitofp': return X.uitofp(v[0], a[1], w)
    if op == 'fptosi': return X.fptosi(float(v[0]), 32, w)
    if op == 'fptoui': return X.fptoui(float(v[0]), 32, w)
    if op.startswith('fn_'):
        try: return X.rnd(getattr(math, op[3:])(*v), w)
        except ValueError: return math.nan
        except OverflowError: return math.inf
    raise NotImplementedError('eval '+op)
