"""Comparisons over the reals in canonical form (option canon): a<b becomes N<0 where N is the numerator of the normal
form of a-b, divided by factors of known sign.  Signs come from the bounds of the symbols or from the path condition
(entailment queries); decided comparisons fold and their canonical form makes equal conditions the same node."""
from fractions import Fraction
import math
import expr as X
import solve
from expr import E
from poly import TooBig, qdiv

class Canon:
    def __init__(s, eng):
        s.e = eng; s.P = eng.S.pctx; s.st = None; s.mono = {}; s.inq = False; s.memo = {}
        X.CANON[0] = s.cmp; X.DEC[0] = s.dec; X.TOI[0] = s.toint
    # ---- intervals from symbol bounds
    def iatom(s, i):
        r = s.memo.get(i)
        if r is None: r = s.memo[i] = tuple(map(s.coarse, s.iatom1(i), (0, 1)))
        return r
    def coarse(s, x, up):
        if x is None or x.denominator < 1 << 64 and abs(x.numerator) < 1 << 96: return x
        n = x*(1 << 40); f = n.numerator//n.denominator
        return Fraction(f+up, 1 << 40)
    def iatom1(s, i):
        inf = s.P.info[i]
        if inf[0] == 'sym':
            b = s.e.S.bounds.get(inf[1].id)
            return (None, None) if b is None else (None if b[0] is None else Fraction(b[0]), None if b[1] is None else Fraction(b[1]))
        if inf[0] == 'recip1': return s.inv(s.iatom(inf[2]))
        if inf[0] == 'recip': return s.inv(s.ipoly(inf[1]))
        if inf[0] == 'def': return s.ipoly(inf[1])
        if inf[0] == 'sqrt':
            lo, hi = s.ipoly(inf[1]); import math
            return (Fraction(math.isqrt(int(lo*(1 << 40))), 1 << 20) if lo is not None and lo > 0 else Fraction(0), None if hi is None or hi < 0 else Fraction(math.isqrt(int(hi*(1 << 40)))+1, 1 << 20))
        return None, None
    def inv(s, b):
        lo, hi = b
        if lo is not None and lo > 0: return (Fraction(0) if hi is None else 1/hi), 1/lo
        if hi is not None and hi < 0: return 1/hi, (Fraction(0) if lo is None else 1/lo)
        return None, None
    def imul(s, a, b):
        if None not in a and None not in b:
            p = [x*y for x in a for y in b]; return min(p), max(p)
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return a[0]*b[0], None
        return None, None
    def ipoly(s, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            iv = (Fraction(1), Fraction(1))
            for v, e in m:
                a = s.iatom(v)
                if e % 2 == 0:
                    if None not in a:
                        t = [x**e for x in a]; a = (Fraction(0) if a[0] <= 0 <= a[1] else min(t), max(t))
                    elif a[0] is not None and a[0] >= 0: a = (a[0]**e, None)
                    else: a = (Fraction(0), None)
                    iv = s.imul(iv, a)
                else:
                    for _ in range(e): iv = s.imul(iv, a)
            a, b = (iv[0], iv[1]) if c > 0 else (iv[1], iv[0])
            lo = None if lo is None or a is None else lo+a*c
            hi = None if hi is None or b is None else hi+b*c
        return lo, hi
    # ---- expression of a polynomial
    def matom(s, i):
        inf = s.P.info[i]
        if inf[0] in ('sym', 'op'): return inf[1]
        if inf[0] == 'sqrt': return X.fsqrt(s.expr(inf[1]), 64)
        if inf[0] == 'def': return X.mk('fcut', (inf[2] if inf[2] is not None else s.expr(inf[1]),), 'f', 64)
        if inf[0] == 'recip1': return X.fdiv(1.0, s.matom(inf[2]), 64)
        if inf[0] == 'recip': return X.fdiv(1.0, s.expr(inf[1]), 64)
        raise TooBig
    def num_(s, c):
        c = Fraction(c)
        try: f = float(c)
        except OverflowError: return s.rat(c)
        return f if X.frac(f) == c else s.rat(c)
    def rat(s, c): return X.mk('rat', (c.numerator, c.denominator), 'f', 64)
    def expr(s, p):
        r = None; c0 = p.get((), 0)
        for m in sorted(p):
            if not m: continue
            c = p[m]; t = s.mono.get(m)
            if t is None:
                for v, e in m:
                    a = s.matom(v)
                    for _ in range(e): t = a if t is None else X.fmul(t, a, 64)
                s.mono[m] = t
            t = X.fmul(t, s.num_(c), 64)
            r = t if r is None else X.fadd(r, t, 64)
        if c0:
            c = s.num_(c0)
            r = c if r is None else X.fadd(r, c, 64)
        return 0.0 if r is None else r
    # ---- signs
    def sign(s, p):
        """+1, -1 or None"""
        lo, hi = s.ipoly(p)
        if lo is not None and lo > 0: return 1
        if hi is not None and hi < 0: return -1
        if s.st is None or s.inq: return None
        for sg in (1, -1):
            c = s.lt({m: -x*sg for m, x in p.items()})     # sg*p > 0
            if c is True or (type(c) is E and s.entailed(c)): return sg
        return None
    def entailed(s, c):
        st = s.st
        if c.id in st.pcset: return True
        n = X.not_(c)
        if n.id in st.pcset: return False
        s.inq = True
        try: return s.e.S.feasible(st.pc, n, 400) == 'unsat'
        finally: s.inq = False
    def lt(s, N):
        """canonical N<0"""
        if not N: return False
        if len(N) == 1 and () in N: return N[()] < 0
        lo, hi = s.ipoly(N)
        if hi is not None and hi < 0: return True
        if lo is not None and lo >= 0: return False
        c = abs(N[min(N)])
        return X.mk('flt', (s.expr({m: qdiv(x, c) for m, x in N.items()}), 0.0), 'b', 1)
    def num(s, a, b):
        P = s.P
        p = P.addp(P.poly(a), P.poly(b), -1)
        while p:
            rec = set(v for m in p for v, _ in m if P.info[v][0] in ('recip', 'recip1'))
            if not rec: break
            v = max(rec); D = max(dict(m).get(v, 0) for m in p)
            inf = P.info[v]
            d = inf[1] if inf[0] == 'recip' else {((inf[2], 1),): Fraction(1)}
            sg = 1 if D % 2 == 0 else s.sign(d)
            if sg is None: return None
            pw = [P.one]
            for _ in range(D): pw.append(P.mulp(pw[-1], d))
            r = {}
            for m, c in p.items():
                k = dict(m).get(v, 0)
                r = P.addp(r, P.mulp({tuple(t for t in m if t[0] != v): c*sg}, pw[D-k]))
            p = r
        # common factors of known sign
        if len(p) > 0:
            com = None
            for m in p:
                d = dict(m); com = d if com is None else {v: min(e, d.get(v, 0)) for v, e in com.items()}
            for v, e in com.items():
                if not e: continue
                lo, hi = s.iatom(v)
                sg = 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else None
                if sg is None: continue
                p = {tuple((u, f-e) if u == v else (u, f) for u, f in m if u != v or f > e): c*sg**e for m, c in p.items()}
        return p
    def cmp(s, op, a, b):
        """'lt' or 'eq'; None: leave as it is"""
        try: N = s.num(a, b)
        except (TooBig, ZeroDivisionError): return None
        if N is None or len(N) > 400: return None
        try:
            if op == 'lt': return s.lt(N)
            if not N: return True
            lo, hi = s.ipoly(N)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
            c = N[min(N)]
            return X.mk('feq', (s.expr({m: qdiv(x, c) for m, x in N.items()}), 0.0), 'b', 1)
        except TooBig: return None
    def dec(s, c):
        """truth value of a condition on the current path, None if open"""
        st = s.st
        if st is None or s.inq: return None
        k = s.e.known(st, c)
        if k is not None: return k
        if (c.op == 'flt' and type(c.a[1]) is float and c.a[1] == 0.0) or c.op == 'not':
            if s.entailed(c): return True
            if s.entailed(X.not_(c)): return False
        return None

    def toint(s, a):
        """integer part of a when it is the same for every value on the current path, else None"""
        st = s.st
        if st is None or s.inq: return None
        try: lo, hi = s.ipoly(s.P.poly(a))
        except (TooBig, ZeroDivisionError): return None
        cand = []
        if lo is not None and hi is not None and hi-lo < 4: cand = list(range(math.floor(lo), math.floor(hi)+1))
        else:
            r, m = s.e.S.check(s.e.S.slice(st.pc, [a]), 1500, True)
            if r != 'sat': return None
            env = dict(m or {})
            for v in X.vars_of(a):
                if v not in env:
                    b = s.e.S.bounds.get(v, (0, 1)); env[v] = Fraction(b[0] if b[0] is not None else 0)
            try: cand = [math.floor(solve.evalE(a, env, 'R'))]
            except (ZeroDivisionError, NotImplementedError, OverflowError, ValueError, TypeError): return None
        yes = lambda c: c is True or (X.tobool(c) is True if type(c) is not E else s.dec(c) is True)
        for k in cand:
            if k < 0: k += 1            # towards zero
            l, h = (k, k+1) if k > 0 else (-1, 1) if k == 0 else (k-1, k)
            okl = X.not_(X.flt(a, float(l))) if k > 0 else X.flt(float(l), a)
            if not yes(okl): continue
            okh = X.flt(a, float(h)) if k >= 0 else X.not_(X.flt(float(h), a))
            if yes(okh): return k
        return None
