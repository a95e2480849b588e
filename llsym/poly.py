"""Rational normal form of real-interpreted expressions (a rewriting pre-processor for the solver)."""
from fractions import Fraction
from expr import E, frac
import expr as X
import math

class TooBig(Exception): pass
MAXT = 6000
def qdiv(x, c):
    r = Fraction(x)/c
    return r.numerator if r.denominator == 1 else r

class PolyCtx:
    def __init__(s):
        s.memo = {}
        s.atoms = {}      # key -> atom index
        s.info = []       # atom index -> ('sym',E)|('sqrt',poly,E)|('recip',poly)|('op',E)
        s.one = {(): 1}; s.mm = {}; s.redm = {}
        s.names = {}; s.nlen = set()   # named polynomials (leading coefficient 1) -> atom
        s.expu = {}       # monomial -> unit of its exponents
    def atom(s, key, info):
        i = s.atoms.get(key)
        if i is None:
            i = len(s.info); s.atoms[key] = i; s.info.append(info)
        return i
    def const(s, c): 
        c = Fraction(c)
        if c.denominator == 1: c = c.numerator
        return {(): c} if c else {}
    def addp(s, a, b, sc=1):
        if len(a) < len(b) and sc == 1: a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0)+c*sc
            if x: r[m] = x
            else: r.pop(m, None)
        if len(r) > MAXT: raise TooBig
        return r
    def mulm(s, m1, m2):
        if not m1: return m2
        if not m2: return m1
        r = s.mm.get((m1, m2))
        if r is None:
            d = dict(m1)
            for v, e in m2: d[v] = d.get(v, 0)+e
            r = s.mm[m1, m2] = tuple(sorted(d.items()))
        return r
    def mulp(s, a, b):
        if len(a)*len(b) > 40*MAXT: raise TooBig
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = s.mulm(m1, m2)
                x = r.get(m, 0)+c1*c2
                if x: r[m] = x
                else: r.pop(m, None)
        if len(r) > MAXT: raise TooBig
        return s.reduce(r)
    def reduce(s, p):
        """s^2 -> arg for sqrt atoms; recip(d)*d single-atom cancellation"""
        again = False; redm = s.redm
        for m in p:
            b = redm.get(m)
            if b is None:
                b = False
                for v, e in m:
                    if e >= 2 and s.info[v][0] == 'sqrt': b = True
                    if s.info[v][0] == 'recip1' and any(u == s.info[v][2] for u, _ in m): b = True
                    if e >= 2 and s.info[v][0] == 'op' and s.info[v][1].op == 'fn_cos': b = True
                redm[m] = b
            if b: again = True; break
        if not again: return p
        r = {}
        for m, c in p.items():
            q = None
            for v, e in m:
                if e >= 2 and s.info[v][0] == 'sqrt':
                    rest = tuple((u, f) if u != v else (u, f % 2) for u, f in m)
                    rest = tuple(t for t in rest if t[1])
                    q = {rest: c}
                    for _ in range(e//2): q = s.mulp(q, s.info[v][1])
                    break
                if e >= 2 and s.info[v][0] == 'op' and s.info[v][1].op == 'fn_cos':    # cos^2 = 1-sin^2
                    n = s.info[v][1]; k = ('fn_sin',)+tuple(tuple(sorted(s.poly(x).items())) for x in n.a)
                    i = s.atoms.get(k)
                    if i is None: i = s.atom(k, ('op', X.mk('fn_sin', n.a, 'f', n.w)))
                    rest = tuple(t for t in ((u, f) if u != v else (u, f % 2) for u, f in m) if t[1])
                    q = {rest: c}
                    for _ in range(e//2): q = s.mulp(q, {(): 1, ((i, 2),): -1})
                    break
                if s.info[v][0] == 'recip1':
                    u0 = s.info[v][2]
                    fu = dict(m).get(u0, 0)
                    if fu:
                        k = min(fu, e)
                        dd = dict(m); dd[v] -= k; dd[u0] -= k
                        q = s.reduce({tuple(sorted((a, b) for a, b in dd.items() if b)): c}); break
            if q is None: q = {m: c}
            r = s.addp(r, q)
        return r
    def content(s, d):
        """common monomial factor and the rest"""
        com = None
        for m in d:
            if not m: return (), d
            e = dict(m); com = e if com is None else {v: min(k, e[v]) for v, k in com.items() if v in e}
            if not com: return (), d
        return tuple(sorted(com.items())), {tuple((v, e-com.get(v, 0)) for v, e in m if e > com.get(v, 0)): c for m, c in d.items()}
    def cancel(s, x, y):
        """x*y where x is (up to a monomial) the polynomial of a reciprocal that every term of y carries"""
        com, x0 = s.content(x)
        c = x0[min(x0)]
        v = s.atoms.get(('r', tuple(sorted((m, qdiv(k, c)) for m, k in x0.items()))))
        if v is None or not all(any(u == v for u, _ in m) for m in y): return None
        y = {tuple((u, e-1) if u == v else (u, e) for u, e in m if u != v or e > 1): k*c for m, k in y.items()}
        return s.mulp({com: 1}, y) if com else y
    def recip(s, d):
        """1/d for polynomial d"""
        if not d: raise ZeroDivisionError
        if len(d) == 1:
            (m, c), = d.items()
            r = {(): qdiv(1, c)}
            for v, e in m:
                inf = s.info[v]
                if inf[0] == 'recip1': q = {((inf[2], e),): 1}
                elif inf[0] == 'recip': 
                    q = s.one
                    for _ in range(e): q = s.mulp(q, inf[1])
                elif inf[0] == 'sqrt':
                    # 1/s = s/arg
                    q = s.one
                    for _ in range(e): q = s.mulp(q, s.mulp({((v, 1),): 1}, s.recip(inf[1])))
                else:
                    q = {((s.atom(('r1', v), ('recip1', None, v)), e),): 1}
                r = s.mulp(r, q)
            return r
        com, d0 = s.content(d)
        if com: return s.mulp(s.recip({com: 1}), s.recip(d0))
        # canonical scale: leading coefficient 1
        lead = min(d)
        c = d[lead]
        dn = {m: qdiv(x, c) for m, x in d.items()}
        key = ('r', tuple(sorted(dn.items())))
        i = s.atom(key, ('recip', dn))
        return {((i, 1),): qdiv(1, c)}
    def poly(s, e):
        if type(e) is not E:
            if type(e) is float and (e != e or e in (math.inf, -math.inf)): raise TooBig
            return s.const(frac(e) if type(e) is float else e)
        p = s.memo.get(e.id)
        if p is not None: return p
        # iterative post-order
        stack = [e]
        while stack:
            n = stack[-1]
            if n.id in s.memo: stack.pop(); continue
            if n.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcast', 'fcut', 'sqrt') or n.op[:3] == 'fn_':
                todo = [x for x in n.a if type(x) is E and x.id not in s.memo]
                if todo: stack.extend(todo); continue
            p = s._one(n)
            if len(p) in s.nlen: p = s.named(p)
            s.memo[n.id] = p; stack.pop()
        return s.memo[e.id]
    def canon(s, p):
        c = p[min(p)]
        return c, tuple(sorted((m, qdiv(x, c)) for m, x in p.items()))
    def named(s, p):
        c, key = s.canon(p); i = s.names.get(key)
        if i is None: return p
        if type(i) is dict: return {m: x*c for m, x in i.items()}
        return {((i, 1),): c}
    def name(s, e):
        """from here on every sub-term with the normal form of e (up to a factor) is one unknown, expanded again only on demand"""
        try: p = s.poly(e)
        except TooBig: return
        if len(p) < 2: return
        c, key = s.canon(p)
        if key not in s.names:
            s.names[key] = s.atom(('d', key), ('def', dict(key), e if c == 1 else None)); s.nlen.add(len(p))
        if type(s.names[key]) is dict: s.memo[e.id] = {m: x*c for m, x in s.names[key].items()}
        else: s.memo[e.id] = {((s.names[key], 1),): c}
    def below(s, p):
        out = set(); todo = [p]
        while todo:
            for m in todo.pop():
                for v, e in m:
                    if v in out: continue
                    out.add(v); i = s.info[v]
                    if i[0] in ('recip', 'def', 'sqrt'): todo.append(i[1])
                    elif i[0] == 'recip1': todo.append({((i[2], 1),): 1})
        return out
    def lemma(s, a, b):
        """prove a=b by normal form; from here on sub-terms with the normal form of a are replaced by that of b"""
        try:
            p = s.poly(a); q = s.poly(b)
            if p == q: return True
            d = s.addp(p, q, -1); ok = False
            # try with one defined unknown left alone (an identity in it), then without
            for k in [v for v in sorted(s.below(d)) if s.info[v][0] == 'def']+[-1]:
                try:
                    if not s.clear(d, k): ok = True; break
                except TooBig: pass
            if not ok: return False
        except TooBig: return False
        if len(p) < 2: return True
        c, key = s.canon(p)
        if key not in s.names: s.names[key] = {m: qdiv(x, c) for m, x in q.items()}; s.nlen.add(len(p))
        if type(a) is E: s.memo[a.id] = q
        return True
    def _one(s, n):
        op = n.op
        g = lambda x: s.memo[x.id] if type(x) is E else s.poly(x)
        if op == 'fadd': return s.addp(g(n.a[0]), g(n.a[1]))
        if op == 'fsub': return s.addp(g(n.a[0]), g(n.a[1]), -1)
        if op == 'fmul':
            p, q = g(n.a[0]), g(n.a[1])
            for x, y in ((p, q), (q, p)):
                if 2 <= len(x) <= 12 and y and x:
                    r = s.cancel(x, y)
                    if r is not None: return r
            return s.mulp(p, q)
        if op == 'fneg': return {m: -c for m, c in g(n.a[0]).items()}
        if op in ('fcast', 'fcut'): return g(n.a[0])
        if op == 'fdiv':
            d = g(n.a[1])
            if not d: raise TooBig
            return s.mulp(g(n.a[0]), s.recip(d))
        if op == 'sqrt':
            p = g(n.a[0])
            if len(p) == 1 and () in p:
                c = p[()]
                r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator)) if c >= 0 else None
                if r is not None and r*r == c: return s.const(r)
            if len(p) == 1:                      # sqrt(c/D) = 1/sqrt(D/c)
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and s.info[m[0][0]][0] in ('recip', 'recip1') and c > 0:
                    i = s.info[m[0][0]]
                    q = {k: qdiv(x, c) for k, x in (i[1] if i[0] == 'recip' else {((i[2], 1),): 1}).items()}
                    return s.recip({((s.atom(('s', tuple(sorted(q.items()))), ('sqrt', q, None)), 1),): 1})
            key = ('s', tuple(sorted(p.items())))
            return {((s.atom(key, ('sqrt', p, n)), 1),): 1}
        if op == 'rat': return s.const(Fraction(n.a[0], n.a[1]))
        if op == 'sym': return {((s.atom(('y', n.id), ('sym', n)), 1),): 1}
        if op[:3] == 'fn_' and all(type(x) is E and x.k == 'f' or type(x) is not E for x in n.a):
            ps = [g(x) for x in n.a]
            if op == 'fn_exp' and len(ps[0]) <= 6:
                r = s.one
                for m, c in ps[0].items(): r = s.mulp(r, s._exp(m, c))
                return r
            key = (op,)+tuple(tuple(sorted(p.items())) for p in ps)
            return {((s.atom(key, ('op', n)), 1),): 1}
        return {((s.atom(('o', n.id), ('op', n)), 1),): 1}
    def _exp(s, m, c):
        """exp(c*m) as a power of one atom per monomial, so that exp(a)*exp(b) is exp(a+b)"""
        if m not in s.expu: s.expu[m] = Fraction(abs(c))/2
        k = Fraction(c)/s.expu[m]
        if k.denominator != 1 or abs(k) > 12: return {((s.atom(('e', m, c), ('exp', m, c)), 1),): 1}
        k = int(k); h = s.atom(('e', m, s.expu[m]), ('exp', m, s.expu[m]))
        if k > 0: return {((h, k),): 1}
        r = s.one; q = s.recip({((h, 1),): 1})
        for _ in range(-k): r = s.mulp(r, q)
        return r
    def clear(s, p, keep=-1):
        """multiply out reciprocals: result is zero iff p is zero wherever denominators are nonzero"""
        while p:
            rec = set()
            for m in p:
                for v, e in m:
                    if v != keep and s.info[v][0] in ('recip', 'recip1', 'def'): rec.add(v)
            if not rec: return p
            # atoms are created after the ones their polynomial mentions: eliminate the newest first
            v = max(rec)
            D = max(dict(m).get(v, 0) for m in p)
            if s.info[v][0] == 'def':
                pw = [s.one]
                for _ in range(D): pw.append(s.mulp(pw[-1], s.info[v][1]))
                r = {}
                for m, c in p.items():
                    k = dict(m).get(v, 0)
                    r = s.addp(r, s.mulp({tuple(t for t in m if t[0] != v): c}, pw[k]))
                p = r; continue
            d = s.info[v][1] if s.info[v][0] == 'recip' else {((s.info[v][2], 1),): 1}
            pw = [s.one]
            for _ in range(D): pw.append(s.mulp(pw[-1], d))
            r = {}
            for m, c in p.items():
                k = dict(m).get(v, 0)
                rest = tuple(t for t in m if t[0] != v)
                r = s.addp(r, s.mulp({rest: c}, pw[D-k]))
            p = r
        return p
    def bound_atom(s, i, bnd):
        inf = s.info[i]
        if inf[0] == 'sym': return bnd.get(inf[1].id)
        if inf[0] == 'op' and inf[1].op in ('fn_sin', 'fn_cos'): return Fraction(1)
        if inf[0] == 'def': return s.bound_poly(inf[1], bnd)
        if inf[0] == 'sqrt':
            b = s.bound_poly(inf[1], bnd)
            return None if b is None else Fraction(math.isqrt(int(b)+1)+1)
        return None
    def bound_poly(s, p, bnd):
        t = Fraction(0)
        for m, c in p.items():
            x = abs(c)
            for v, e in m:
                b = s.bound_atom(v, bnd)
                if b is None: return None
                x *= Fraction(b)**e
            t += x
        return t
