"""Translation of queries over exact reals and machine integers into linear integer/real arithmetic.

A machine integer is translated to its (signed) mathematical value; every operation adds a condition under
which the machine result differs (overflow, sign).  Used for 'unsat' only: every
conjunct is asserted or one of its such conditions, so an 'unsat' answer also excludes every such case."""
import z3
import expr as X
from expr import E
class NoTr(Exception): pass
class IntTr:
    def __init__(s, S): s.S = S; s.z = {}; s.ov = {}; s.sd = {}
    def tr(s, e, k=None, w=None):
        if type(e) is not E:
            if k == 'b': return z3.BoolVal(bool(e))
            if k == 'f': return s.S.num(float(e) if type(e) is int else e, w)
            e = int(e) & ((1 << w)-1); return z3.IntVal(e-(1 << w) if w > 1 and e >> (w-1) else e)
        r = s.z.get(e.id)
        if r is not None: return r
        stack = [e]
        while stack:
            n = stack[-1]
            if n.id in s.z: stack.pop(); continue
            todo = [x for x in n.a if type(x) is E and x.id not in s.z]
            if todo: stack.extend(todo); continue
            s.z[n.id] = s.tr1(n); stack.pop()
        return s.z[e.id]
    def rng(s, n, v): s.ov.setdefault(n.id, []).append(z3.Or(v < -(1 << (n.w-1)), v >= (1 << (n.w-1)))); return v
    def neg(s, n, *xs): s.ov.setdefault(n.id, []).append(z3.Or([x < 0 for x in xs]))
    def tr1(s, n):
        op, a, k, w = n.op, n.a, n.k, n.w; T = s.tr
        if op == 'sym':
            nm = '%s@%d' % (a[0], n.id)
            if k == 'b': return z3.Bool(nm)
            if k == 'i':
                v = z3.Int(nm); s.sd[n.id] = [v >= -(1 << (w-1)), v < (1 << (w-1))]; return v
            v = z3.Real(nm); b = s.S.bounds.get(n.id); c = []
            if b is not None:
                if b[0] is not None: c.append(v >= s.S.num(b[0], w))
                if b[1] is not None: c.append(v <= s.S.num(b[1], w))
            s.sd[n.id] = c
            return v
        if op == 'not': return z3.Not(T(a[0], 'b'))
        if op == 'band': return z3.And([T(x, 'b') for x in a])
        if op == 'bxor': return z3.Xor(T(a[0], 'b'), T(a[1], 'b'))
        if op == 'ite': return z3.If(T(a[0], 'b'), T(a[1], k, w), T(a[2], k, w))
        if k == 'i':
            if op in ('add', 'mul'):
                x = T(a[0], 'i', w); y = T(a[1], 'i', w)
                if op == 'mul' and type(a[0]) is E and type(a[1]) is E: raise NoTr
                return s.rng(n, x+y if op == 'add' else x*y)
            if op == 'neg': return s.rng(n, -T(a[0], 'i', w))
            if op in ('udiv', 'urem', 'lshr', 'and') and type(a[1]) is int and a[1] > 0 and a[1] < (1 << (w-1)):
                x = T(a[0], 'i', w); c = a[1]
                if op == 'lshr': s.neg(n, x); return x/z3.IntVal(1 << c)
                if op == 'and':
                    if c & (c+1): raise NoTr
                    return x % z3.IntVal(c+1)
                s.neg(n, x); return x/z3.IntVal(c) if op == 'udiv' else x % z3.IntVal(c)
            if op in ('sdiv', 'srem') and type(a[1]) is int and 0 < a[1] < (1 << (w-1)):
                x = T(a[0], 'i', w); c = z3.IntVal(a[1]); d = z3.If(x >= 0, x/c, -((-x)/c))
                return d if op == 'sdiv' else x-c*d
            if op == 'shl' and type(a[1]) is int: return s.rng(n, T(a[0], 'i', w)*z3.IntVal(1 << a[1]))
            if op == 'ashr' and type(a[1]) is int: return T(a[0], 'i', w)/z3.IntVal(1 << a[1])
            if op == 'zext':
                x = T(a[0])
                if a[0].k == 'b': return z3.If(x, z3.IntVal(1), z3.IntVal(0))
                s.neg(n, x); return x
            if op == 'sext': return T(a[0])
            if op == 'extract' and a[2] == 0: return s.rng(n, T(a[0]))
            if op in ('fptosi', 'fptoui'):
                i = z3.Int('toint@%d' % n.id); x = T(a[0], 'f', 32)
                s.sd[n.id] = [z3.If(x >= 0, z3.And(z3.ToReal(i) <= x, x < z3.ToReal(i)+1), z3.And(z3.ToReal(i)-1 < x, x <= z3.ToReal(i)))]
                if op == 'fptoui': s.neg(n, i)
                return s.rng(n, i)
            raise NoTr(op)
        if k == 'b':
            if op in ('eq', 'ult', 'slt'):
                ww = a[0].w if type(a[0]) is E else a[1].w
                x = T(a[0], 'i', ww); y = T(a[1], 'i', ww)
                if op == 'ult': s.neg(n, x, y)
                return x == y if op == 'eq' else x < y
            if op in ('feq', 'flt', 'fle'):
                ww = a[0].w if type(a[0]) is E else a[1].w
                x = T(a[0], 'f', ww); y = T(a[1], 'f', ww)
                return x == y if op == 'feq' else x < y if op == 'flt' else x <= y
        if k == 'f':
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x = T(a[0], 'f', w); y = T(a[1], 'f', w)
                if op == 'fdiv' and type(a[1]) is E: raise NoTr
                return x+y if op == 'fadd' else x-y if op == 'fsub' else x*y if op == 'fmul' else x/y
            if op == 'fneg': return -T(a[0])
            if op == 'fabs': x = T(a[0]); return z3.If(x >= 0, x, -x)
            if op == 'fcast': return T(a[0])
            if op == 'sitofp': return z3.ToReal(T(a[0], 'i', a[1]))
            if op == 'uitofp': x = T(a[0], 'i', a[1]); s.neg(n, x); return z3.ToReal(x)
        raise NoTr('%s %s' % (op, k))
    def unsat(s, cs, timeout):
        """True if the conjunction of cs is unsatisfiable"""
        fs = [s.tr(c, 'b') for c in cs]
        # an operation that leaves its range excuses the conjunct it occurs in (the innermost such operation is
        # evaluated correctly, so its condition is exact); every conjunct holds or is excused
        sd = []; hard = []; gs = set()
        for c, f in zip(cs, fs):
            ov = []; seen = set(); stack = [c]
            while stack:
                n = stack.pop()
                if n.id in seen: continue
                seen.add(n.id); ov += s.ov.get(n.id, ())
                if n.id not in gs: gs.add(n.id); sd += s.sd.get(n.id, ())
                for x in n.a:
                    if type(x) is E: stack.append(x)
            hard.append(z3.Or(f, *ov) if ov else f)
        sol = z3.Solver(); sol.set('timeout', timeout); sol.add(sd); sol.add(hard)
        return str(sol.check()) == 'unsat'
def wants(cs):
    seen = set(); stack = list(cs); i = f = False
    while stack:
        n = stack.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op in ('fptosi', 'fptoui', 'sitofp', 'uitofp'): return True
        for x in n.a:
            if type(x) is E: stack.append(x)
    return False
