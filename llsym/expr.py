"""Hash-consed expression DAG shared by the executor and the solver back end.

Values are either concrete Python objects (int for iN / pointers, float for
float/double, bool or int for i1) or an E node.  Kinds: 'i' bit-vector of width w,
'b' Boolean, 'f' floating value of width w (32/64).

Floating values are interpreted at query time: over the reals (MODE 'R', default) or
in the IEEE-754 theory (MODE 'F')."""
import struct, math
from fractions import Fraction

MODE = 'R'
CANON = [None]; DEC = [None]; TOI = [None]     # hooks of canon.py
def set_mode(m):
    global MODE
    MODE = m

class E:
    __slots__ = ('op', 'a', 'k', 'w', 'id', '_vars', '_z', '__weakref__')
    def __init__(s, op, a, k, w, id):
        s.op = op; s.a = a; s.k = k; s.w = w; s.id = id; s._vars = None; s._z = None
    def __repr__(s): return show(s, 4)
    def __bool__(s): raise TypeError("symbolic truth value")
    def __hash__(s): return s.id
    # operators used directly by generated code -----------------------------
    def __add__(s, o): return fadd(s, o, s.w) if s.k == 'f' else add(s, o)
    def __radd__(s, o): return fadd(o, s, s.w) if s.k == 'f' else add(s, o)
    def __sub__(s, o): return fsub(s, o, s.w) if s.k == 'f' else sub(s, o, s.w)
    def __rsub__(s, o): return fsub(o, s, s.w) if s.k == 'f' else sub(o, s, s.w)
    def __mul__(s, o): return fmul(s, o, s.w) if s.k == 'f' else mul(s, o)
    def __rmul__(s, o): return fmul(o, s, s.w) if s.k == 'f' else mul(s, o)
    def __and__(s, o): return and_(s, o)
    __rand__ = __and__
    def __or__(s, o): return or_(s, o)
    __ror__ = __or__
    def __xor__(s, o): return xor_(s, o)
    __rxor__ = __xor__
    def __neg__(s): return fneg(s)
    # unsigned comparisons
    def __lt__(s, o): return ult(s, o)
    def __gt__(s, o): return ult(o, s)
    def __le__(s, o): return not_(ult(o, s))
    def __ge__(s, o): return not_(ult(s, o))
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return not_(eq(s, o))

_tab = {}
_nid = [1]
NODES = {}
def mk(op, a, k, w):
    key = (op, w, k) + tuple([(x.id, 0) if type(x) is E else (_pd.pack(x), 1) if type(x) is float else (x, type(x)) for x in a])
    r = _tab.get(key)
    if r is None:
        _nid[0] += 1
        r = E(op, tuple(a), k, w, _nid[0])
        _tab[key] = r
    return r

def reset():
    CANON[0] = DEC[0] = TOI[0] = None; _tab.clear(); _xtab.clear(); _dep.clear(); _symtab.clear(); _nid[0] = 1

_symtab = {}
def sym(name, k, w):
    r = mk('sym', (name,), k, w)
    _symtab[r.id] = r
    return r
_fresh = [0]
def fresh(prefix, k, w):
    _fresh[0] += 1
    return sym('%s!%d' % (prefix, _fresh[0]), k, w)

def show(e, d=3):
    if type(e) is not E: return repr(e)
    if e.op == 'sym': return e.a[0]
    if d == 0: return '#%d' % e.id
    return '(%s%s %s)' % (e.op, '' if e.k == 'b' else e.w, ' '.join(show(x, d-1) for x in e.a))

_EMPTY = frozenset()
def vars_of(e):
    if type(e) is not E: return _EMPTY
    if e._vars is not None: return e._vars
    stack = [e]
    while stack:
        n = stack[-1]
        if n._vars is not None: stack.pop(); continue
        if n.op == 'sym':
            n._vars = frozenset((n.id,)); stack.pop(); continue
        todo = [x for x in n.a if type(x) is E and x._vars is None]
        if todo: stack.extend(todo); continue
        s = None
        for x in n.a:
            if type(x) is E:
                if s is None: s = x._vars
                elif not (x._vars <= s): s = s | x._vars
        n._vars = s if s is not None else _EMPTY
        stack.pop()
    return e._vars

def symnode(i): return _symtab[i]

# ---------------------------------------------------------------- helpers
def M(w): return (1 << w) - 1
def sgn(v, w):
    return v - (1 << w) if v >> (w-1) & 1 else v

_pf = struct.Struct('<f'); _pd = struct.Struct('<d'); _pI = struct.Struct('<I'); _pQ = struct.Struct('<Q')
def r32(x):
    try: return _pf.unpack(_pf.pack(x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf
def rnd(x, w): return r32(x) if w == 32 else x
def f2bits(x, w):
    if w == 32: return _pI.unpack(_pf.pack(r32(x)))[0]
    return _pQ.unpack(_pd.pack(x))[0]
def bits2f(v, w):
    if w == 32: return _pf.unpack(_pI.pack(v))[0]
    return _pd.unpack(_pQ.pack(v))[0]

def isE(x): return type(x) is E

_frac = {}
FLUSH = [0]; FLTMIN = Fraction(1, 1 << 126)
def frac(c):
    """the real number a floating constant stands for: the simple fraction (denominator up to 105) that rounds to it in
    single or double precision, otherwise its exact value (rounding of constants is rounding error)"""
    r = _frac.get(c)
    if r is None:
        r = Fraction(c)
        if FLUSH[0] and abs(r) <= FLTMIN: r = Fraction(0)
        if r.denominator > 1 << 12:
            q = r.limit_denominator(105)
            if q and abs(q-r) <= abs(r)*Fraction(1, 1 << 23) and (r32(q.numerator/q.denominator) == c or q.numerator/q.denominator == c): r = q
        _frac[c] = r
    return r

# ---------------------------------------------------------------- Boolean
def not_(c):
    if type(c) is not E: return not c
    if c.op == 'not': return c.a[0]
    if c.k != 'b': return xor_(c, M(c.w))
    return mk('not', (c,), 'b', 1)

def band(*cs):
    out = []
    seen = set()
    for c in cs:
        if type(c) is not E:
            if not c: return False
            continue
        if c.op == 'band':
            it = c.a
        else: it = (c,)
        for x in it:
            if x.id in seen: continue
            seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.a[0].id in seen: return False
    if not out: return True
    if len(out) == 1: return out[0]
    out.sort(key=lambda x: x.id)
    return mk('band', out, 'b', 1)
def bor(*cs): 
    return not_(band(*[not_(c) for c in cs]))

def tobool(c):
    """i1 value -> python bool or Boolean E"""
    if type(c) is not E: return bool(c)
    if c.k == 'b': return c
    return not_(eq(c, 0))

def ite(c, a, b):
    c = tobool(c)
    if type(c) is not E: return a if c else b
    if type(a) is E and type(b) is E:
        if a is b: return a
    elif type(a) is not E and type(b) is not E:
        if a == b and (type(a) is not float or math.copysign(1, a) == math.copysign(1, b)): return a
    if c.op == 'not': c = c.a[0]; a, b = b, a
    # kind
    x = a if type(a) is E else b if type(b) is E else None
    if x is not None: k, w = x.k, x.w
    elif type(a) is float or type(b) is float: k, w = 'f', 0
    elif type(a) is bool and type(b) is bool: k, w = 'b', 1
    else: k, w = 'i', 0
    return ite_k(c, a, b, k, w)
def ite_k(c, a, b, k, w):
    c = tobool(c)
    if type(c) is not E: return a if c else b
    if DEC[0]:
        r = DEC[0](c)
        if r is not None: return a if r else b
    if c.op == 'not': c = c.a[0]; a, b = b, a
    if k == 'b' :
        a = tobool(a); b = tobool(b)
        if a is True and b is False: return c
        if a is False and b is True: return not_(c)
        if a is True: return bor(c, b)
        if a is False: return band(not_(c), b)
        if b is True: return bor(not_(c), a)
        if b is False: return band(c, a)
    if k == 'f':
        if type(a) is int: a = float(a)
        if type(b) is int: b = float(b)
    if type(a) is E and type(b) is E and a is b: return a
    if type(a) is not E and type(b) is not E and a == b and k != 'f': return a
    if type(a) is E and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if type(b) is E and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if type(a) is E and type(b) is E and a is b: return a
    if k == 'i':
        # ite(c, bits x, bits y) -> bits ite(c,x,y)
        fa = _asf(a, w); fb = _asf(b, w)
        if (fa is not None and fb is not None) and (_isbits(a) or _isbits(b)):
            return bits(ite_k(c, fa, fb, 'f', w), w)
    return mk('ite', (c, a, b), k, w)
def _isbits(x): return type(x) is E and x.op == 'bits'
def _asf(x, w):
    if type(x) is E: return x.a[0] if x.op == 'bits' else None
    if type(x) is int and w in (32, 64): return bits2f(x, w)
    return None

# ---------------------------------------------------------------- bit-vectors
def bv(x, w):
    """Boolean E -> bv of width w"""
    if type(x) is E and x.k == 'b': return mk('ite', (x, 1, 0), 'i', w)
    return x

def _w(a, b): return a.w if type(a) is E else b.w
def add(a, b):
    if type(a) is not E:
        if type(b) is not E: raise TypeError
        a, b = b, a
    if a.k == 'b': return xor_(a, b)
    w = a.w; m = M(w)
    if type(b) is not E:
        b &= m
        if b == 0: return a
        if a.op == 'add' and type(a.a[1]) is int:
            return add(a.a[0], (a.a[1] + b) & m)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite_k(a.a[0], (a.a[1]+b) & m, (a.a[2]+b) & m, 'i', w)
        return mk('add', (a, b), 'i', w)
    if a.op == 'add' and type(a.a[1]) is int: return add(add(a.a[0], b), a.a[1])
    if b.op == 'add' and type(b.a[1]) is int: return add(add(a, b.a[0]), b.a[1])
    if a.op == 'neg' and a.a[0] is b: return 0
    if b.op == 'neg' and b.a[0] is a: return 0
    if a.id > b.id: a, b = b, a
    return mk('add', (a, b), 'i', w)
def neg(a, w):
    if type(a) is not E: return -a & M(w)
    if a.op == 'neg': return a.a[0]
    if a.op == 'add' and type(a.a[1]) is int: return add(neg(a.a[0], w), -a.a[1] & M(w))
    return mk('neg', (a,), 'i', w)
def sub(a, b, w):
    if type(b) is not E: return add(a, -b & M(w)) if type(a) is E else (a-b) & M(w)
    if type(a) is E and a is b: return 0
    if b.k == 'b': return xor_(a, b)
    return add(a, neg(b, w)) if type(a) is E or a else neg(b, w)
def mul(a, b):
    if type(a) is not E: a, b = b, a
    if a.k == 'b': return and_(a, b)
    w = a.w; m = M(w)
    if type(b) is not E:
        b &= m
        if b == 0: return 0
        if b == 1: return a
        if b == m: return neg(a, w)
        if a.op == 'mul' and type(a.a[1]) is int: return mul(a.a[0], a.a[1]*b & m)
        if a.op == 'add' and type(a.a[1]) is int: return add(mul(a.a[0], b), a.a[1]*b & m)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite_k(a.a[0], (a.a[1]*b) & m, (a.a[2]*b) & m, 'i', w)
        return mk('mul', (a, b), 'i', w)
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), 'i', w)

def _bin(op, f):
    def g(a, b, w):
        if type(a) is not E and type(b) is not E: return f(a, b, w)
        if type(b) is int:
            if op in ('shl', 'lshr', 'ashr') and b == 0: return a
            if op == 'udiv' and b == 1: return a
            if op == 'sdiv' and b == 1: return a
            if op == 'lshr' and type(a) is E and a.op == 'lshr' and type(a.a[1]) is int:
                return g(a.a[0], a.a[1]+b, w) if a.a[1]+b < w else 0
            if op == 'shl':
                if b >= w: return 0
                return mul(a, 1 << b)
            if op == 'lshr' and type(a) is E:
                # logical right shift by const = zero-extended extract
                if a.op == 'concat' or a.op == 'zext' or a.op == 'ite':
                    if b < w: return zext(extract(a, w-1, b), w)
            if op == 'urem' and b and b & (b-1) == 0:
                return and_(a, b-1)
            if op == 'udiv' and b and b & (b-1) == 0:
                return lshr(a, b.bit_length()-1, w)
            if type(a) is E and a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
                return ite_k(a.a[0], f(a.a[1], b, w), f(a.a[2], b, w), 'i', w)
        if type(a) is int and a == 0 and op in ('shl', 'lshr', 'ashr'): return 0
        return mk(op, (a, b), 'i', w)
    return g
def _sdiv(a, b, w):
    a = sgn(a, w); b = sgn(b, w)
    if b == 0: raise ZeroDivisionError
    q = abs(a)//abs(b)
    return (q if (a < 0) == (b < 0) else -q) & M(w)
def _srem(a, b, w):
    a = sgn(a, w); b = sgn(b, w)
    if b == 0: raise ZeroDivisionError
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & M(w)
udiv = _bin('udiv', lambda a, b, w: a//b)
sdiv = _bin('sdiv', _sdiv)
urem = _bin('urem', lambda a, b, w: a % b)
srem = _bin('srem', _srem)
shl = _bin('shl', lambda a, b, w: (a << b) & M(w) if b < w else 0)
lshr = _bin('lshr', lambda a, b, w: a >> b if b < w else 0)
ashr = _bin('ashr', lambda a, b, w: (sgn(a, w) >> min(b, w-1)) & M(w))

def _maskite(e):
    """ite(c,-1,0) -> (c, True) ; ite(c,0,-1) -> (c, False)"""
    if type(e) is E and e.op == 'ite' and type(e.a[1]) is int and type(e.a[2]) is int:
        m = M(e.w)
        if e.a[1] == m and e.a[2] == 0: return e.a[0]
        if e.a[1] == 0 and e.a[2] == m: return not_(e.a[0])
    return None
def and_(a, b):
    if type(a) is not E: a, b = b, a
    if type(a) is not E: return a & b
    if a.k == 'b': return band(a, tobool(b) if type(b) is not E else b)
    w = a.w; m = M(w)
    if type(b) is E and b.k == 'b': b = bv(b, w)
    if type(b) is not E:
        b &= m
        if b == 0: return 0
        if b == m: return a
        if a.op == 'bits' and b == (m >> 1): return bits(fabs(a.a[0], w), w)
        if a.op == 'bits' and b == 1 << (w-1) and CANON[0]: return ite_k(flt(a.a[0], 0.0), b, 0, 'i', w)     # sign of a real
        if a.op == 'and' and type(a.a[1]) is int: return and_(a.a[0], a.a[1] & b)
        if a.op == 'zext':
            if b & M(a.a[0].w) == M(a.a[0].w): return a
            return zext(and_(a.a[0], b & M(a.a[0].w)), w)
        if a.op == 'ite': 
            if type(a.a[1]) is int or type(a.a[2]) is int:
                return ite_k(a.a[0], and_(a.a[1], b), and_(a.a[2], b), 'i', w)
        if a.op == 'or' and type(a.a[1]) is int:
            return or_(and_(a.a[0], b), a.a[1] & b)
        # low mask -> zext extract
        if b & (b+1) == 0 and a.op in ('concat', 'lshr', 'zext', 'sext'):
            n = b.bit_length()
            return zext(extract(a, n-1, 0), w)
        return mk('and', (a, b), 'i', w)
    if a is b: return a
    c = _maskite(a)
    if c is not None: return ite_k(c, b, 0, 'i', w)
    c = _maskite(b)
    if c is not None: return ite_k(c, a, 0, 'i', w)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and ((type(x.a[1]) is int and x.a[1] == 0) or (type(x.a[2]) is int and x.a[2] == 0)):
            if y.op == 'ite' and y.a[0] is x.a[0]:
                return ite_k(x.a[0], and_(x.a[1], y.a[1]), and_(x.a[2], y.a[2]), 'i', w)
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), 'i', w)
def or_(a, b):
    if type(a) is not E: a, b = b, a
    if type(a) is not E: return a | b
    if a.k == 'b': return bor(a, tobool(b) if type(b) is not E else b)
    w = a.w; m = M(w)
    if type(b) is E and b.k == 'b': b = bv(b, w)
    if type(b) is not E:
        b &= m
        if b == 0: return a
        if b == m: return m
        if a.op == 'bits' and b == 1 << (w-1): return bits(fneg(fabs(a.a[0], w)), w)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite_k(a.a[0], a.a[1] | b, a.a[2] | b, 'i', w)
        return mk('or', (a, b), 'i', w)
    if a is b: return a
    if a.op == 'ite' and b.op == 'ite':
        if a.a[0] is b.a[0]:
            return ite_k(a.a[0], or_(a.a[1], b.a[1]), or_(a.a[2], b.a[2]), 'i', w)
    if a.id > b.id: a, b = b, a
    # byte assembly: or(zext x, shl(zext y)) -> concat
    for x, y in ((a, b), (b, a)):
        if x.op == 'zext' and y.op == 'mul' and type(y.a[1]) is int:
            n = x.a[0].w
            if y.a[1] == 1 << n and type(y.a[0]) is E and y.a[0].op == 'zext':
                t = concat(y.a[0].a[0], x.a[0], y.a[0].a[0].w, n)
                return zext(t, w) if n + y.a[0].a[0].w <= w else extract(t, w-1, 0)
    return mk('or', (a, b), 'i', w)
def xor_(a, b):
    if type(a) is not E: a, b = b, a
    if type(a) is not E: return a ^ b
    if a.k == 'b':
        if type(b) is not E: return not_(a) if b else a
        b = tobool(b)
        if a is b: return False
        return mk('bxor', (a, b) if a.id < b.id else (b, a), 'b', 1)
    w = a.w; m = M(w)
    if type(b) is E and b.k == 'b': b = bv(b, w)
    if type(b) is not E:
        b &= m
        if b == 0: return a
        if a.op == 'xor' and type(a.a[1]) is int: return xor_(a.a[0], a.a[1] ^ b)
        if a.op == 'bits' and b == 1 << (w-1): return bits(fneg(a.a[0]), w)
        if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int or (_isbits(a.a[1]) and b == 1 << (w-1))):
            return ite_k(a.a[0], xor_(a.a[1], b), xor_(a.a[2], b), 'i', w)
        return mk('xor', (a, b), 'i', w)
    if a is b: return 0
    for x, y in ((a, b), (b, a)):
        if x.op == 'xor':
            if x.a[0] is y: return x.a[1]
            if x.a[1] is y: return x.a[0]
        if x.op == 'ite' and (type(x.a[2]) is int and x.a[2] == 0):
            t = x.a[1]
            if type(t) is E and t.op == 'xor' and (t.a[0] is y or t.a[1] is y):
                return ite_k(x.a[0], xor_(t, y), y, 'i', w)
        if x.op == 'ite' and type(x.a[1]) is int and x.a[1] == 0:
            t = x.a[2]
            if type(t) is E and t.op == 'xor' and (t.a[0] is y or t.a[1] is y):
                return ite_k(x.a[0], y, xor_(t, y), 'i', w)
        # xor with sign mask selected: bits(f) ^ ite(c, 0x80.., 0)
        if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int and y.op == 'bits':
            return ite_k(x.a[0], xor_(y, x.a[1]), xor_(y, x.a[2]), 'i', w)
        if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
            return ite_k(x.a[0], xor_(x.a[1], y.a[1]), xor_(x.a[2], y.a[2]), 'i', w)
    if a.op == 'xor' and b.op == 'xor':
        pass
    if a.id > b.id: a, b = b, a
    r = mk('xor', (a, b), 'i', w)
    if CUT[0] and w >= CUT[0]:
        # cut point: the solver sees a name with a definition, simplification does not look inside
        d = depth(r)
        if d >= 8: _dep[(r.id, 'c')] = 1; r = mk('cut', (r,), 'i', w); _dep[r.id] = 0
    return r
CUT = [0]; _dep = {}
def depth(e):
    if type(e) is not E: return 0
    d = _dep.get(e.id)
    if d is None:
        stack = [e]
        while stack:
            n = stack[-1]
            todo = [x for x in n.a if type(x) is E and x.id not in _dep]
            if todo: stack.extend(todo); continue
            _dep[n.id] = 1+max([_dep[x.id] for x in n.a if type(x) is E] or [0]); stack.pop()
        d = _dep[e.id]
    return d

_xtab = {}
def extract(a, hi, lo):
    w = hi-lo+1
    if type(a) is not E: return (a >> lo) & M(w)
    if a.k == 'b': a = bv(a, hi+1)
    if lo == 0 and w == a.w: return a
    op = a.op
    if op in ('and', 'or', 'xor', 'ite', 'add', 'mul', 'neg'):
        k = (a.id, hi, lo); r = _xtab.get(k)
        if r is None: r = _xtab[k] = _extract(a, hi, lo, w, op)
        return r
    return _extract(a, hi, lo, w, op)
def _extract(a, hi, lo, w, op):
    if op == 'extract': return extract(a.a[0], a.a[2]+hi, a.a[2]+lo)
    if op == 'concat':
        wl = a.a[3]
        if hi < wl: return extract(a.a[1], hi, lo)
        if lo >= wl: return extract(a.a[0], hi-wl, lo-wl)
        return concat(extract(a.a[0], hi-wl, 0), extract(a.a[1], wl-1, lo), hi-wl+1, wl-lo)
    if op == 'zext':
        n = a.a[0].w
        if hi < n: return extract(a.a[0], hi, lo)
        if lo >= n: return 0
        return zext(extract(a.a[0], n-1, lo), w)
    if op == 'sext' and hi < a.a[0].w: return extract(a.a[0], hi, lo)
    if op == 'ite': return ite_k(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo), 'i', w)
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor_}[op]
        return f(extract(a.a[0], hi, lo), extract(a.a[1], hi, lo))
    if lo == 0 and op in ('add', 'mul'):
        f = {'add': add, 'mul': mul}[op]
        x, y = extract(a.a[0], hi, 0), extract(a.a[1], hi, 0)
        if type(x) is E or type(y) is E: return f(x, y)
        return (x+y if op == 'add' else x*y) & M(w)
    if lo == 0 and op == 'neg': return neg(extract(a.a[0], hi, 0), w)
    if op == 'mul' and type(a.a[1]) is int:
        c = a.a[1]
        if c & (c-1) == 0:
            s = c.bit_length()-1
            if lo >= s: return extract(a.a[0], hi-s, lo-s)
            if hi < s: return 0
    if op == 'lshr' and type(a.a[1]) is int:
        s = a.a[1]
        if hi+s < a.w: return extract(a.a[0], hi+s, lo+s)
    return mk('extract', (a, hi, lo), 'i', w)
def concat(h, l, wh, wl):
    if type(h) is not E and type(l) is not E: return (h << wl) | l
    if type(h) is E and h.k == 'b': h = bv(h, wh)
    if type(l) is E and l.k == 'b': l = bv(l, wl)
    if type(h) is int and h == 0: return zext(l, wh+wl)
    if type(h) is E and type(l) is E and h.op == 'extract' and l.op == 'extract' and h.a[0] is l.a[0] and h.a[2] == l.a[1]+1:
        return extract(h.a[0], h.a[1], l.a[2])
    if type(l) is E and l.op == 'concat' :
        pass
    return mk('concat', (h, l, wh, wl), 'i', wh+wl)
def zext(a, w):
    if type(a) is not E: return int(a)
    if a.k == 'b': return bv(a, w)
    if a.w == w: return a
    if a.op == 'zext': return zext(a.a[0], w)
    if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
        return ite_k(a.a[0], zext(a.a[1], w), zext(a.a[2], w), 'i', w)
    return mk('zext', (a,), 'i', w)
def sext(a, wa, w):
    if type(a) is not E: return sgn(int(a), wa) & M(w)
    if a.k == 'b': return mk('ite', (a, M(w), 0), 'i', w)
    if a.w == w: return a
    if a.op == 'zext' and a.w > a.a[0].w: return zext(a.a[0], w)
    if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
        return ite_k(a.a[0], sext(a.a[1], wa, w), sext(a.a[2], wa, w), 'i', w)
    return mk('sext', (a,), 'i', w)
def trunc(a, w):
    if type(a) is not E: return a & M(w)
    if w == 1:
        if a.k == 'b': return a
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite_k(a.a[0], bool(a.a[1] & 1), bool(a.a[2] & 1), 'b', 1)
        return not_(eq(extract(a, 0, 0), 0))
    return extract(a, w-1, 0)

def eq(a, b):
    if type(a) is not E: a, b = b, a
    if type(a) is not E: return a == b
    if type(b) is E and a is b: return True
    if a.k == 'b':
        if type(b) is not E: return a if b else not_(a)
        b = tobool(b)
        return not_(mk('bxor', (a, b) if a.id < b.id else (b, a), 'b', 1))
    if type(b) is E and b.k == 'b': b = bv(b, a.w)
    if type(b) is int:
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if type(x) is int or type(y) is int:
                return ite_k(a.a[0], eq(x, b), eq(y, b), 'b', 1)
        if a.op == 'add' and type(a.a[1]) is int: return eq(a.a[0], (b-a.a[1]) & M(a.w))
        if a.op == 'zext':
            if b > M(a.a[0].w): return False
            return eq(a.a[0], b)
        if a.op == 'neg': return eq(a.a[0], -b & M(a.w))
        if a.op == 'sext':
            n = a.a[0].w
            if sgn(b, a.w) != sgn(b & M(n), n): return False
            return eq(a.a[0], b & M(n))
        if a.op == 'bits' and MODE == 'R':
            if b & M(a.w-1) == 0: return feq(a.a[0], 0.0)
        if a.op == 'concat':
            wl = a.a[3]
            return band(eq(a.a[0], b >> wl), eq(a.a[1], b & M(wl)))
        return mk('eq', (a, b), 'b', 1)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    if a.op == 'add' and b.op == 'add' and type(a.a[1]) is int and type(b.a[1]) is int:
        return eq(a.a[0], add(b.a[0], (b.a[1]-a.a[1]) & M(a.w)))
    if a.op == 'add' and type(a.a[1]) is int and a.a[0] is b: return False
    if b.op == 'add' and type(b.a[1]) is int and b.a[0] is a: return False
    if MODE == 'R' and _isbits(a) and _isbits(b): return feq(a.a[0], b.a[0])
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'b', 1)
def ult(a, b):
    if type(a) is not E and type(b) is not E: return a < b
    if type(a) is E and type(b) is E and a is b: return False
    if type(b) is int:
        if b == 0: return False
        if b == 1: return eq(a, 0)
        if a.op == 'zext' and b > M(a.a[0].w): return True
        if a.op == 'zext': return ult(a.a[0], b)
    if type(a) is int:
        if a == M(b.w): return False
        if a == 0: return not_(eq(b, 0))
        if b.op == 'zext':
            if a >= M(b.a[0].w): return False
            return ult(a, b.a[0])
    if type(a) is E and type(b) is E and a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return ult(a.a[0], b.a[0])
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if type(x) is E and x.op == 'ite' and type(y) is int and type(x.a[1]) is int and type(x.a[2]) is int:
            g = (lambda u: u < y) if f == 0 else (lambda u: y < u)
            return ite_k(x.a[0], g(x.a[1]), g(x.a[2]), 'b', 1)
    return mk('ult', (a, b), 'b', 1)
def slt(a, b, w):
    if type(a) is not E and type(b) is not E:
        h = 1 << (w-1)
        return (a ^ h) < (b ^ h)
    if type(a) is E and type(b) is E and a is b: return False
    if type(a) is E and a.k == 'b': a = bv(a, w)
    if type(b) is E and b.k == 'b': b = bv(b, w)
    if _isbits(a) and type(b) is int and b == 0: return flt(a.a[0], 0.0)   # sign test (R)
    if _isbits(b) and type(a) is int and a == M(w): return not_(flt(b.a[0], 0.0))
    if type(a) is E and a.op == 'zext' and type(b) is int:
        return ult(a.a[0], b) if b < 1 << (w-1) and b <= M(a.a[0].w) else (b < 1 << (w-1))
    if type(b) is E and b.op == 'zext' and type(a) is int:
        if a >= 1 << (w-1): return True
        return ult(a, b.a[0]) if a <= M(b.a[0].w) else False
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if type(x) is E and x.op == 'ite' and type(y) is int and type(x.a[1]) is int and type(x.a[2]) is int:
            g = (lambda u: slt(u, y, w)) if f == 0 else (lambda u: slt(y, u, w))
            return ite_k(x.a[0], g(x.a[1]), g(x.a[2]), 'b', 1)
        if type(x) is E and x.op == 'sext' and type(y) is int:
            n = x.a[0].w; ys = sgn(y, w)
            if -(1 << (n-1)) <= ys < 1 << (n-1):
                return slt(x.a[0], ys & M(n), n) if f == 0 else slt(ys & M(n), x.a[0], n)
    return mk('slt', (a, b), 'b', 1)
def sle(a, b, w): return not_(slt(b, a, w))

# ---------------------------------------------------------------- floats
def _bad(x): return type(x) is float and (x != x or x in (math.inf, -math.inf))
def tof(x): return float(x) if type(x) is int else x

def _tiny(x):
    return x.op == 'ite' and type(x.a[1]) is float and type(x.a[2]) is float and abs(x.a[1]) < 1e-30 and abs(x.a[2]) < 1e-30
def fadd(a, b, w):
    if type(a) is not E and type(b) is not E: return rnd(a+b, w)
    if MODE == 'R':
        if type(a) is not E: a, b = b, a
        if type(b) is not E:
            if -1e-30 < b < 1e-30: return a              # below every rounding threshold of the modelled values
            if _bad(b): return fresh('special', 'f', w)
        else:
            if _tiny(a): return b
            if _tiny(b): return a
            if a.op == 'fneg' and a.a[0] is b: return 0.0
            if b.op == 'fneg' and b.a[0] is a: return 0.0
            if a.id > b.id: a, b = b, a
    return mk('fadd', (a, b), 'f', w)
def fsub(a, b, w):
    if type(a) is not E and type(b) is not E: return rnd(a-b, w)
    if MODE == 'R':
        if type(b) is not E and b == 0: return a
        if type(a) is not E and a == 0: return fneg(b)
        if _bad(a) or _bad(b): return fresh('special', 'f', w)
        if type(a) is E and type(b) is E and a is b: return 0.0
    return mk('fsub', (a, b), 'f', w)
def fmul(a, b, w):
    if type(a) is not E and type(b) is not E: return rnd(a*b, w)
    if MODE == 'R':
        if type(a) is not E: a, b = b, a
        if type(b) is not E:
            if b == 1: return a
            if b == 0: return 0.0
            if b == -1: return fneg(a)
            if _bad(b): return fresh('special', 'f', w)
        elif a.id > b.id: a, b = b, a
    return mk('fmul', (a, b), 'f', w)
def cdiv(a, b, w):
    if b == 0:
        if a != a or a == 0: return math.nan
        return math.copysign(math.inf, a)*math.copysign(1, b)
    return rnd(a/b, w)
def fdiv(a, b, w):
    if type(a) is not E and type(b) is not E: return cdiv(a, b, w)
    if MODE == 'R':
        if type(b) is not E:
            if b == 1: return a
            if b == 0 or b != b: return fresh('special', 'f', w)
            if _bad(b): return 0.0
        elif type(a) is E and a is b: return 1.0
        if type(a) is not E and _bad(a): return fresh('special', 'f', w)
        if type(a) is not E and a == 0: return 0.0
    return mk('fdiv', (a, b), 'f', w)
def frem(a, b, w):
    if type(a) is not E and type(b) is not E: return rnd(math.fmod(a, b), w)
    return mk('frem', (a, b), 'f', w)
def fneg(a):
    if type(a) is not E: return -a
    if a.op == 'fneg': return a.a[0]
    return mk('fneg', (a,), 'f', a.w)
def fabs(a, w=32):
    if type(a) is not E: return abs(a)
    if a.op in ('fabs', 'fneg') : return fabs(a.a[0], a.w) if a.op == 'fneg' else a
    if a.op == 'sqrt': return a
    return mk('fabs', (a,), 'f', a.w)
def fsqrt(a, w):
    if type(a) is not E: return rnd(math.sqrt(a), w) if a >= 0 else (math.nan if a != 0 else a)
    return mk('sqrt', (a,), 'f', w)
def ffn(name, args, w):
    """uninterpreted (or concretely evaluated) math function"""
    if not any(type(x) is E for x in args):
        try:
            return rnd(getattr(math, name)(*args), w)
        except OverflowError: return math.inf
        except ValueError: return math.nan
    if MODE == 'R':
        x = args[0]
        if name in ('sinh', 'cosh', 'tanh'):
            p = ffn('exp', (x,), w); q = ffn('exp', (fneg(x),), w)
            return fmul(fsub(p, q, w), 0.5, w) if name == 'sinh' else fmul(fadd(p, q, w), 0.5, w) if name == 'cosh' else fdiv(fsub(p, q, w), fadd(p, q, w), w)
        if name == 'expm1': return fsub(ffn('exp', (x,), w), 1.0, w)
        if name == 'log1p': return ffn('log', (fadd(x, 1.0, w),), w)
    return mk('fn_'+name, args, 'f', w)
def flt(a, b):
    if type(a) is not E and type(b) is not E: return a < b
    if MODE == 'R':
        if type(a) is E and type(b) is E and a is b: return False
        for x in (a, b):
            if type(x) is not E and x != x: return False
        if _bad(a): return a < 0
        if _bad(b): return b > 0
        if CANON[0]:
            r = CANON[0]('lt', a, b)
            if r is not None: return r
    return mk('flt', (a, b), 'b', 1)
def fle(a, b):
    if type(a) is not E and type(b) is not E: return a <= b
    if MODE == 'R':
        for x in (a, b):
            if type(x) is not E and x != x: return False
        return not_(flt(b, a))
    return mk('fle', (a, b), 'b', 1)
def feq(a, b):
    if type(a) is not E and type(b) is not E: return a == b
    if MODE == 'R':
        if type(a) is E and type(b) is E and a is b: return True
        if _bad(a) or _bad(b): return False
        for x, y in ((a, b), (b, a)):
            if type(x) is E and type(y) is not E and y <= 0:
                while x.op == 'fcast': x = x.a[0]
                if x.op == 'fn_exp': return False     # exp is positive (no underflow in exact arithmetic)
        if CANON[0]:
            r = CANON[0]('eq', a, b)
            if r is not None: return r
    if type(a) is not E or (type(b) is E and a.id > b.id): a, b = b, a
    return mk('feq', (a, b), 'b', 1)
def isnan(a):
    if type(a) is not E: return a != a
    if MODE == 'R': return False
    return mk('fnan', (a,), 'b', 1)
def fcmp(p, a, b):
    if p == 'oeq': return feq(a, b)
    if p == 'une': return not_(feq(a, b))
    if p == 'olt': return flt(a, b)
    if p == 'ogt': return flt(b, a)
    if p == 'ole': return fle(a, b)
    if p == 'oge': return fle(b, a)
    if p == 'uge': return not_(flt(a, b))
    if p == 'ule': return not_(flt(b, a))
    if p == 'ugt': return not_(fle(a, b))
    if p == 'ult': return not_(fle(b, a))
    if p == 'uno': return bor(isnan(a), isnan(b))
    if p == 'ord': return not_(bor(isnan(a), isnan(b)))
    if p == 'one': return bor(flt(a, b), flt(b, a))
    if p == 'ueq': return not_(bor(flt(a, b), flt(b, a)))
    if p == 'true': return True
    if p == 'false': return False
    raise NotImplementedError('fcmp '+p)

def bits(a, w):
    if type(a) is not E: return f2bits(a, w) if type(a) is float else a
    if a.op == 'float': return a.a[0]
    if a.w == 0: a = mk(a.op, a.a, a.k, w)
    return mk('bits', (a,), 'i', w)
def tofloat(v, w):
    if type(v) is not E: return bits2f(v, w) if type(v) is int else v
    if v.k == 'f': return v
    if v.op == 'bits': return v.a[0]
    if v.op == 'ite':
        x, y = v.a[1], v.a[2]
        fx, fy = _asf(x, w), _asf(y, w)
        if fx is None and type(x) is E and x.op == 'ite': fx = tofloat(x, w)
        if fy is None and type(y) is E and y.op == 'ite': fy = tofloat(y, w)
        if fx is not None and fy is not None:
            return ite_k(v.a[0], fx, fy, 'f', w)
    return mk('float', (v,), 'f', w)
def asint(v, w):
    """value loaded/used as integer of width w"""
    t = type(v)
    if t is int: return v
    if t is bool: return int(v)
    if t is float: return f2bits(v, w)
    if v.k == 'f': return bits(v, w)
    if v.k == 'b': return bv(v, w)
    return v
def asflt(v, w):
    t = type(v)
    if t is float: return v
    if t is int or t is bool: return bits2f(int(v), w)
    if v.k == 'f': return v
    return tofloat(v, w)

def sitofp(a, wa, w):
    if type(a) is not E: return rnd(float(sgn(int(a), wa)), w)
    if a.k == 'b': return ite_k(a, -1.0, 0.0, 'f', w)
    if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite_k(a.a[0], sitofp(a.a[1], wa, w), sitofp(a.a[2], wa, w), 'f', w)
    return mk('sitofp', (a, wa), 'f', w)
def uitofp(a, wa, w):
    if type(a) is not E: return rnd(float(int(a)), w)
    if a.k == 'b': return ite_k(a, 1.0, 0.0, 'f', w)
    if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite_k(a.a[0], uitofp(a.a[1], wa, w), uitofp(a.a[2], wa, w), 'f', w)
    if a.op == 'zext': return mk('uitofp', (a.a[0], a.a[0].w), 'f', w)
    return mk('uitofp', (a, wa), 'f', w)
def fptosi(a, wf, w):
    if type(a) is not E:
        if a != a or abs(a) >= 2.0**(w-1): return 1 << (w-1)
        return int(a) & M(w)
    if TOI[0]:
        k = TOI[0](a)
        if k is not None and -(1 << (w-1)) <= k < 1 << (w-1): return k & M(w)
    return mk('fptosi', (a, w), 'i', w)
def fptoui(a, wf, w):
    if type(a) is not E:
        if a != a or a >= 2.0**w or a <= -1: return 0
        return int(a) & M(w)
    return mk('fptoui', (a, w), 'i', w)
def fpext(a):
    if type(a) is not E: return a
    if MODE == 'R': 
        return mk('fcast', (a,), 'f', 64) if a.op != 'fcast' else (a.a[0] if a.a[0].w == 64 else mk('fcast', (a.a[0],), 'f', 64))
    return mk('fcast', (a,), 'f', 64)
def fptrunc(a):
    if type(a) is not E: return r32(a)
    if a.op == 'fcast' and a.a[0].w == 32: return a.a[0]
    return mk('fcast', (a,), 'f', 32)

def ctpop(a, w):
    if type(a) is not E: return bin(a).count('1')
    r = 0
    for i in range(w):
        b = zext(extract(a, i, i), w)
        r = add(r, b) if type(r) is E or type(b) is E else r+b
    return r
def bswap(a, w):
    if type(a) is not E: return int.from_bytes(a.to_bytes(w//8, 'little'), 'big')
    r = extract(a, 7, 0); wr = 8
    for i in range(1, w//8):
        r = concat(r, extract(a, 8*i+7, 8*i), wr, 8); wr += 8
    return r
