"""Symbolic executor for linked LLVM IR modules."""
import re, sys, time, struct, math
import expr as X
from expr import E
import irparse as IR
from irparse import P, tokens, size, layout, gep_steps, zero

M64 = (1 << 64)-1
BASE = 1 << 24           # in-object base offset (red zone below)

class EngineError(Exception): pass
class PathEnd(Exception):
    def __init__(s, kind, msg=''): s.kind = kind; s.msg = msg
class NeedConc(Exception):
    def __init__(s, e): s.e = e
class MemFault(Exception):
    def __init__(s, msg): s.msg = msg
class SwitchProc(Exception):
    """blocked on communication; retry the call later"""
    pass

# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('size', 'cells', 'fill', 'name', 'freed', 'const')
    def __init__(s, size, name, fill=None):
        s.size = size; s.cells = {}; s.fill = fill; s.name = name; s.freed = False; s.const = False
    def clone(s):
        o = Obj.__new__(Obj)
        o.size = s.size; o.cells = dict(s.cells); o.fill = s.fill; o.name = s.name; o.freed = s.freed; o.const = s.const
        return o

class State:
    __slots__ = ('mem', 'owned', 'r', 'stack', 'al', 'pc', 'pcset', 'cmap', 'obl', 'nextid', 'resume', 'inputs', 'notes', 'names',
                 'steps', 'ext', 'depth', 'expect_exit', 'procs', 'cur', 'eng', 'model', 'chl', 'trace', 'uninit_ok')
    def clone(s):
        n = State.__new__(State)
        n.mem = type(s.mem)(s.eng, n, s.mem); n.owned = set(); s.owned = set()
        n.stack = [(list(f[0]),)+f[1:] for f in s.stack]
        n.r = list(s.r); n.al = list(s.al)
        n.pc = list(s.pc); n.pcset = set(s.pcset); n.cmap = dict(s.cmap); n.obl = []
        n.nextid = s.nextid; n.resume = s.resume; n.inputs = list(s.inputs); n.notes = list(s.notes); n.names = dict(s.names)
        n.steps = s.steps; n.ext = {k: (v.clone() if hasattr(v, 'clone') else v.copy() if hasattr(v, 'copy') else v) for k, v in s.ext.items()}
        n.depth = s.depth; n.expect_exit = s.expect_exit; n.eng = s.eng; n.model = s.model; n.chl = list(s.chl); n.trace = s.trace
        n.procs = [p.clone() if p is not None else None for p in s.procs] if s.procs else None
        n.cur = s.cur; n.uninit_ok = s.uninit_ok
        return n
    # ---- objects
    def alloc(s, size, name, fill=None):
        i = s.nextid; s.nextid += 1
        s.mem[i] = Obj(size, name, fill); s.owned.add(i)
        return (i << 32) + BASE
    def wobj(s, i):
        if i in s.owned: return s.mem[i]
        o = s.mem[i].clone(); s.mem[i] = o; s.owned.add(i)
        return o
    def lookup(s, e):
        """concrete value of a symbolic integer fixed earlier on this path"""
        if e.k == 'b': return None
        return s.cmap.get(e.id)
    def conc_arg(s, v):
        if type(v) is int: return v
        if type(v) is bool: return int(v)
        c = s.cmap.get(v.id)
        if c is None: raise NeedConc(v)
        return c

def where(st, p, n):
    o = st.mem.get(p >> 32)
    if o is None: return 'address 0x%x (no object)' % p
    return '%s+%d (size %d%s) access %d' % (o.name, (p & 0xffffffff)-BASE, o.size, ', freed' if o.freed else '', n)

def chk_access(st, p, n, wr):
    o = st.mem.get(p >> 32)
    off = (p & 0xffffffff)-BASE
    if o is None or o.freed or off < 0 or off+n > o.size:
        raise MemFault(('write ' if wr else 'read ')+where(st, p, n))
    if wr and o.const: raise MemFault('write to constant '+where(st, p, n))
    return o, off

def read_raw(st, o, off, n):
    """n bytes (n<=16) at off as int/float/E integer value"""
    c = o.cells.get(off)
    if c is not None and c[0] == n: return c[1]
    # anything overlapping?
    parts = []   # (pos, len, value, vlen, voff)
    pos = off; end = off+n
    anyc = False
    while pos < end:
        c = None
        for b in range(0, 16):
            cc = o.cells.get(pos-b)
            if cc is not None:
                if cc[0] > b: c = (pos-b, cc)
                break
        if c is None:
            nx = pos+1
            while nx < end and nx not in o.cells: nx += 1
            parts.append((pos, nx-pos, None)); pos = nx
        else:
            anyc = True
            s0, (sz, v) = c
            e = min(end, s0+sz)
            w = X.asint(v, sz*8)
            lo = (pos-s0)*8; hi = lo+(e-pos)*8-1
            parts.append((pos, e-pos, X.extract(w, hi, lo))); pos = e
    res = None; rw = 0
    for (p0, ln, v) in parts:
        if v is None:
            if o.fill is not None: v = int.from_bytes(bytes([o.fill])*ln, 'little')
            else:
                if ln == n and not anyc: return None
                st.eng.nuninit += 1
                v = X.fresh('uninit_%s_%d' % (o.name, p0), 'i', ln*8)
        res = v if res is None else X.concat(v, res, ln*8, rw)
        rw += ln*8
    return res

def write_raw(o, off, n, v):
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[0] == n:
        cells[off] = (n, v); return
    # clear overlaps
    for b in range(1, 16):
        cc = cells.get(off-b)
        if cc is not None:
            if cc[0] > b:
                s0 = off-b; sz, val = cc
                w = X.asint(val, sz*8)
                del cells[s0]
                cells[s0] = (b, X.extract(w, b*8-1, 0))
                if s0+sz > off+n:
                    cells[off+n] = (s0+sz-off-n, X.extract(w, sz*8-1, (off+n-s0)*8))
            break
    for q in range(off, off+n):
        cc = cells.get(q)
        if cc is not None:
            sz, val = cc
            del cells[q]
            if q+sz > off+n:
                w = X.asint(val, sz*8)
                cells[off+n] = (q+sz-off-n, X.extract(w, sz*8-1, (off+n-q)*8))
    cells[off] = (n, v)

def ld_slow(st, p, n, kind):
    o, off = chk_access(st, p, n, False)
    v = read_raw(st, o, off+BASE, n)
    if v is None:
        st.eng.nuninit += 1
        v = X.fresh('uninit_%s_%d' % (o.name, off), 'f' if kind == 'f' else 'i', n*8)
        o = st.wobj(p >> 32)
        write_raw(o, off+BASE, n, v)
    return v
def ld_i(st, p, n):
    o = st.mem.get(p >> 32)
    if o is not None:
        c = o.cells.get(p & 0xffffffff)
        if c is not None and c[0] == n and not o.freed:
            v = c[1]
            if type(v) is int: return v
            return X.asint(v, n*8)
    return X.asint(ld_slow(st, p, n, 'i'), n*8)
def ld_f(st, p, n):
    o = st.mem.get(p >> 32)
    if o is not None:
        c = o.cells.get(p & 0xffffffff)
        if c is not None and c[0] == n and not o.freed:
            v = c[1]
            if type(v) is float: return v
            return X.asflt(v, n*8)
    return X.asflt(ld_slow(st, p, n, 'f'), n*8)
def st_(st, p, n, v):
    i = p >> 32
    o = st.mem.get(i)
    off = p & 0xffffffff
    if o is None or o.freed or off < BASE or off+n > BASE+o.size or o.const:
        chk_access(st, p, n, True)
    if i not in st.owned:
        o = o.clone(); st.mem[i] = o; st.owned.add(i)
    c = o.cells.get(off)
    if c is not None and c[0] == n: o.cells[off] = (n, v)
    else: write_raw(o, off, n, v)

def ld_ty(st, p, ty):
    k = ty[0]
    if k == 'i':
        n = (ty[1]+7)//8
        if n in (1, 2, 4, 8):
            v = ld_i(st, p, n)
            return v if ty[1] == n*8 else X.trunc(v, ty[1])
        lo = ld_i(st, p, 8)
        hi = ld_ty(st, p+8, ('i', ty[1]-64))
        return X.concat(hi, lo, ty[1]-64, 64)
    if k == 'f': return ld_f(st, p, ty[1]//8)
    if k == 'p': return ld_i(st, p, 8)
    if k == 'v':
        e = ty[2]; n = size(e)
        if e == IR.I1:
            v = ld_ty(st, p, ('i', (ty[1]+7)//8*8))
            return tuple(X.trunc(X.extract(v, i, i), 1) if type(v) is E else v >> i & 1 for i in range(ty[1]))
        return tuple(ld_ty(st, p+i*n, e) for i in range(ty[1]))
    if k == 'a':
        n = size(ty[2]); return tuple(ld_ty(st, p+i*n, ty[2]) for i in range(ty[1]))
    if k == 's':
        return tuple(ld_ty(st, p+o, t) for o, t in zip(layout(ty)[2], ty[1]))
    raise EngineError('load '+str(ty))
def st_ty(st, p, ty, v):
    k = ty[0]
    if k == 'i':
        w = ty[1]; n = (w+7)//8
        if n in (1, 2, 4, 8):
            if w != n*8: v = X.zext(v, n*8)
            elif type(v) is bool: v = int(v)
            st_(st, p, n, v)
        else:
            st_(st, p, 8, X.extract(v, 63, 0))
            st_ty(st, p+8, ('i', w-64), X.extract(v, w-1, 64))
    elif k == 'f': st_(st, p, ty[1]//8, v)
    elif k == 'p': st_(st, p, 8, v)
    elif k == 'v':
        e = ty[2]; n = size(e)
        if e == IR.I1: raise EngineError('store <n x i1>')
        for i in range(ty[1]): st_ty(st, p+i*n, e, v[i])
    elif k == 'a':
        n = size(ty[2])
        for i in range(ty[1]): st_ty(st, p+i*n, ty[2], v[i])
    elif k == 's':
        for o, t, x in zip(layout(ty)[2], ty[1], v): st_ty(st, p+o, t, x)
    else: raise EngineError('store '+str(ty))

def mem_copy(st, d, s, n):
    if n == 0: return
    so, soff = chk_access(st, s, n, False)
    do, doff = chk_access(st, d, n, True)
    soff += BASE; doff += BASE
    items = []
    if len(so.cells) <= 4*n:
        cand = [(k, c) for k, c in so.cells.items() if k < soff+n and k+c[0] > soff]
    else:
        cand = []
        for k in range(soff-15, soff+n):
            c = so.cells.get(k)
            if c is not None and k+c[0] > soff: cand.append((k, c))
    for k, (sz, v) in cand:
        a = max(k, soff); b = min(k+sz, soff+n)
        if a != k or b != k+sz: v = X.extract(X.asint(v, sz*8), (b-k)*8-1, (a-k)*8)
        items.append((a-soff, b-a, v))
    do = st.wobj(d >> 32)
    sfill = so.fill
    full = (doff == BASE and n == do.size)
    if full:
        do.cells.clear(); do.fill = sfill
    else:
        erase(do, doff, n)
        # holes
        items.sort(key=lambda t: t[0])
        if do.fill != sfill or sfill is None:
            pos = 0
            holes = []
            for a, ln, v in items:
                if a > pos: holes.append((pos, a))
                pos = max(pos, a+ln)
            if pos < n: holes.append((pos, n))
            for a, b in holes:
                if sfill is None:
                    if do.fill is None: continue
                    while a < b:
                        c = 4 if (b-a) >= 4 and a % 4 == 0 else 1
                        do.cells[doff+a] = (c, X.fresh('uninit_%s' % so.name, 'i', 8*c)); a += c
                else:
                    while a < b:
                        c = 8 if (b-a) >= 8 and a % 8 == 0 else 4 if (b-a) >= 4 and a % 4 == 0 else 1
                        do.cells[doff+a] = (c, int.from_bytes(bytes([sfill])*c, 'little')); a += c
    for a, ln, v in items: do.cells[doff+a] = (ln, v)
def erase(o, off, n):
    """remove all cells within [off,off+n), splitting boundary cells"""
    write_raw_range = []
    if n <= 4*len(o.cells):
        ks = [k for k in range(off-15, off+n) if k in o.cells]
    else: ks = [k for k in o.cells if off-16 < k < off+n]
    for k in ks:
        sz, v = o.cells[k]
        if k+sz <= off: continue
        del o.cells[k]
        if k < off: o.cells[k] = (off-k, X.extract(X.asint(v, sz*8), (off-k)*8-1, 0))
        if k+sz > off+n: o.cells[off+n] = (k+sz-off-n, X.extract(X.asint(v, sz*8), sz*8-1, (off+n-k)*8))
def mem_set(st, d, b, n):
    if n == 0: return
    o, off = chk_access(st, d, n, True)
    o = st.wobj(d >> 32)
    if type(b) is E:
        for i in range(n): st_(st, d+i, 1, b)
        return
    b &= 255
    if off == 0 and n == o.size:
        o.cells.clear(); o.fill = b; return
    erase(o, off+BASE, n)
    if o.fill == b: return
    a = off; e = off+n
    while a < e:
        c = 4 if a % 4 == 0 and e-a >= 4 else 1
        o.cells[BASE+a] = (c, int.from_bytes(bytes([b])*c, 'little')); a += c
def mem_bytes(st, p, n):
    return [ld_i(st, p+i, 1) for i in range(n)]
def cstr(st, p, maxn=4096):
    out = bytearray()
    while True:
        b = ld_i(st, p, 1)
        if type(b) is not int: b = st.conc_arg(b)
        if b == 0: return bytes(out)
        out.append(b); p += 1
        if len(out) > maxn: raise EngineError('cstr too long')
def put_bytes(st, p, bs):
    for i, b in enumerate(bs): st_(st, p+i, 1, b)

# ------------------------------------------------------------------ linker
class Func:
    __slots__ = ('name', 'mod', 'hdr', 'lines', 'parsed', 'nregs', 'params', 'blocks', 'order', 'segs', 'entry', 'addr', 'eng', 'vararg',
                 'ret', 'uses', 'defs', 'segkey', 'disp', 'ninstr')

class Linker:
    def __init__(s):
        s.mods = []; s.weak = {}; s.glob = {}; s.addrs = {}; s.funcs = {}; s.nexti = 16; s.init = {}; s.faddr = {}
        s.unresolved = set(); s.objs = {}
    def add(s, name, text):
        m = IR.Module(name, text, s); s.mods.append(m); return m
    def key(s, m, nm):
        return (m.name, nm) if nm in m.local else nm
    def link(s, overrides=()):
        # symbol table
        for m in s.mods:
            for nm in m.funcs:
                k = s.key(m, nm)
                if k in s.glob:
                    if s.weak[(m, nm)]: continue
                    if not s.glob[k][2]: 
                        raise EngineError('duplicate symbol %s in %s and %s' % (nm, m.name, s.glob[k][1].name))
                s.glob[k] = ('f', m, s.weak[(m, nm)])
            for nm, d in m.globals.items():
                k = s.key(m, nm)
                ext = re.match(r'^((?:external|extern_weak|available_externally)\b)', d)
                if ext: continue
                wk = bool(re.match(r'^(linkonce|weak|common|appending)', d))
                if k in s.glob and (wk or s.glob[k][0] == 'f'): continue
                if k in s.glob and not s.glob[k][2] and nm not in ('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used', '@llvm.global_dtors'):
                    raise EngineError('duplicate global %s in %s and %s' % (nm, m.name, s.glob[k][1].name))
                s.glob[k] = ('g', m, wk)
    def addr(s, m, nm):
        k = s.key(m, nm)
        a = s.addrs.get(k)
        if a is None:
            i = s.nexti; s.nexti += 1
            a = (i << 32)+BASE
            s.addrs[k] = a
            g = s.glob.get(k)
            if g is None:
                if nm in m.globals: s.objs[i] = ('ext', nm)
                else: s.objs[i] = ('fext', nm)
                s.faddr[a] = ('ext', nm)
            elif g[0] == 'f':
                s.faddr[a] = ('f', g[1], nm); s.objs[i] = ('func', nm)
            else: s.objs[i] = ('g', g[1], nm)
        return a
    def exported(s, nm):
        g = s.glob.get(nm)
        return s.addr(g[1], nm) if g else None
    def func(s, k, nm):
        f = s.funcs.get(k)
        if f is None:
            g = s.glob.get(k)
            if g is None or g[0] != 'f': return None
            m = g[1]
            f = Func(); f.name = nm; f.mod = m; f.hdr, f.lines = m.funcs[nm]; f.parsed = False; f.eng = s.eng
            f.segs = []; f.segkey = {}; f.disp = None; f.ninstr = 0
            s.funcs[k] = f
        return f

def parse_header(f):
    t = tokens(f.hdr[len('define'):].rstrip('{ ').rstrip())
    p = P(t, f.mod)
    # skip linkage words until a type
    skip = {'dso_local', 'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'available_externally', 'hidden', 'protected', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'dso_preemptable', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'external', 'coldcc'}
    while p.pv() in skip or p.pv() in IR.PATTRS or p.pv() in IR.PATTR_ARG:
        v = p.nv()
        if v in IR.PATTR_ARG:
            if p.pv() == '(': p.skip_paren()
            elif p.peek()[0] == 'num': p.nv()
    f.ret = p.type()
    p.nv()  # name
    p.exp('(')
    f.params = []; f.vararg = False
    n = 0
    while not p.acc(')'):
        if p.acc('...'): f.vararg = True; continue
        ty = p.type()
        byval = False
        j = p.i
        while p.t[p.i][1] not in (',', ')') and p.t[p.i][0] != 'id':
            if p.t[p.i][1] == 'byval': byval = True
            if p.pv() == '(' : p.skip_paren()
            else: p.i += 1
        if p.peek()[0] == 'id': nm = p.nv()
        else: nm = '%'+str(n)
        n += 1
        f.params.append((ty, nm, byval)); p.acc(',')

LBL = re.compile(r'^("(?:[^"])*"|[\w.$-]+):')
def parse_func(f):
    parse_header(f)
    regs = {}
    for i, (ty, nm, _) in enumerate(f.params): regs[nm] = i
    f.blocks = {}; f.order = []
    cur = None
    npar = len(f.params)
    lines = f.lines
    # explicit entry label is omitted when unnamed: it is the next number
    i = 0
    first = True
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l.strip(): continue
        if l[0] not in ' \t':
            m = LBL.match(l)
            if m:
                lab = m.group(1).strip('"')
                cur = []; f.blocks[lab] = cur; f.order.append(lab); first = False
                continue
            continue
        if first:
            cur = []; f.blocks['entry!'] = cur; f.order.append('entry!'); first = False
        l = l.strip()
        if l.startswith(';'): continue
        if l.startswith('switch') or ' switch ' in l[:10]:
            while ']' not in l: l += ' '+lines[i].strip(); i += 1
        if l.startswith('invoke') or re.match(r'^%\S+ = invoke', l):
            l += ' '+lines[i].strip(); i += 1
        cur.append(parse_instr(f, l, regs))
    # explicit name of entry block for phi references: unnamed entry => number = npar
    f.nregs = len(regs)
    # dataflow of registers
    f.defs = {}; uses = {}
    ename = f.order[0]
    for b in f.order:
        for k, ins in enumerate(f.blocks[b]):
            if ins['dst'] is not None: f.defs[ins['dst']] = (b, k)
            if ins['op'] == 'phi':
                for v, pb in ins['in']:
                    if v[0] == 'r': uses.setdefault(v[1], []).append((pb if pb in f.blocks else ename, 10**9))
            else:
                for v in ins['ops']:
                    if v[0] == 'r': uses.setdefault(v[1], []).append((b, k))
    f.uses = uses
    f.ninstr = sum(len(b) for b in f.blocks.values())
    f.parsed = True

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg', 'samesign', 'volatile', 'nusw'}
def parse_instr(f, l, regs):
    t = tokens(l)
    p = P(t, f.mod)
    def reg(nm):
        r = regs.get(nm)
        if r is None: r = len(regs); regs[nm] = r
        return r
    dst = None
    if len(t) > 1 and t[0][0] == 'id' and t[1][1] == '=':
        dst = reg(t[0][1]); p.i = 2
    def val(ty):
        v = p.value(ty)
        if v[0] == 'r': return ('r', reg(v[1]))
        return v
    def tval():
        ty = p.type(); p.attrs(); return ty, val(ty)
    ins = {'dst': dst, 'ops': [], 'txt': l}
    op = p.nv()
    if op in ('tail', 'musttail', 'notail'): op = p.nv()
    while p.pv() in FLAGS: p.nv()
    ins['op'] = op
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        ty = p.type(); a = val(ty); p.exp(','); b = val(ty)
        ins['ty'] = ty; ins['ops'] = [a, b]
    elif op == 'fneg' or op == 'freeze':
        ty = p.type(); ins['ty'] = ty; ins['ops'] = [val(ty)]
    elif op in ('icmp', 'fcmp'):
        while p.pv() in FLAGS: p.nv()
        ins['pred'] = p.nv(); ty = p.type(); a = val(ty); p.exp(','); b = val(ty)
        ins['ty'] = ty; ins['ops'] = [a, b]
    elif op == 'select':
        ct, c = tval(); p.exp(','); ty, a = tval(); p.exp(','); ty, b = tval()
        ins['ty'] = ty; ins['ct'] = ct; ins['ops'] = [c, a, b]
    elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
        while p.pv() in FLAGS: p.nv()
        ty = p.type(); a = val(ty); p.exp('to'); ins['from'] = ty; ins['ty'] = p.type(); ins['ops'] = [a]
    elif op == 'load':
        if p.pv() == 'atomic': p.nv(); ins['atomic'] = True
        while p.pv() in FLAGS: p.nv()
        ins['ty'] = p.type(); p.exp(','); pt = p.type(); ins['ops'] = [val(pt)]
    elif op == 'store':
        if p.pv() == 'atomic': p.nv()
        while p.pv() in FLAGS: p.nv()
        ty, v = tval(); p.exp(','); pt, q = tval(); ins['ty'] = ty; ins['ops'] = [v, q]
    elif op == 'getelementptr':
        while p.pv() in FLAGS: p.nv()
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            ty, v = tval(); ops.append((ty, v))
            if not p.acc(','): break
            if p.pv() and p.pv().startswith('!'): break
        ins['bt'] = bt; ins['idx'] = ops[1:]; ins['base'] = ops[0]; ins['ops'] = [v for _, v in ops]
    elif op == 'alloca':
        if p.pv() == 'inalloca': p.nv()
        ty = p.type(); ins['ty'] = ty; ins['n'] = None
        if p.acc(','):
            if p.pv() != 'align':
                nt, n = tval(); ins['ops'] = [n]; ins['n'] = n
    elif op == 'phi':
        while p.pv() in FLAGS: p.nv()
        ty = p.type(); ins['ty'] = ty; ins['in'] = []
        while True:
            p.exp('['); v = val(ty); p.exp(','); b = p.nv()[1:].strip('"'); p.exp(']')
            ins['in'].append((v, b))
            if not p.acc(','): break
            if p.pv() and p.pv().startswith('!'): break
    elif op == 'br':
        if p.pv() == 'label':
            p.nv(); ins['op'] = 'jmp'; ins['to'] = p.nv()[1:].strip('"')
        else:
            ty, c = tval(); ins['ops'] = [c]; p.exp(','); p.exp('label'); a = p.nv()[1:].strip('"'); p.exp(','); p.exp('label'); b = p.nv()[1:].strip('"')
            ins['to'] = (a, b)
    elif op == 'switch':
        ty, c = tval(); ins['ops'] = [c]; ins['ty'] = ty; p.exp(','); p.exp('label'); ins['def'] = p.nv()[1:].strip('"'); p.exp('[')
        ins['cases'] = []
        while not p.acc(']'):
            t2 = p.type(); v = p.value(t2)[1]; p.exp(','); p.exp('label'); ins['cases'].append((v, p.nv()[1:].strip('"')))
    elif op == 'ret':
        ty = p.type(); ins['ty'] = ty
        if ty != IR.VOID: ins['ops'] = [val(ty)]
    elif op == 'unreachable': pass
    elif op in ('call', 'invoke'):
        skip = {'fastcc', 'ccc', 'coldcc'} | FLAGS
        while True:
            v = p.pv()
            if v in skip or v in IR.PATTRS: p.nv()
            elif v in IR.PATTR_ARG:
                p.nv()
                if p.pv() == '(': p.skip_paren()
                elif p.peek()[0] == 'num': p.nv()
            else: break
        ty = p.type()
        if ty[0] == 'fn': ty = ty[1]
        ins['ty'] = ty
        if p.pv() == 'asm':
            ins['asm'] = True
            while p.pv() != '(' : p.nv()
            ins['callee'] = None; cal = ('asm',)
        else:
            k, v = p.next()
            if k == 'id' and v[0] == '@': cal = ('g', v)
            elif k == 'id': cal = ('r', reg(v))
            elif k == 'w': 
                cal = ('c', p.cexpr(v, IR.PTR))
            else: cal = ('c', 0)
        p.exp('(')
        args = []; tys = []; byv = []
        while not p.acc(')'):
            ty = p.type()
            bv = None
            while True:
                v = p.pv()
                if v == 'byval': p.nv(); p.exp('('); bv = p.type(); p.exp(')')
                elif v in IR.PATTRS or v in IR.PATTR_ARG: p.attrs() if v != 'byval' else None
                else: break
            if ty == ('md',):
                while p.pv() not in (',', ')'): p.nv()
                args.append(('c', 0)); tys.append(ty); byv.append(None)
            else: args.append(val(ty)); tys.append(ty); byv.append(bv)
            p.acc(',')
        ins['callee'] = cal; ins['args'] = args; ins['atys'] = tys; ins['byv'] = byv
        ins['ops'] = list(args)+([cal] if cal[0] == 'r' else [])
        if op == 'invoke':
            while p.pv() != 'to': p.nv()
            p.nv(); p.exp('label'); ins['norm'] = p.nv()[1:].strip('"')
        ins['op'] = 'call' if op == 'call' else 'invoke'
    elif op == 'extractvalue':
        ty, v = tval(); ins['ty'] = ty; ins['ops'] = [v]; ins['ix'] = []
        while p.acc(','):
            if p.peek()[0] != 'num': break
            ins['ix'].append(int(p.nv()))
    elif op == 'insertvalue':
        ty, v = tval(); p.exp(','); t2, x = tval(); ins['ty'] = ty; ins['ops'] = [v, x]; ins['ix'] = []
        while p.acc(','):
            if p.peek()[0] != 'num': break
            ins['ix'].append(int(p.nv()))
    elif op == 'extractelement':
        ty, v = tval(); p.exp(','); t2, x = tval(); ins['ty'] = ty; ins['ops'] = [v, x]
    elif op == 'insertelement':
        ty, v = tval(); p.exp(','); t2, x = tval(); p.exp(','); t3, i = tval(); ins['ty'] = ty; ins['ops'] = [v, x, i]
    elif op == 'shufflevector':
        ty, a = tval(); p.exp(','); t2, b = tval(); p.exp(','); t3, m = tval(); ins['ty'] = ty; ins['mt'] = t3; ins['ops'] = [a, b]; ins['mask'] = m[1]
    elif op in ('atomicrmw', 'cmpxchg', 'fence'):
        if op == 'fence': pass
        elif op == 'atomicrmw':
            while p.pv() in FLAGS: p.nv()
            ins['aop'] = p.nv(); pt, q = tval(); p.exp(','); ty, v = tval(); ins['ty'] = ty; ins['ops'] = [q, v]
        else:
            while p.pv() in FLAGS or p.pv() == 'weak': p.nv()
            pt, q = tval(); p.exp(','); ty, a = tval(); p.exp(','); ty, b = tval(); ins['ty'] = ty; ins['ops'] = [q, a, b]
    elif op in ('landingpad', 'resume', 'va_arg'): pass
    else: raise EngineError('instr '+l)
    return ins

# ------------------------------------------------------------------ codegen
def lit(v):
    if type(v) is float:
        if v != v: return 'NAN'
        if v in (math.inf, -math.inf): return 'INF' if v > 0 else '(-INF)'
        return '(%r)' % v if v < 0 or math.copysign(1, v) < 0 else repr(v)
    if type(v) is tuple:
        if len(v) == 2 and v[0] == 'bytes': return repr(tuple(v[1]))
        return '('+', '.join(lit(x) for x in v)+(',)' if len(v) == 1 else ')')
    return repr(v)

def vmap(n, fmt, *vs):
    """elementwise application; fmt uses names a,b,c"""
    names = 'abc'[:len(vs)]
    if len(vs) == 1: return '[%s for a in %s]' % (fmt, vs[0])
    return '[%s for %s in zip(%s)]' % (fmt, ','.join(names), ','.join(vs))

def bin_expr(op, ty, a, b, bc=None):
    """python source for scalar binary op"""
    if ty[0] == 'f':
        w = ty[1]
        if op == 'fdiv': return 'fdiv_(%s,%s,%d)' % (a, b, w)
        if op == 'frem': return 'X.frem(%s,%s,%d)' % (a, b, w)
        o = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
        return 'r32_(%s%s%s)' % (a, o, b) if w == 32 else '(%s%s%s)' % (a, o, b)
    w = ty[1]; m = (1 << w)-1
    if op in ('add', 'sub', 'mul'):
        o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
        return '((%s%s%s)&%d)' % (a, o, b, m)
    if op in ('and', 'or', 'xor'):
        return '(%s%s%s)' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        return 'idiv_(X.%s,%s,%s,%d)' % (op, a, b, w)
    return 'X.%s(%s,%s,%d)' % (op, a, b, w)

def icmp_expr(pred, ty, a, b):
    w = 64 if ty[0] == 'p' else ty[1]
    if pred == 'eq': return '(%s==%s)' % (a, b)
    if pred == 'ne': return '(%s!=%s)' % (a, b)
    if pred == 'ult': return '(%s<%s)' % (a, b)
    if pred == 'ugt': return '(%s>%s)' % (a, b)
    if pred == 'ule': return '(%s<=%s)' % (a, b)
    if pred == 'uge': return '(%s>=%s)' % (a, b)
    if pred == 'slt': return 'slt_(%s,%s,%d)' % (a, b, w)
    if pred == 'sgt': return 'slt_(%s,%s,%d)' % (b, a, w)
    if pred == 'sle': return 'not_(slt_(%s,%s,%d))' % (b, a, w)
    if pred == 'sge': return 'not_(slt_(%s,%s,%d))' % (a, b, w)
    raise EngineError(pred)

def r32_(x):
    if type(x) is float: return X.r32(x)
    return x
def not_(x):
    if type(x) is E: return X.not_(x)
    return not x
def slt_(a, b, w):
    if type(a) is int and type(b) is int:
        h = 1 << (w-1)
        return (a ^ h) < (b ^ h)
    return X.slt(a if type(a) is E else int(a), b if type(b) is E else int(b), w)
def fdiv_(a, b, w):
    return X.fdiv(a, b, w)
def idiv_(f, a, b, w):
    if type(b) is not E and b == 0: raise MemFault('integer division by zero')
    return f(a, b, w)
def sel_(c, a, b, k, w):
    if type(c) is E: return X.ite_k(c, a, b, k, w)
    return a if c else b
def fcmp_(p, a, b): return X.fcmp(p, a, b)

def kindof(ty):
    if ty[0] == 'f': return 'f', ty[1]
    if ty[0] == 'p': return 'i', 64
    if ty[0] == 'i': return ('b', 1) if ty[1] == 1 else ('i', ty[1])
    return None, None

def bitcast_(v, t1, t2):
    if t1 == t2: return v
    if t1[0] == 'v' or t2[0] == 'v':
        # through one big integer
        def flat(v, t):
            if t[0] == 'v': return [(X.asint(x, size_bits(t[2])), size_bits(t[2])) for x in v]
            return [(X.asint(v, size_bits(t)), size_bits(t))]
        parts = flat(v, t1)
        if t2[0] == 'v':
            w2 = size_bits(t2[2]); w1 = parts[0][1]; out = []
            if w1 == w2: out = [p[0] for p in parts]
            elif w1 > w2:
                for x, w in parts:
                    for i in range(w1//w2): out.append(X.extract(x, i*w2+w2-1, i*w2))
            else:
                k = w2//w1
                for i in range(0, len(parts), k):
                    r = parts[i][0]; rw = w1
                    for j in range(1, k): r = X.concat(parts[i+j][0], r, w1, rw); rw += w1
                    out.append(r)
            if t2[2][0] == 'f': out = [X.asflt(x, w2) for x in out]
            if t2[2] == IR.I1: out = [X.trunc(x, 1) for x in out]
            return tuple(out)
        r, rw = parts[0]
        for x, w in parts[1:]: r = X.concat(x, r, w, rw); rw += w
        return X.asflt(r, rw) if t2[0] == 'f' else r
    if t1[0] == 'f' and t2[0] == 'i': return X.asint(v, t2[1])
    if t1[0] == 'i' and t2[0] == 'f': return X.asflt(v, t2[1])
    return v
def size_bits(t):
    if t[0] == 'p': return 64
    if t[0] == 'v': return t[1]*size_bits(t[2])
    return t[1]

def setix(t, ix, v):
    t = list(t)
    if len(ix) == 1: t[ix[0]] = v
    else: t[ix[0]] = setix(t[ix[0]], ix[1:], v)
    return tuple(t)

def keep_(st, loc, v, seg):
    r = st.r
    for n, x in loc.items():
        if n[0] == 'v' and n[1:].isdigit(): r[int(n[1:])] = x
    return st.eng.conc(st, v, seg)
def dec_(st, c):
    c = X.tobool(c)
    if type(c) is not E: return c
    r = X.DEC[0](c) if X.DEC[0] else st.eng.known(st, c)
    return c if r is None else r
def kbr_(st, loc, v, seg):
    r = st.r
    for n, x in loc.items():
        if n[0] == 'v' and n[1:].isdigit(): r[int(n[1:])] = x
    return st.eng.branch(st, v, seg, seg, True)
class Gen:
    """generates one segment of a function as Python source"""
    def __init__(g, eng, f): g.eng = eng; g.f = f
    def seg(g, b, k):
        key = (b, k)
        i = g.f.segkey.get(key)
        if i is None:
            i = len(g.f.segs); g.f.segkey[key] = i
            def stub(st, i=i, b=b, k=k):
                fn = g.compile(b, k); g.f.segs[i] = fn
                return fn
            g.f.segs.append(stub)
        return i
    def edge(g, pb, sb):
        key = ('edge', pb, sb)
        i = g.f.segkey.get(key)
        if i is None:
            i = len(g.f.segs); g.f.segkey[key] = i
            def stub(st, i=i):
                fn = g.compile_edge(pb, sb); g.f.segs[i] = fn
                return fn
            g.f.segs.append(stub)
        return i
    def phis(g, pb, sb):
        out = []
        n = 0
        for ins in g.f.blocks[sb]:
            if ins['op'] != 'phi': break
            n += 1
            for v, b in ins['in']:
                if b == pb or (b not in g.f.blocks and pb == g.f.order[0]):
                    out.append((ins['dst'], v)); break
            else: raise EngineError('phi edge')
        return out, n
    def compile_edge(g, pb, sb):
        ph, n = g.phis(pb, sb)
        src = ['def seg(st):', ' r=st.r']
        if ph:
            src.append(' '+', '.join('r[%d]' % d for d, _ in ph)+' = '+', '.join('r[%d]' % v[1] if v[0] == 'r' else lit(v[1]) for _, v in ph))
        src.append(' return F[%d]' % g.seg(sb, n))
        return g.build(src, '%s:edge %s->%s' % (g.f.name, pb, sb))
    def build(g, src, name):
        ns = dict(g.eng.ns); ns['F'] = g.f.segs
        ns.update(g.eng.extra_ns)
        try: code = compile('\n'.join(src), name, 'exec')
        except SyntaxError:
            print('\n'.join(src)); raise
        exec(code, ns)
        fn = ns['seg']
        g.eng.segs_compiled += 1
        return fn
    def compile(g, b, k0):
        f = g.f; blk = f.blocks[b]
        src = ['def seg(st):', ' r=st.r']
        local = {}       # reg -> defined as v<reg> in this segment
        stored = set()
        def ref(v):
            if v[0] == 'c': return lit(v[1])
            n = v[1]
            if n not in local:
                src.append(' v%d=r[%d]' % (n, n)); local[n] = True; stored.add(n)
            return 'v%d' % n
        def needs_store(reg, k):
            for (ub, uk) in f.uses.get(reg, ()):
                if ub != b: return True
                if uk == 10**9: 
                    continue
                # a call between k and uk?
                for j in range(k+1, min(uk, len(blk))):
                    if blk[j]['op'] in ('call', 'invoke') and not g.inline_call(blk[j]): return True
            return False
        def setv(reg, e, k):
            local[reg] = True
            # a phi use by own successor edges needs store if block ends in symbolic branch (saved by save()) -- edges use locals
            if needs_store(reg, k) or (any(uk == 10**9 for (ub, uk) in f.uses.get(reg, ())) and any(blk[j]['op'] in ('call', 'invoke') and not g.inline_call(blk[j]) for j in range(k+1, len(blk)))):
                src.append(' r[%d]=v%d=%s' % (reg, reg, e)); stored.add(reg)
            else: src.append(' v%d=%s' % (reg, e))
        def save(ind):
            s = [x for x in local if x not in stored]
            if s: src.append(ind+';'.join('r[%d]=v%d' % (x, x) for x in s))
        def conc(v, k):
            """make sure value is a concrete int at run time"""
            if v[0] == 'c': return lit(v[1])
            n = ref(v)
            src.append(' if type(%s) is not int:' % n)
            src.append('  c=conc_lookup(st,%s)' % n)
            src.append('  if c is None: return keep_(st,locals(),%s,F[%d])' % (n, g.seg(b, k)))
            src.append('  %s=c' % n)
            return n
        def goto(sb, ind=' '):
            ph, n = g.phis(b, sb)
            if ph:
                rhs = [ref_noload(v) for _, v in ph]
                src.append(ind+', '.join('r[%d]' % d for d, _ in ph)+' = '+', '.join(rhs))
            src.append(ind+'return F[%d]' % g.seg(sb, n))
        def ref_noload(v):
            if v[0] == 'c': return lit(v[1])
            return 'v%d' % v[1] if v[1] in local else 'r[%d]' % v[1]
        k = k0
        while True:
            if k-k0 >= 400 and len(blk)-k > 100:
                save(' '); src.append(' return F[%d]' % g.seg(b, k)); break
            ins = blk[k]; op = ins['op']; d = ins['dst']
            if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                a = ref(ins['ops'][0]); c = ref(ins['ops'][1]); ty = ins['ty']
                if ty[0] == 'v': setv(d, 'tuple(%s)' % vmap(ty[1], bin_expr(op, ty[2], 'a', 'b'), a, c), k)
                else: setv(d, bin_expr(op, ty, a, c), k)
            elif op == 'fneg':
                a = ref(ins['ops'][0])
                setv(d, 'tuple([-a for a in %s])' % a if ins['ty'][0] == 'v' else '-'+a, k)
            elif op == 'freeze': setv(d, ref(ins['ops'][0]), k)
            elif op == 'icmp':
                a = ref(ins['ops'][0]); c = ref(ins['ops'][1]); ty = ins['ty']
                if ty[0] == 'v': setv(d, 'tuple(%s)' % vmap(0, icmp_expr(ins['pred'], ty[2], 'a', 'b'), a, c), k)
                else: setv(d, icmp_expr(ins['pred'], ty, a, c), k)
            elif op == 'fcmp':
                a = ref(ins['ops'][0]); c = ref(ins['ops'][1]); ty = ins['ty']
                if ty[0] == 'v': setv(d, 'tuple([X.fcmp(%r,a,b) for a,b in zip(%s,%s)])' % (ins['pred'], a, c), k)
                else: setv(d, 'X.fcmp(%r,%s,%s)' % (ins['pred'], a, c), k)
            elif op == 'select':
                c = ref(ins['ops'][0]); a = ref(ins['ops'][1]); e = ref(ins['ops'][2]); ty = ins['ty']
                if g.eng.forksel and ins['ops'][0][0] != 'c':
                    if ins['ct'][0] != 'v':
                        src.append(' if type(%s) is E:' % c)
                        src.append('  %s=dec_(st,%s)' % (c, c))
                        src.append('  if type(%s) is E: return kbr_(st,locals(),%s,F[%d])' % (c, c, g.seg(b, k)))
                    else:
                        src.append(' %s=tuple([dec_(st,x) if type(x) is E else x for x in %s])' % (c, c))
                        src.append(' for x in %s:' % c)
                        src.append('  if type(x) is E: return kbr_(st,locals(),x,F[%d])' % g.seg(b, k))
                if ty[0] == 'v':
                    kk = kindof(ty[2])
                    if ins['ct'][0] == 'v': setv(d, 'tuple([sel_(a,b,c,%r,%d) for a,b,c in zip(%s,%s,%s)])' % (kk[0], kk[1], c, a, e), k)
                    else: setv(d, 'tuple([sel_(%s,b,c,%r,%d) for b,c in zip(%s,%s)])' % (c, kk[0], kk[1], a, e), k)
                else:
                    kk = kindof(ty)
                    if kk[0] is None: raise EngineError('select aggregate')
                    setv(d, 'sel_(%s,%s,%s,%r,%d)' % (c, a, e, kk[0], kk[1]), k)
            elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                a = ref(ins['ops'][0]); t1 = ins['from']; t2 = ins['ty']
                if op in ('ptrtoint', 'inttoptr', 'addrspacecast') and t1[0] != 'v':
                    if op == 'ptrtoint' and t2[1] < 64: setv(d, 'X.trunc(%s,%d)' % (a, t2[1]), k)
                    else: setv(d, a, k)
                elif op == 'bitcast': setv(d, 'bitcast_(%s,%r,%r)' % (a, t1, t2), k)
                else:
                    e1 = t1[2] if t1[0] == 'v' else t1; e2 = t2[2] if t2[0] == 'v' else t2
                    x = 'a' if t1[0] == 'v' else a
                    ex = {'trunc': 'X.trunc(%s,%d)' % (x, e2[1]), 'zext': 'X.zext(%s,%d)' % (x, e2[1]), 'sext': 'X.sext(%s,%d,%d)' % (x, e1[1], e2[1]),
                          'fptrunc': 'X.fptrunc(%s)' % x, 'fpext': 'X.fpext(%s)' % x, 'fptoui': 'X.fptoui(%s,%d,%d)' % (x, e1[1], e2[1]),
                          'fptosi': 'X.fptosi(%s,%d,%d)' % (x, e1[1], e2[1]), 'uitofp': 'X.uitofp(%s,%d,%d)' % (x, e1[1], e2[1]),
                          'sitofp': 'X.sitofp(%s,%d,%d)' % (x, e1[1], e2[1])}[op]
                    if op in ('fptosi', 'fptoui') and t1[0] != 'v' and X.MODE == 'R' :
                        setv(d, ex, k)
                    elif t1[0] == 'v': setv(d, 'tuple([%s for a in %s])' % (ex, a), k)
                    else: setv(d, ex, k)
            elif op == 'load':
                p = conc(ins['ops'][0], k); ty = ins['ty']
                if ty[0] == 'f': setv(d, 'ld_f(st,%s,%d)' % (p, ty[1]//8), k)
                elif ty[0] == 'p': setv(d, 'ld_i(st,%s,8)' % p, k)
                elif ty[0] == 'i' and ty[1] in (8, 16, 32, 64): setv(d, 'ld_i(st,%s,%d)' % (p, ty[1]//8), k)
                else: setv(d, 'ld_ty(st,%s,%r)' % (p, ty), k)
            elif op == 'store':
                v = ref(ins['ops'][0]); p = conc(ins['ops'][1], k); ty = ins['ty']
                if ty[0] == 'f' or ty[0] == 'p' or (ty[0] == 'i' and ty[1] in (8, 16, 32, 64)): src.append(' st_(st,%s,%d,%s)' % (p, size(ty), v))
                else: src.append(' st_ty(st,%s,%r,%s)' % (p, ty, v))
            elif op == 'getelementptr':
                if ins['base'][0][0] == 'v' or any(t[0] == 'v' for t, _ in ins['idx']): raise EngineError('vector gep')
                base = ref(ins['base'][1])
                off, var = gep_steps(ins['bt'], ins['idx'])
                e = base
                for ov, ot, sc in var:
                    x = ref(ov)
                    if ot[1] < 64: x = 'X.sext(%s,%d,64)' % (x, ot[1])
                    e += '+%s*%d' % (x, sc) if sc != 1 else '+'+x
                if off: e += '+%d' % (off & M64) if off < 0 else '+%d' % off
                setv(d, '(%s)&%d' % (e, M64) if (var or off) else base, k)
            elif op == 'alloca':
                n = 1
                if ins['n'] is not None:
                    n = conc(ins['n'], k)
                setv(d, 'alloca_(st,%d*%s,%r)' % (size(ins['ty']), n, f.name.strip('@')[:40]+'.stack'), k)
            elif op == 'extractvalue':
                setv(d, ref(ins['ops'][0])+''.join('[%d]' % i for i in ins['ix']), k)
            elif op == 'insertvalue':
                setv(d, 'setix(%s,%r,%s)' % (ref(ins['ops'][0]), ins['ix'], ref(ins['ops'][1])), k)
            elif op == 'extractelement':
                v = ref(ins['ops'][0]); i = conc(ins['ops'][1], k); setv(d, '%s[%s]' % (v, i), k)
            elif op == 'insertelement':
                v = ref(ins['ops'][0]); x = ref(ins['ops'][1]); i = conc(ins['ops'][2], k); setv(d, 'setix(%s,[%s],%s)' % (v, i, x), k)
            elif op == 'shufflevector':
                a = ref(ins['ops'][0]); c = ref(ins['ops'][1]); n = ins['ty'][1]
                z = lit(zero(ins['ty'][2]))
                mt = ins['mt']
                msk = ins['mask']
                els = []
                for m in msk:
                    els.append('%s[%d]' % (a, m) if m < n else '%s[%d]' % (c, m-n) if m < 2*n else z)
                setv(d, '('+','.join(els)+',)', k)
            elif op == 'jmp':
                goto(ins['to']); break
            elif op == 'br':
                c = ref(ins['ops'][0]); t, e = ins['to']
                if t == e: goto(t); break
                src.append(' if type(%s) is E:' % c)
                save('  ')
                src.append('  return st.eng.branch(st,%s,F[%d],F[%d])' % (c, g.edge(b, t), g.edge(b, e)))
                src.append(' if %s:' % c)
                goto(t, '  '); goto(e); break
            elif op == 'switch':
                c = ref(ins['ops'][0])
                src.append(' if type(%s) is E:' % c)
                save('  ')
                src.append('  return st.eng.switch(st,%s,[%s],F[%d])' % (c, ','.join('(%d,F[%d])' % (v, g.edge(b, t)) for v, t in ins['cases']), g.edge(b, ins['def'])))
                save(' ')
                src.append(' return F[{%s}.get(int(%s),%d)]' % (','.join('%d:%d' % (v, g.edge(b, t)) for v, t in ins['cases']), c, g.edge(b, ins['def'])))
                break
            elif op == 'ret':
                v = ref(ins['ops'][0]) if ins['ops'] else 'None'
                src.append(' return ret_(st,%s)' % v); break
            elif op == 'unreachable':
                src.append(' raise PathEnd("unreachable",%r)' % (f.name+':'+b)); break
            elif op in ('call', 'invoke'):
                il = g.inline_call(ins)
                if il:
                    ex = g.emit_inline(il, ins, ref, conc, k, src)
                    if ex is not None and d is not None: setv(d, ex, k)
                    if op == 'invoke': goto(ins['norm']); break
                else:
                    args = [ref(a) for a in ins['args']]
                    if op == 'invoke':
                        # returning goes through the edge to the normal destination
                        nxt = g.edge(b, ins['norm'])
                    else: nxt = g.seg(b, k+1)
                    cal = ins['callee']
                    byv = [(i, size(t)) for i, t in enumerate(ins['byv']) if t is not None]
                    for i, sz in byv:
                        pass
                    # live locals that are used after must be in r
                    save(' ')
                    al = '['+','.join(args)+']'
                    if cal[0] == 'g':
                        key = g.eng.L.key(f.mod, cal[1])
                        src.append(' return st.eng.call(st,%r,%s,F[%d],%r,F[%d],%r,%r)' % (key, al, nxt, d, g.seg(b, k), byv, ins['ty']))
                    elif cal[0] == 'asm':
                        src.append(' return F[%d]' % nxt)
                    else:
                        p = conc(cal, k)
                        src.append(' return st.eng.call_ptr(st,%s,%s,F[%d],%r,F[%d],%r,%r)' % (p, al, nxt, d, g.seg(b, k), byv, ins['ty']))
                    break
            elif op == 'phi': raise EngineError('phi in segment')
            elif op == 'atomicrmw':
                p = conc(ins['ops'][0], k); v = ref(ins['ops'][1]); ty = ins['ty']
                setv(d, 'ld_ty(st,%s,%r)' % (p, ty), k)
                o = ins['aop']
                new = v if o == 'xchg' else bin_expr(o, ty, 'v%d' % d, v)
                src.append(' st_ty(st,%s,%r,%s)' % (p, ty, new))
            elif op == 'fence': pass
            else: raise EngineError('codegen '+op+' '+ins['txt'])
            k += 1
        return g.build(src, '%s:%s:%d' % (f.name, b, k0))
    def inline_call(g, ins):
        cal = ins['callee']
        if cal[0] != 'g': return None
        nm = cal[1][1:]
        if nm.startswith('llvm.'):
            best = None
            for p in INLINE:
                if nm.startswith(p) and (best is None or len(p) > len(best)): best = p
            return best
        return None
    def emit_inline(g, il, ins, ref, conc, k, src):
        ty = ins['ty']
        if il in ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_end', 'llvm.donothing', 'llvm.prefetch', 'llvm.x86.sse.sfence', 'llvm.invariant'): return None
        args = [ref(a) for a in ins['args']]
        fn = 'I_'+re.sub(r'\W', '_', il)
        e = ty[2] if ty[0] == 'v' else ty
        if e[0] == 's': e = e[1][0]
        w = e[1] if len(e) > 1 else 64
        if ty[0] == 'v' and not il.startswith('llvm.x86') and not il.startswith('llvm.vector'):
            nm = ['a', 'b', 'c'][:len(args)]
            # scalar (immediate) trailing args broadcast
            vargs = [a for a, t in zip(args, ins['atys']) if t[0] == 'v']
            nm = ['a', 'b', 'c'][:len(vargs)]
            return 'tuple([%s(st,%d,%s) for %s in zip(%s)])' % (fn, w, ','.join(nm), ','.join(nm)+',', ','.join(vargs))
        return '%s(st,%d,%s)' % (fn, w, ','.join(args))

INLINE = {}
def intrin(*names):
    def deco(fn):
        for n in names: INLINE[n] = fn
        return fn
    return deco
for _n in ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_end', 'llvm.donothing', 'llvm.prefetch', 'llvm.x86.sse.sfence', 'llvm.invariant'): INLINE[_n] = None
def _isym(*a): return any(type(x) is E for x in a)
@intrin('llvm.smax')
def _(st, w, a, b): return sel_(slt_(a, b, w), b, a, 'i', w)
@intrin('llvm.smin')
def _(st, w, a, b): return sel_(slt_(a, b, w), a, b, 'i', w)
@intrin('llvm.umax')
def _(st, w, a, b): return sel_(a < b, b, a, 'i', w)
@intrin('llvm.umin')
def _(st, w, a, b): return sel_(a < b, a, b, 'i', w)
@intrin('llvm.abs')
def _(st, w, a, z=0): return sel_(slt_(a, 0, w), X.sub(0, a, w) if type(a) is E else (-a) & ((1 << w)-1), a, 'i', w)
@intrin('llvm.fabs')
def _(st, w, a): return X.fabs(a, w)
@intrin('llvm.sqrt')
def _(st, w, a): return X.fsqrt(a, w)
@intrin('llvm.floor')
def _(st, w, a): return X.ffn('floor', (a,), w) if type(a) is E else float(math.floor(a))
@intrin('llvm.ceil')
def _(st, w, a): return X.ffn('ceil', (a,), w) if type(a) is E else float(math.ceil(a))
@intrin('llvm.rint', 'llvm.nearbyint')
def _(st, w, a): return X.ffn('rint', (a,), w) if type(a) is E else float(round(a))
@intrin('llvm.trunc')
def _(st, w, a): return X.ffn('trunc', (a,), w) if type(a) is E else float(math.trunc(a))
@intrin('llvm.exp2')
def _(st, w, a): return X.ffn('exp2', (a,), w)
@intrin('llvm.exp')
def _(st, w, a): return X.ffn('exp', (a,), w)
@intrin('llvm.log')
def _(st, w, a): return X.ffn('log', (a,), w)
@intrin('llvm.pow')
def _(st, w, a, b): return X.ffn('pow', (a, b), w)
@intrin('llvm.sin')
def _(st, w, a): return X.ffn('sin', (a,), w)
@intrin('llvm.cos')
def _(st, w, a): return X.ffn('cos', (a,), w)
@intrin('llvm.copysign')
def _(st, w, a, b):
    if not _isym(a, b): return math.copysign(a, b)
    if X.MODE == 'F': return X.tofloat(X.or_(X.and_(X.bits(a, w), (1 << w-1)-1), X.and_(X.bits(b, w), 1 << w-1)), w)
    m = X.fabs(a, w)
    if type(b) is not E: return m if math.copysign(1, b) > 0 else -m
    return X.ite_k(X.flt(b, 0.0), -m, m, 'f', w)
@intrin('llvm.fmuladd', 'llvm.fma')
def _(st, w, a, b, c):
    x = a*b
    x = x+c
    return r32_(x) if w == 32 else x
@intrin('llvm.minnum')
def _(st, w, a, b): return sel_(X.flt(a, b), a, b, 'f', w)
@intrin('llvm.maxnum')
def _(st, w, a, b): return sel_(X.flt(b, a), a, b, 'f', w)
@intrin('llvm.ctpop')
def _(st, w, a): return X.ctpop(a, w)
@intrin('llvm.bswap')
def _(st, w, a): return X.bswap(a, w)
@intrin('llvm.ctlz')
def _(st, w, a, z=0):
    if type(a) is int: return w-a.bit_length()
    raise NeedConc(a)
@intrin('llvm.cttz')
def _(st, w, a, z=0):
    if type(a) is int: return (a & -a).bit_length()-1 if a else w
    r = w
    for i in reversed(range(w)): r = X.ite_k(X.not_(X.eq(X.extract(a, i, i), 0)), i, r, 'i', w)
    return r
@intrin('llvm.fshl')
def _(st, w, a, b, s):
    if type(s) is E: raise NeedConc(s)
    s %= w
    if s == 0: return a
    return X.concat(X.extract(a, w-1-s, 0), X.extract(b, w-1, w-s), w-s, s)
@intrin('llvm.fshr')
def _(st, w, a, b, s):
    if type(s) is E: raise NeedConc(s)
    s %= w
    if s == 0: return b
    return X.concat(X.extract(a, s-1, 0), X.extract(b, w-1, s), s, w-s)
def _ovf(st, w, a, b, sg, op):
    ww = 2*w
    ex = (lambda v: X.sext(v, w, ww)) if sg else (lambda v: X.zext(v, ww))
    A, B = ex(a), ex(b)
    if op == '+': r = (A+B) & ((1 << ww)-1)
    elif op == '-': r = (A-B) & ((1 << ww)-1)
    else: r = (A*B) & ((1 << ww)-1)
    lo = X.trunc(r, w)
    return (lo, not_(ex(lo) == r))
for _sg in ('s', 'u'):
    for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*')):
        INLINE['llvm.%s%s.with.overflow' % (_sg, _n)] = (lambda sg, o: lambda st, w, a, b: _ovf(st, w, a, b, sg == 's', o))(_sg, _o)
for _sg in ('s', 'u'):
    def _sat(sg, o):
        def f(st, w, a, b):
            if type(a) is E or type(b) is E:
                r, ov = _ovf(st, w, a, b, sg == 's', o)
                if sg == 'u': return X.ite_k(ov, (1 << w)-1 if o == '+' else 0, r, 'i', w)
                neg = X.slt(a, 0, w)
                return X.ite_k(ov, X.ite_k(neg, 1 << (w-1), (1 << (w-1))-1, 'i', w), r, 'i', w)
            if sg == 's': a, b = X.sgn(a, w), X.sgn(b, w)
            r = a+b if o == '+' else a-b
            lo, hi = (0, (1 << w)-1) if sg == 'u' else (-(1 << (w-1)), (1 << (w-1))-1)
            return min(max(r, lo), hi) & ((1 << w)-1)
        return f
    INLINE['llvm.%sadd.sat' % _sg] = _sat(_sg, '+')
    INLINE['llvm.%ssub.sat' % _sg] = _sat(_sg, '-')
@intrin('llvm.stacksave')
def _(st, w): return 0
@intrin('llvm.stackrestore')
def _(st, w, a): return None
@intrin('llvm.expect')
def _(st, w, a, b): return a
@intrin('llvm.is.constant')
def _(st, w, a): return 0
@intrin('llvm.objectsize')
def _(st, w, a, *r): return M64
@intrin('llvm.threadlocal.address')
def _(st, w, a): return a
@intrin('llvm.vector.reduce.add')
def _(st, w, a):
    r = a[0]
    for x in a[1:]: r = (r+x) & ((1 << w)-1)
    return r
@intrin('llvm.vector.reduce.or')
def _(st, w, a):
    r = a[0]
    for x in a[1:]: r = r | x
    return r
@intrin('llvm.vector.reduce.and')
def _(st, w, a):
    r = a[0]
    for x in a[1:]: r = r & x
    return r
@intrin('llvm.is.fpclass')
def _(st, w, a, m):
    if type(a) is E:
        if X.MODE == 'R': return False
        raise EngineError('is.fpclass')
    r = 0
    if a != a: r = 3
    elif a == math.inf: r = 512
    elif a == -math.inf: r = 4
    return bool(r & m)

def alloca_(st, n, name):
    p = st.alloc(n, name)
    st.al.append(p >> 32)
    return p
def ret_(st, v):
    fr = st.stack.pop()
    for i in st.al:
        if i in st.mem: del st.mem[i]; st.owned.discard(i)
    st.r = fr[0]; st.al = fr[3]
    if fr[2] is not None: st.r[fr[2]] = v
    return fr[1]
def conc_lookup(st, v):
    if type(v) is bool: return int(v)
    if type(v) is float: return X.f2bits(v, 64)
    if type(v) is not E: raise EngineError('conc of %r' % (v,))
    return st.cmap.get(v.id)

def _ns():
    ns = dict(X=X, E=E, keep_=keep_, kbr_=kbr_, dec_=dec_, ld_i=ld_i, ld_f=ld_f, ld_ty=ld_ty, st_=st_, st_ty=st_ty, r32_=r32_, not_=not_, slt_=slt_, fdiv_=fdiv_, idiv_=idiv_, sel_=sel_,
              bitcast_=bitcast_, setix=setix, alloca_=alloca_, ret_=ret_, PathEnd=PathEnd, NAN=math.nan, INF=math.inf, conc_lookup=conc_lookup)
    return ns

def inline_ns():
    return {'I_'+re.sub(r'\W', '_', n): f for n, f in INLINE.items() if f is not None}
