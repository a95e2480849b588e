"""Textual LLVM IR (opaque pointers, clang 14-18) -> light AST.  Functions are parsed lazily."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
|(?P<cstr>c"(?:[^"\\]|\\.)*")
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
|(?P<dots>\.\.\.)
|(?P<w>[a-zA-Z_$][\w.$-]*)
|(?P<md>![\w.]*)
|(?P<at>\#\d+)
|(?P<p>[()\[\]{}<>,=*|:])
)''', re.X)

def tokens(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'): break
            raise SyntaxError('lex: ' + s[pos:pos+60])
        pos = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64); PTR = ('p',); VOID = ('void',)
F32 = ('f', 32); F64 = ('f', 64)

class Mod:
    pass

PATTRS = {'nocapture', 'noundef', 'readonly', 'readnone', 'writeonly', 'nonnull', 'noalias', 'signext', 'zeroext',
          'inreg', 'returned', 'nofree', 'immarg', 'nest', 'swiftself', 'allocptr', 'dead_on_unwind', 'writable', 'noext'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'range', 'inalloca', 'preallocated', 'byref', 'allocalign', 'nofpclass', 'initializes'}

class P:
    """parser over a token list"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else (None, None)
    def pv(s): return s.t[s.i][1] if s.i < len(s.t) else None
    def next(s): x = s.t[s.i]; s.i += 1; return x
    def nv(s): return s.next()[1]
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v: s.i += 1; return True
        return False
    def exp(s, v):
        x = s.nv()
        if x != v: raise SyntaxError('expected %s got %s in %s' % (v, x, ' '.join(t[1] for t in s.t[max(0, s.i-12):s.i+8])))
    def type(s):
        k, v = s.next()
        if v == 'ptr':
            t = PTR
            if s.pv() == 'addrspace': s.nv(); s.skip_paren()
        elif v == 'void': t = VOID
        elif v == 'float': t = F32
        elif v == 'double': t = F64
        elif v == 'x86_fp80': t = ('f', 80)
        elif v == 'half': t = ('f', 16)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('md',)
        elif v == 'opaque': t = ('s', (), False)
        elif k == 'w' and v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
        elif k == 'id': t = s.m.named(v)
        elif v == '[':
            n = int(s.nv()); s.exp('x'); e = s.type(); s.exp(']'); t = ('a', n, e)
        elif v == '<':
            if s.pv() == '{':
                s.nv(); t = s.struct(True); s.exp('>')
            else:
                n = int(s.nv()); s.exp('x'); e = s.type(); s.exp('>'); t = ('v', n, e)
        elif v == '{': t = s.struct(False)
        else: raise SyntaxError('type: %r' % (v,))
        while s.pv() == '(' and t[0] in ('void', 'i', 'f', 'p', 's', 'v', 'a') and s.fnty():
            t = ('fn', t)
        return t
    def fnty(s):
        # function type like  i32 (ptr, ...)  : only in call signatures
        j = s.i
        depth = 0
        while True:
            v = s.t[j][1]
            if v == '(': depth += 1
            elif v == ')':
                depth -= 1
                if depth == 0: break
            j += 1
        # it is a fn type if what follows is an identifier callee
        if j+1 < len(s.t) and s.t[j+1][0] == 'id':
            s.i = j+1
            return True
        return False
    def struct(s, packed):
        el = []
        while not s.acc('}'):
            el.append(s.type()); s.acc(',')
        return ('s', tuple(el), packed)
    def skip_paren(s):
        s.exp('('); d = 1
        while d:
            v = s.nv()
            if v == '(': d += 1
            elif v == ')': d -= 1
    def attrs(s):
        while s.i < len(s.t):
            v = s.pv()
            if v in PATTRS: s.i += 1
            elif v in PATTR_ARG:
                s.i += 1
                if s.pv() == '(': s.skip_paren()
                elif s.peek()[0] == 'num': s.i += 1
            elif s.peek()[0] == 'str': # "attr"="v"
                s.i += 1
                if s.acc('='): s.i += 1
            else: break
    # ---- values: ('r',name) | ('c',value) ; constants resolved through module linker
    def value(s, ty):
        k, v = s.next()
        if k == 'id':
            if v[0] == '%': return ('r', v)
            return ('c', s.m.addr(v))
        if k == 'num': return ('c', s.num(v, ty))
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v in ('null', 'none'): return ('c', 0)
        if v in ('undef', 'poison', 'zeroinitializer'): return ('c', zero(ty))
        if v == 'splat':
            s.exp('('); t = s.type(); x = s.value(t); s.exp(')')
            return ('c', (x[1],)*ty[1])
        if k == 'cstr': return ('c', ('bytes', unesc(v[2:-1])))
        if v == '[' or v == '{' or v == '<':
            if v == '<' and s.pv() == '{': s.nv(); end = '}'; 
            else: end = {'[': ']', '{': '}', '<': '>'}[v]
            el = []
            while not s.acc(end):
                t = s.type(); s.attrs(); el.append(s.value(t)[1]); s.acc(',')
            if v == '<' and end == '}': s.exp('>')
            return ('c', tuple(el))
        if k == 'w': return ('c', s.cexpr(v, ty))
        if k == 'md': 
            return ('c', 0)
        raise SyntaxError('value %r' % v)
    def num(s, v, ty):
        if ty[0] == 'f':
            if v.startswith('0x'):
                if v[2] in 'KLMHR': return float('nan')
                d = struct.unpack('<d', struct.pack('<Q', int(v[2:], 16)))[0]
                return d
            return float(v)
        if ty[0] == 'i': return int(v, 0) & ((1 << ty[1])-1)
        if ty[0] == 'p': return int(v, 0)
        return int(v)
    def cexpr(s, op, ty):
        while s.pv() in ('inbounds', 'nuw', 'nsw', 'exact', 'nusw', 'inrange'):
            if s.nv() == 'inrange' : s.skip_paren()
        s.exp('(')
        if op == 'getelementptr':
            t = s.type(); s.exp(',')
            ops = []
            while True:
                s.acc('inrange')
                ot = s.type(); ov = s.value(ot)[1]; ops.append((ot, ov))
                if not s.acc(','): break
            s.exp(')')
            a = ops[0][1]
            return (a + gep_const(t, ops[1:])) & (2**64-1)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            t = s.type(); v = s.value(t)[1]; s.exp('to'); t2 = s.type(); s.exp(')')
            if op == 'trunc': v &= (1 << t2[1])-1
            if op == 'bitcast' and t[0] != t2[0]: raise SyntaxError('cexpr bitcast')
            return v
        if op in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            t = s.type(); a = s.value(t)[1]; s.exp(','); t2 = s.type(); b = s.value(t2)[1]; s.exp(')')
            r = {'sub': a-b, 'add': a+b, 'mul': a*b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << b if b < 128 else 0, 'lshr': a >> b}[op]
            return r & ((1 << t[1])-1)
        if op == 'icmp':
            raise SyntaxError('cexpr icmp')
        raise SyntaxError('cexpr '+op)

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def zero(ty):
    k = ty[0]
    if k == 'f': return 0.0
    if k == 'v': return (zero(ty[2]),)*ty[1]
    if k == 'a': return (zero(ty[2]),)*ty[1]
    if k == 's': return tuple(zero(t) for t in ty[1])
    return 0

_sz = {}
def size(ty): return layout(ty)[0]
def layout(ty):
    r = _sz.get(ty)
    if r is None:
        r = _layout(ty); _sz[ty] = r
    return r
def _layout(ty):
    """(alloc size, align, offsets)"""
    k = ty[0]
    if k == 'i':
        w = ty[1]; b = (w+7)//8
        a = 1
        while a < b and a < 16: a *= 2
        return ((b+a-1)//a*a, a, None)
    if k == 'f':
        if ty[1] == 80: return (16, 16, None)
        return (ty[1]//8, ty[1]//8, None)
    if k == 'p': return (8, 8, None)
    if k == 'a':
        s, a, _ = layout(ty[2]); return (s*ty[1], a, None)
    if k == 'v':
        e = ty[2]
        if e == I1: b = (ty[1]+7)//8
        else: b = ty[1]*layout(e)[0]
        a = 1
        while a < b: a *= 2
        return ((b+a-1)//a*a, a, None)
    if k == 's':
        off = 0; al = 1; offs = []
        for t in ty[1]:
            s, a, _ = layout(t)
            if ty[2]: a = 1
            off = (off+a-1)//a*a
            offs.append(off); off += s; al = max(al, a)
        return ((off+al-1)//al*al, al, offs)
    raise TypeError(ty)

def gep_steps(t, idx):
    """yield (kind, ...) : constant offset total and list of (operand, type, scale)"""
    off = 0; var = []
    first = True
    for ot, ov in idx:
        if first:
            sc = size(t); first = False
        else:
            if t[0] == 's':
                i = ov[1]
                off += layout(t)[2][i]; t = t[1][i]
                continue
            t = t[2]; sc = size(t)
        if ov[0] == 'c':
            v = ov[1]
            if v >> (ot[1]-1) & 1: v -= 1 << ot[1]
            off += v*sc
        else: var.append((ov, ot, sc))
    return off, var

def gep_const(t, idx):
    off, var = gep_steps(t, [(a, ('c', b)) for a, b in idx])
    return off

DEF = re.compile(r'^define .*?@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(')

class Module:
    def __init__(s, name, text, linker):
        s.name = name; s.L = linker
        s.types = {}; s.tdefs = {}; s.globals = {}; s.funcs = {}; s.decls = set(); s.local = set(); s.aliases = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', l)
                if m: s.tdefs[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^(@(?:"[^"]*"|[\w.$-]+)) = (.*)$', l)
                s.globals[m.group(1)] = m.group(2)
                if re.match(r'^(private|internal)\b', m.group(2)): s.local.add(m.group(1))
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))\(', l)
                s.decls.add(m.group(1))
            elif l.startswith('define'):
                m = DEF.match(l)
                nm = '@'+m.group(1)
                j = i+1
                while lines[j] != '}': j += 1
                s.funcs[nm] = (l, lines[i+1:j])
                hdr = l[:m.start(1)]
                if re.search(r'\b(internal|private)\b', hdr): s.local.add(nm)
                s.L.weak[(s, nm)] = bool(re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|available_externally)\b', hdr))
                i = j
            i += 1
    def named(s, nm):
        t = s.types.get(nm)
        if t is None:
            d = s.tdefs.get(nm)
            if d is None: raise KeyError(nm)
            s.types[nm] = ('s', (), False)
            t = P(tokens(d), s).type()
            s.types[nm] = t
        return t
    def addr(s, nm): return s.L.addr(s, nm)
