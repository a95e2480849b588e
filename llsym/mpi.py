"""Models of the MPI calls VPIC makes and of a set of simulated processes.

Every simulated process has its own memory image; processes interact only through these calls.
Point-to-point calls name source and tag explicitly, so the result does not depend on the order in
which processes are resumed: a round-robin schedule with blocking is enough.  A receive buffer is
arbitrary between the posting of the receive and its completion; a send buffer must not change until
the send completes (synchronous sends: the receiver may read it at any time until then)."""
import expr as X, engine as N
from expr import E
from engine import MemFault, PathEnd, EngineError, st_, ld_i, mem_copy, chk_access, BASE
import execu
from execu import builtin, Block, TopReturn, top_seg

class Net:
    """shared communication state"""
    def __init__(s):
        s.reqs = {}; s.next = 1; s.sends = []; s.recvs = []; s.coll = {}; s.cseq = {}; s.progress = 0
    def copy(s):
        n = Net.__new__(Net)
        n.reqs = {k: dict(v) for k, v in s.reqs.items()}; n.next = s.next; n.sends = list(s.sends); n.recvs = list(s.recvs)
        n.coll = {k: dict(v, data=dict(v['data'])) for k, v in s.coll.items()}; n.cseq = dict(s.cseq); n.progress = s.progress
        return n
class Proc:
    """saved context of a process that is not running"""
    __slots__ = ('mem', 'owned', 'r', 'stack', 'al', 'nextid', 'resume', 'names', 'ext', 'done', 'chl')
    def clone(s):
        n = Proc.__new__(Proc)
        n.mem = dict(s.mem); n.owned = set(); s.owned = set()
        n.stack = [(list(f[0]),)+f[1:] for f in s.stack]; n.r = list(s.r); n.al = list(s.al)
        n.nextid = s.nextid; n.resume = s.resume; n.names = dict(s.names)
        n.ext = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in s.ext.items()}
        n.done = s.done; n.chl = list(s.chl)
        return n

SHARED = ('net',)
def net(st):
    n = st.ext.get('net')
    if n is None: n = st.ext['net'] = Net()
    return n
def nproc(st): return len(st.procs) if st.procs else 1

def spawn(eng, st, n):
    """called between top-level functions: st becomes process 0 of n copies"""
    net(st)
    st.procs = []
    for i in range(n):
        p = Proc()
        p.mem = dict(st.mem); p.owned = set(); p.stack = [(list(f[0]),)+f[1:] for f in st.stack]; p.r = list(st.r); p.al = list(st.al)
        p.nextid = st.nextid; p.resume = None; p.names = dict(st.names)
        p.ext = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in st.ext.items() if k not in SHARED}
        p.done = False; p.chl = list(st.chl)
        st.procs.append(p)
    st.owned = set(); st.cur = 0

def save(st, seg, done=False):
    p = st.procs[st.cur]
    p.mem = dict(st.mem); p.owned = st.owned; p.r = st.r; p.stack = st.stack; p.al = st.al; p.nextid = st.nextid; p.resume = seg
    p.names = st.names; p.ext = {k: v for k, v in st.ext.items() if k not in SHARED}; p.done = done; p.chl = st.chl
def load(st, i):
    p = st.procs[i]
    keep = {k: v for k, v in st.ext.items() if k in SHARED}
    st.mem = execu.LazyMem(st.eng, st, p.mem); st.owned = set(p.owned); st.r = p.r; st.stack = p.stack; st.al = p.al; st.nextid = p.nextid
    st.names = p.names; st.ext = dict(p.ext); st.ext.update(keep); st.chl = p.chl; st.cur = i
    return p.resume
def next_live(st):
    n = len(st.procs)
    for d in range(1, n+1):
        i = (st.cur+d) % n
        if not st.procs[i].done: return i
    return None
def switch_proc(eng, st, seg, blocked):
    nt = net(st)
    if st.procs is None:
        raise MemFault('deadlock: single process blocked in communication')
    save(st, seg)
    live = [i for i, p in enumerate(st.procs) if not p.done]
    b = st.names.get('~blk')
    st.names['~blk'] = nt.progress
    # deadlock: every live process blocked since the last progress
    if all(st.procs[i].names.get('~blk') == nt.progress and st.procs[i].names.get('~isblk') for i in live if i != st.cur) and b == nt.progress and st.names.get('~isblk'):
        raise MemFault('deadlock: all %d processes blocked in communication' % len(live))
    st.names['~isblk'] = 1 if blocked else 0
    i = next_live(st)
    seg = load(st, i)
    if seg is None: seg = eng.begin(st, st.chl.pop(0))
    return seg
def proc_done(eng, st):
    """top-level function of the current process returned"""
    if st.chl: return None
    save(st, None, True)
    st.procs[st.cur].names['~isblk'] = 0
    net(st).progress += 1
    i = next_live(st)
    if i is None:
        nt = net(st)
        if any(not r['done'] for r in nt.reqs.values()): raise MemFault('communication left unfinished at the end')
        return None
    return load(st, i)
execu.Engine.switch_proc = lambda s, st, seg, blocked: switch_proc(s, st, seg, blocked)
execu.Engine.proc_done = lambda s, st: proc_done(s, st)

# ------------------------------------------------------------------ payloads
def snap(st, p, n):
    if n == 0: return None
    t = st.alloc(n, 'msg')
    mem_copy(st, t, p, n)
    o = st.mem[t >> 32]; del st.mem[t >> 32]; st.owned.discard(t >> 32)
    return o
def deliver(st, d, o, n):
    if n == 0: return
    t = st.alloc(n, 'msg'); i = t >> 32
    st.mem[i] = o; st.owned.discard(i)
    mem_copy(st, d, t, n)
    del st.mem[i]
def same_bytes(st, p, o, n):
    t = snap(st, p, n)
    if t.cells.keys() != o.cells.keys(): 
        return None
    c = True
    for k, (sz, v) in o.cells.items():
        w = t.cells[k]
        if w[0] != sz: return None
        a, b = v, w[1]
        if type(a) is type(b) and (a is b or (type(a) is not E and (a == b or a != a))): continue
        if type(a) is not E and type(b) is not E:
            if X.asint(a, sz*8) != X.asint(b, sz*8): return False
            continue
        return False
    return True

DT = {'ompi_mpi_double': 8, 'ompi_mpi_int': 4, 'ompi_mpi_byte': 1, 'ompi_mpi_char': 1, 'ompi_mpi_long_long_int': 8, 'ompi_mpi_float': 4, 'ompi_mpi_unsigned_char': 1, 'ompi_mpi_long': 8}
def extname(eng, p):
    k = eng.L.objs.get(p >> 32)
    return k[-1].lstrip('@') if k else '?'
def dtsize(eng, p):
    n = extname(eng, p)
    if n not in DT: raise EngineError('MPI datatype '+n)
    return DT[n]

for _n in ('MPI_Init', 'MPI_Finalize', 'MPI_Comm_free', 'MPI_Init_thread'): execu.BUILTINS['@'+_n] = lambda s, st, a: 0
@builtin('MPI_Comm_dup')
def _(s, st, a): st_(st, st.conc_arg(a[1]), 8, st.conc_arg(a[0])); return 0
@builtin('MPI_Comm_rank')
def _(s, st, a): st_(st, st.conc_arg(a[1]), 4, st.cur if st.procs else 0); return 0
@builtin('MPI_Comm_size')
def _(s, st, a): st_(st, st.conc_arg(a[1]), 4, nproc(st)); return 0
@builtin('MPI_Wtime')
def _(s, st, a): return 0.0

# ------------------------------------------------------------------ collectives
def collective(s, st, kind, sig, payload):
    """rendezvous: returns the record once every process arrived"""
    nt = net(st); me = st.cur if st.procs else 0
    q = nt.cseq.get(me, 0)
    rec = nt.coll.get(q)
    if rec is None: rec = nt.coll[q] = {'sig': (kind,)+sig, 'data': {}, 'n': 0}
    if me not in rec['data']:
        if rec['sig'] != (kind,)+sig: raise MemFault('collective mismatch: %r and %r' % (rec['sig'], (kind,)+sig))
        rec['data'][me] = payload(); nt.progress += 1
    if len(rec['data']) < nproc(st): raise Block()
    nt.cseq[me] = q+1
    return rec
@builtin('MPI_Barrier')
def _(s, st, a): collective(s, st, 'barrier', (), lambda: 0); return 0
@builtin('MPI_Allreduce')
def _(s, st, a):
    sb, rb, n = st.conc_arg(a[0]), st.conc_arg(a[1]), X.sgn(st.conc_arg(a[2]), 32)
    dn = extname(s, a[3]); op = extname(s, a[4])
    if op != 'ompi_mpi_op_sum': raise EngineError('MPI op '+op)
    z = DT[dn]
    ld = N.ld_f if dn in ('ompi_mpi_double', 'ompi_mpi_float') else N.ld_i
    rec = collective(s, st, 'allreduce', (n, dn), lambda: [ld(st, sb+i*z, z) for i in range(n)])
    for i in range(n):
        t = None
        for p in range(nproc(st)):
            v = rec['data'][p][i]
            t = v if t is None else (t+v)
            if type(t) is int: t &= X.M(z*8)
        st_(st, rb+i*z, z, t)
    return 0
@builtin('MPI_Allgather')
def _(s, st, a):
    sb, n, rb = st.conc_arg(a[0]), st.conc_arg(a[1]), st.conc_arg(a[3])
    z = dtsize(s, a[2])
    if st.conc_arg(a[4]) != n or dtsize(s, a[5]) != z: raise MemFault('MPI_Allgather send/receive counts differ')
    rec = collective(s, st, 'allgather', (n*z,), lambda: snap(st, sb, n*z))
    for p in range(nproc(st)): deliver(st, rb+p*n*z, rec['data'][p], n*z)
    return 0
@builtin('MPI_Gather')
def _(s, st, a):
    sb, n, rb, root = st.conc_arg(a[0]), st.conc_arg(a[1]), st.conc_arg(a[3]), st.conc_arg(a[6])
    z = dtsize(s, a[2]); me = st.cur if st.procs else 0
    rec = collective(s, st, 'gather', (n*z, root), lambda: snap(st, sb, n*z))
    if me == root:
        for p in range(nproc(st)): deliver(st, rb+p*n*z, rec['data'][p], n*z)
    return 0
@builtin('MPI_Bcast')
def _(s, st, a):
    b, n, root = st.conc_arg(a[0]), st.conc_arg(a[1]), st.conc_arg(a[3]); z = dtsize(s, a[2])
    rec = collective(s, st, 'bcast', (n*z, root), lambda: snap(st, b, n*z))
    deliver(st, b, rec['data'][root], n*z); return 0

# ------------------------------------------------------------------ point to point
REQ = 0x7fff << 32
def match(nt):
    """pair sends and receives in posting order per (src,dst,tag)"""
    for r in list(nt.recvs):
        R = nt.reqs[r]
        for q in nt.sends:
            S = nt.reqs[q]
            if S['me'] == R['peer'] and S['peer'] == R['me'] and S['tag'] == R['tag']:
                R['with'] = q; S['with'] = r; nt.recvs.remove(r); nt.sends.remove(q); nt.progress += 1
                break
def post(s, st, kind, buf, n, peer, tag):
    nt = net(st); me = st.cur if st.procs else 0
    if peer < 0 or peer >= nproc(st): raise MemFault('MPI peer rank %d out of range' % peer)
    if n < 0: raise MemFault('negative MPI count')
    i = nt.next; nt.next += 1
    R = {'kind': kind, 'me': me, 'peer': peer, 'tag': tag, 'buf': buf, 'n': n, 'with': None, 'done': False, 'data': None}
    nt.reqs[i] = R
    if kind == 's':
        R['data'] = snap(st, buf, n); nt.sends.append(i)
    else:
        if n:
            o, off = chk_access(st, buf, n, True)
            o = st.wobj(buf >> 32); N.erase(o, off+BASE, n)
            a = 0
            while a < n:
                c = 4 if n-a >= 4 else 1
                o.cells[off+BASE+a] = (c, X.fresh('inflight', 'i', 8*c)); a += c
            if s.concrete is not None: N.mem_set(st, buf, 0xA5, n)
        nt.recvs.append(i)
    nt.progress += 1
    match(nt)
    return i
def complete(s, st, i, status):
    nt = net(st); R = nt.reqs[i]
    if R['with'] is None: raise Block()
    W = nt.reqs[R['with']]
    n = R['n']
    if R['kind'] == 's':
        ok = True if n == 0 else same_bytes(st, R['buf'], R['data'], n)
        if ok is False: raise MemFault('send buffer modified before the send completed')
        R['done'] = True; cnt = n
    else:
        if W['n'] > n: raise MemFault('message of %d bytes truncated to a %d byte receive' % (W['n'], n))
        deliver(st, R['buf'], W['data'], W['n']); R['done'] = True; cnt = W['n']
    nt.progress += 1
    if status and extstat(s, status): st_(st, status+16, 8, cnt)
def extstat(s, p): return p >> 32 != 0
@builtin('MPI_Irecv')
def _(s, st, a):
    n = X.sgn(st.conc_arg(a[1]), 32)*dtsize(s, a[2])
    i = post(s, st, 'r', st.conc_arg(a[0]), n, X.sgn(st.conc_arg(a[3]), 32), st.conc_arg(a[4]))
    st_(st, st.conc_arg(a[6]), 8, REQ+i); return 0
@builtin('MPI_Issend', 'MPI_Isend')
def _(s, st, a):
    n = X.sgn(st.conc_arg(a[1]), 32)*dtsize(s, a[2])
    i = post(s, st, 's', st.conc_arg(a[0]), n, X.sgn(st.conc_arg(a[3]), 32), st.conc_arg(a[4]))
    st_(st, st.conc_arg(a[6]), 8, REQ+i); return 0
@builtin('MPI_Wait')
def _(s, st, a):
    p = st.conc_arg(a[0]); status = st.conc_arg(a[1])
    q = ld_i(st, p, 8)
    if type(q) is E: q = st.conc_arg(q)
    if q >> 32 != 0x7fff: 
        if q == 0 : raise MemFault('MPI_Wait on a null pointer request (never posted)')
        if status: st_(st, status+16, 8, 0)
        return 0
    complete(s, st, q & 0xffffffff, status)
    st_(st, p, 8, s.L.addr(s.L.mods[0], '@ompi_request_null'))
    return 0
def blocking(s, st, a, kind):
    q = st.ext.get('blkreq')
    if q is None:
        n = X.sgn(st.conc_arg(a[1]), 32)*dtsize(s, a[2])
        q = st.ext['blkreq'] = post(s, st, kind, st.conc_arg(a[0]), n, X.sgn(st.conc_arg(a[3]), 32), st.conc_arg(a[4]))
    complete(s, st, q, st.conc_arg(a[6]) if kind == 'r' else 0)
    del st.ext['blkreq']; return 0
@builtin('MPI_Send', 'MPI_Ssend')
def _(s, st, a): return blocking(s, st, a, 's')
@builtin('MPI_Recv')
def _(s, st, a): return blocking(s, st, a, 'r')
@builtin('MPI_Get_count')
def _(s, st, a):
    st_(st, st.conc_arg(a[2]), 4, X.trunc(ld_i(st, st.conc_arg(a[0])+16, 8), 32)); return 0
@builtin('hs_mpi_pending')
def _(s, st, a):
    """number of this process's requests that were posted and not completed"""
    nt = net(st); me = st.cur if st.procs else 0
    return sum(1 for r in nt.reqs.values() if r['me'] == me and not r['done'])
@builtin('hs_rank')
def _(s, st, a): return st.cur if st.procs else 0
