"""Exploration loop, obligations, counterexample extraction and environment stubs."""
import time, math, random, re, struct, os
from fractions import Fraction
import z3
import expr as X
from expr import E
import irparse as IR
import engine as N
from engine import (State, EngineError, PathEnd, NeedConc, MemFault, SwitchProc, Obj, BASE, ld_i, ld_f, ld_ty, st_, st_ty, cstr, put_bytes,
                    mem_copy, mem_set, chk_access, parse_func, Gen, Func)
from solve import Solver, evalE
from poly import TooBig, PolyCtx

class Violation:
    def __init__(s, label, inputs, cfg, kind, note=''): s.label = label; s.inputs = inputs; s.cfg = cfg; s.kind = kind; s.note = note

class Engine:
    def __init__(s, linker, mode='R', cfg=(), seed=1, budget=100.0, qtimeout=8000, concrete=None, maxviol=3, enum_limit=80, branch_timeout=1500, cut=0, approx=0, canon=0, forksel=0, flush=0):
        X.FLUSH[0] = flush; X._frac.clear(); s.approx = approx; s.forksel = forksel
        s.L = linker; linker.eng = s
        X.reset(); X.set_mode(mode); X.CUT[0] = cut
        for f in linker.funcs.values(): f.eng = s
        s.mode = mode; s.cfg = list(cfg); s.seed = seed; s.rng = random.Random(seed)
        s.solver = Solver(mode); s.S = s.solver
        s.canon = None
        if canon and mode == 'R':
            import canon as C
            s.canon = C.Canon(s)
        s.pending = []; s.viol = []; s.kviol = []; s.nuninit = 0; s.segs_compiled = 0
        s.ns = N._ns(); s.ns.update(N.inline_ns()); s.extra_ns = {}
        s.gens = {}
        s.t0 = time.time(); s.budget = budget; s.qtimeout = qtimeout; s.btimeout = branch_timeout
        s.paths = {'done': 0, 'exit': 0, 'assume': 0, 'fault': 0, 'infeasible': 0}
        s.nobl = 0; s.nrew = 0; s.nsolver = 0; s.undecided = []; s.nforks = 0; s.steps = 0
        s.reached = {}; s.concrete = concrete; s.trace = []; s.entered = set(); s.maxviol = maxviol; s.enum_limit = enum_limit
        s.incomplete = None; s.builtins = BUILTINS; s.override = OVERRIDE
        s.witness = 0; s.samples = []; s.max_paths = None; s.nfaults_trivial = 0
        s.dedupe = set(); s.rngcnt = 0; s.pcond_max = 0
        s.notes = {}; s.nprocs = 1; s.race = None; s.kfind = []; s.jobname = ''; s.nknown = {}
    # --------------------------------------------------------------- set up
    def gen(s, f):
        if not f.parsed: parse_func(f)
        if f.disp is None or f.disp[0] is not s:
            f.segs = []; f.segkey = {}
            g = Gen(s, f)
            f.disp = (s, g)
            f.entry = g.seg(f.order[0], 0)
        return f
    def initial(s):
        st = State()
        st.mem = {}; st.owned = set(); st.r = []; st.stack = []; st.al = []; st.pc = []; st.pcset = set(); st.cmap = {}; st.obl = []
        st.nextid = 1 << 20; st.resume = None; st.inputs = []; st.notes = []; st.names = {}; st.steps = 0; st.ext = {}; st.depth = 0
        st.expect_exit = 0; st.procs = None; st.cur = 0; st.eng = s; st.model = None; st.chl = []; st.trace = []; st.uninit_ok = True
        return st
    def global_obj(s, st, i):
        """materialise global / external object i in the memory of st"""
        k = s.L.objs.get(i)
        if k is None: return None
        if k[0] == 'g':
            m, nm = k[1], k[2]
            d = m.globals[nm]
            p = IR.P(IR.tokens(re.sub(r', (comdat|align|section|!dbg)\b.*$', '', d)), m)
            const = False
            while True:
                v = p.pv()
                if v in ('global', 'constant'): const = v == 'constant'; p.nv(); break
                p.nv()
                if p.pv() == '(': p.skip_paren()
            ty = p.type()
            o = Obj(IR.size(ty), nm, 0)
            st.mem[i] = o; st.owned.add(i)
            if p.i < len(p.t) and p.pv() != ',':
                v = p.value(ty)[1]
                s.init_const(st, (i << 32)+BASE, ty, v)
            o.const = const
            return o
        if k[0] == 'ext':
            o = Obj(4096, k[1], 0); st.mem[i] = o; st.owned.add(i); return o
        return None
    def init_const(s, st, a, ty, v):
        if type(v) is tuple and len(v) == 2 and v[0] == 'bytes':
            for j, b in enumerate(v[1]): st_(st, a+j, 1, b)
            return
        k = ty[0]
        if k == 'a':
            n = IR.size(ty[2])
            for j in range(ty[1]):
                if type(v[j]) is int and v[j] == 0 and n in (1, 2, 4, 8): continue
                s.init_const(st, a+j*n, ty[2], v[j])
        elif k == 's':
            for o, t, x in zip(IR.layout(ty)[2], ty[1], v): s.init_const(st, a+o, t, x)
        else:
            st_ty(st, a, ty, v)
    def start(s, entry='hs_main'):
        st = s.initial()
        # materialise every referenced global lazily: st.mem is a dict subclass
        st.mem = LazyMem(s, st)
        ctors = []
        for m in s.L.mods:
            d = m.globals.get('@llvm.global_ctors')
            if d:
                p = IR.P(IR.tokens(re.sub(r', (comdat|align|section)\b.*$', '', d)), m)
                while p.nv() not in ('global', 'constant'): pass
                ty = p.type(); v = p.value(ty)[1]
                for pr, fn, _ in v: ctors.append((pr, fn))
        ctors.sort(key=lambda t: t[0])
        seq = [s.fn_by_addr(a) for _, a in ctors if s.fn_by_addr(a)]
        seq.append(s.L.func('@'+entry, '@'+entry))
        if seq[-1] is None: raise EngineError('no entry '+entry)
        st.chl = seq
        if s.nprocs > 1:
            import mpi
            mpi.spawn(s, st, s.nprocs); mpi.load(st, 0)
        return st
    def fn_by_addr(s, a):
        x = s.L.faddr.get(a)
        if x is None or x[0] != 'f': return None
        return s.L.func(s.L.key(x[1], x[2]), x[2])
    def begin(s, st, f, args=()):
        s.gen(f)
        st.r = [None]*f.nregs
        for i, a in enumerate(args): st.r[i] = a
        st.al = []
        st.stack.append(([], top_seg, None, []))
        s.entered.add((f.mod.name, f.name))
        return f.segs[f.entry]
    # --------------------------------------------------------------- run
    def run(s, entry='hs_main'):
        s.t0 = time.time()
        try:
            st = s.start(entry)
            st.resume = None
            s.pending = [st]
            while s.pending:
                st = s.pending.pop()
                if time.time()-s.t0 > s.budget:
                    s.incomplete = 'time budget of %gs exhausted with %d states left' % (s.budget, len(s.pending)+1); break
                if len(s.viol) >= s.maxviol: break
                s.explore(st)
        except EngineError as e:
            s.incomplete = 'engine: '+str(e)
            raise
        return s
    def explore(s, st):
        seg = st.resume
        st.resume = None
        n = 0
        if s.canon: s.canon.st = st
        try:
            while True:
                if seg is None:
                    # between top-level functions
                    if not st.chl:
                        raise PathEnd('done')
                    f = st.chl.pop(0)
                    seg = s.begin(st, f)
                try:
                    while True:
                        seg = seg(st)
                        n += 1
                        if n & 1023 == 0 and time.time()-s.t0 > s.budget:
                            s.incomplete = 'time budget of %gs exhausted inside a path' % s.budget
                            raise PathEnd('budget')
                except TopReturn:
                    seg = None
                    seg = s.top_return(st)
        except PathEnd as e:
            s.steps += n
            s.end(st, e.kind, e.msg)
        except MemFault as e:
            s.steps += n
            s.fault(st, e.msg)
    def end(s, st, kind, msg):
        if s.canon: s.canon.st = None
        if kind in ('budget', 'forked'): return
        s.pcond_max = max(s.pcond_max, len(st.pc))
        if kind == 'done' and 'net' in st.ext and any(not r['done'] for r in st.ext['net'].reqs.values()):
            return s.fault(st, 'communication left unfinished at the end')
        if kind == 'exit':
            if not st.expect_exit:
                s.flush(st)
                s.obligation_fail(st, 'unexpected-exit:'+msg, None, note=str(st.ext.get('lastlog', '')))
            s.paths['exit'] += 1
        elif kind == 'unreachable':
            raise EngineError('reached unreachable '+msg)
        else: s.paths[kind] = s.paths.get(kind, 0)+1
        s.flush(st)
        if kind in ('done', 'exit') and s.witness < 3 and not s.concrete:
            r, m = s.S.full_model(st.pc, s.qtimeout, 'cheap')
            if r == 'sat':
                s.witness += 1
                if len(s.samples) < 3:
                    s.samples.append({'cfg': s.cfg, 'end': kind, 'inputs': [[n, str(v)[:40]] for n, t, v in s.input_values(st, m)[:12]]})
    def fault(s, st, msg):
        s.flush(st)
        s.paths['fault'] += 1
        s.obligation_fail(st, 'memory:'+re.sub(r'\d+', 'N', msg)[:80], None, note=msg)
    # --------------------------------------------------------------- forking
    def assume(s, st, c):
        c = X.tobool(c)
        if type(c) is not E:
            if not c: raise PathEnd('assume')
            return
        cs = c.a if c.op == 'band' else (c,)
        for x in cs:
            if x.id not in st.pcset:
                st.pc.append(x); st.pcset.add(x.id)
    def known(s, st, c):
        if c.id in st.pcset: return True
        n = X.not_(c)
        if type(n) is E and n.id in st.pcset: return False
        if c.op == 'band':
            k = [s.known(st, x) for x in c.a]
            if False in k: return False
            if None not in k: return True
        elif c.op == 'not' and c.a[0].op == 'band':
            k = s.known(st, c.a[0])
            if k is not None: return not k
        return None
    def branch(s, st, c, T, F, keep=False):
        c = X.tobool(c)
        if type(c) is not E: return T if c else F
        k = s.known(st, c)
        if k is not None: return T if k else F
        if s.concrete is not None: raise EngineError('symbolic branch in concrete mode '+X.show(c))
        rt = s.S.feasible(st.pc, c, s.btimeout)
        nc = X.not_(c)
        if rt == 'unsat':
            if keep: s.assume(st, nc)
            return F
        rf = s.S.feasible(st.pc, nc, s.btimeout)
        if rf == 'unsat':
            if keep: s.assume(st, c)
            return T
        s.flush(st)
        s.nforks += 1
        o = st.clone()
        s.assume(o, nc); o.resume = F
        s.pending.append(o)
        s.assume(st, c)
        return T
    def switch(s, st, v, cases, dflt):
        alts = []
        rest = []
        for cv, seg in cases:
            c = X.eq(v, cv)
            rest.append(X.not_(c))
            alts.append((c, seg))
        alts.append((X.band(*rest), dflt))
        return s.forkalts(st, alts)
    def forkalts(s, st, alts):
        live = []
        for c, seg in alts:
            if type(c) is not E:
                if c: live.append((c, seg))
                continue
            k = s.known(st, c)
            if k is False: continue
            if k is True or s.S.feasible(st.pc, c, s.btimeout) != 'unsat': live.append((c, seg))
        if not live: raise PathEnd('infeasible')
        if len(live) > 1: s.flush(st); s.nforks += len(live)-1
        for c, seg in live[1:]:
            o = st.clone()
            s.assume(o, c); o.resume = seg; s.pending.append(o)
        s.assume(st, live[0][0])
        return live[0][1]
    def conc(s, st, e, seg):
        """fork over every feasible concrete value of e"""
        if s.concrete is not None: raise EngineError('concretisation in concrete mode '+X.show(e))
        vals = s.values(st, e)
        if not vals: raise PathEnd('infeasible')
        if len(vals) > 1: s.flush(st); s.nforks += len(vals)-1
        base = len(st.pc)
        for v in vals[1:]:
            o = st.clone()
            s.assume(o, X.eq(e, v)); o.cmap[e.id] = v; o.resume = seg; s.pending.append(o)
        s.assume(st, X.eq(e, vals[0])); st.cmap[e.id] = vals[0]
        return seg
    def values(s, st, e):
        vals = []
        ex = []
        if e.op == 'sym':                # a bounded unconstrained symbol: every value is feasible
            sl = [c for c in s.S.slice(st.pc, [e])]
            if len(sl) == 1 and type(sl[0]) is E and sl[0].op == 'ult' and sl[0].a[0] is e and type(sl[0].a[1]) is int and sl[0].a[1] <= s.enum_limit: return list(range(sl[0].a[1]))
        while True:
            cs = s.S.slice(st.pc, [e])+[X.not_(X.eq(e, v)) for v in vals]
            if any(c is False for c in cs): break
            z = s.S.tr(e)
            cs = [c for c in cs if c is not True]
            r = s.enum_query(cs, e)
            if r is None: break
            if r == 'unknown': raise EngineError('cannot enumerate values of '+X.show(e, 5))
            vals.append(r)
            if len(vals) > s.enum_limit: raise EngineError('more than %d values for %s' % (s.enum_limit, X.show(e, 6)))
        return vals
    def enum_query(s, cs, e):
        t0 = time.time()
        sol = z3.Solver(); sol.set('timeout', s.qtimeout)
        z = s.S.tr(e)
        sol.add([s.S.tr(c, 'b') for c in cs if type(c) is E]); sol.add(s.S.sides(list(cs)+[e]))
        r = str(sol.check())
        s.S.st.time += time.time()-t0; s.S.st.queries += 1; setattr(s.S.st, r, getattr(s.S.st, r)+1)
        if r == 'unsat': return None
        if r == 'unknown': return 'unknown'
        v = sol.model().eval(z, model_completion=True)
        v = z3.simplify(v)
        return v.as_long()
    # --------------------------------------------------------------- calls
    def call(s, st, key, args, nxt, dst, again, byv, rty):
        name = key if type(key) is str else key[1]
        ov = s.override.get(name)
        if ov is None:
            f = s.L.funcs.get(key)
            if f is None: f = s.L.func(key, name)
            if f is not None: return s.enter(st, f, args, nxt, dst, byv)
            ov = s.builtins.get(name)
            if ov is None:
                for pre, b in PREFIX:
                    if name.startswith(pre): ov = b; break
            if ov is None:
                raise EngineError('no model for external function %s' % name)
        return s.ext(st, ov, name, args, nxt, dst, again, rty)
    def ext(s, st, fn, name, args, nxt, dst, again, rty):
        try:
            v = fn(s, st, args)
        except NeedConc as e:
            return s.conc(st, e.e, again)
        except Redo:
            return again
        except Block:
            # blocked simulated process: switch to another one
            return s.switch_proc(st, again, blocked=True)
        if type(v) is tuple and len(v) == 2 and v[0] == 'enter':
            return s.enter(st, v[1][0], v[1][1], nxt, dst, ())
        if type(v) is tuple and len(v) == 2 and v[0] == 'co_switch':
            co = st.ext['co']; t = v[1]
            co.c[co.cur] = (st.r, st.stack, st.al, nxt)
            st.r, st.stack, st.al, seg = co.c[t]; co.c[t] = None; co.cur = t
            return seg
        if type(v) is tuple and len(v) == 2 and v[0] == 'retval_switch':
            if dst is not None: st.r[dst] = v[1]
            return s.switch_proc(st, nxt, blocked=False)
        if dst is not None:
            if v is None: v = IR.zero(rty)
            st.r[dst] = v
        return nxt
    def enter(s, st, f, args, nxt, dst, byv):
        if f.disp is None or f.disp[0] is not s: s.gen(f)
        s.entered.add((f.mod.name, f.name))
        nr = [None]*f.nregs
        np = len(f.params)
        for i, sz in byv:
            p = args[i]
            q = st.alloc(sz, 'byval')
            mem_copy(st, q, p, sz); args[i] = q
        nr[:min(np, len(args))] = args[:np]
        if len(nr) < f.nregs: nr += [None]*(f.nregs-len(nr))
        if f.vararg: st.ext['varargs'] = args[np:]
        if len(st.stack) > 400: raise MemFault('stack overflow (recursion depth 400) in '+f.name)
        st.stack.append((st.r, nxt, dst, st.al))
        st.r = nr; st.al = []
        return f.segs[f.entry]
    def call_ptr(s, st, p, args, nxt, dst, again, byv, rty):
        x = s.L.faddr.get(p)
        if x is None: raise MemFault('call through bad function pointer 0x%x' % p)
        if x[0] == 'f':
            return s.call(st, s.L.key(x[1], x[2]), args, nxt, dst, again, byv, rty)
        return s.call(st, x[1], args, nxt, dst, again, byv, rty)
    # --------------------------------------------------------------- inputs
    def input(s, st, name, k, w, lo=None, hi=None):
        c = st.names.get(name, 0); st.names[name] = c+1
        full = '%s#%d' % (name, c)
        if s.concrete is not None:
            v = s.concrete(full, k, w, lo, hi)
            st.inputs.append((full, k, w, v)); return v
        e = X.sym(full, k, w)
        if k == 'f': s.S.bounds[e.id] = (lo, hi)
        st.inputs.append((full, k, w, e))
        return e
    def input_values(s, st, model):
        out = []
        rng = random.Random(s.seed)
        for full, k, w, e in st.inputs:
            if type(e) is not E: v = e
            elif e.id in model: v = model[e.id]
            else:
                lo, hi = s.S.bounds.get(e.id, (None, None))
                if k == 'f':
                    lo = -1.0 if lo is None else lo; hi = 1.0 if hi is None else hi
                    v = Fraction(lo)+(Fraction(hi)-Fraction(lo))*Fraction(rng.randrange(1, 1024), 1024)
                else: v = 0
            if k == 'f':
                if isinstance(v, Fraction):
                    v = X.r32(float(v)) if w == 32 else float(v)
                    lo, hi = s.S.bounds.get(e.id if type(e) is E else -1, (None, None))
                v = float(v)
            elif k == 'b': v = int(v)
            out.append((full, (k, w), v))
        return out
    # --------------------------------------------------------------- obligations
    def oblige(s, st, o):
        if s.concrete is not None:
            s.trace.append(o if not st.procs else o[:-1]+('%d~%s' % (st.cur, o[-1]),))
        s.nobl += 1
        st.obl.append(o)
        if len(st.obl) >= 400: s.flush(st)
    def flush(s, st):
        if s.canon is None: return s.flush1(st)
        k = s.canon.st; s.canon.st = None
        try: return s.flush1(st)
        finally: s.canon.st = k
    def flush1(s, st):
        if not st.obl: return
        obl = st.obl; st.obl = []
        if s.concrete is not None:
            for o in obl:
                ok = bool(o[1]) if o[0] == 'b' else (o[1] == o[2] or abs(o[1]-o[2]) <= o[3])
                if not ok: s.obligation_fail(st, o[-1], None)
            return
        lin = []
        for o in obl:
            if len(s.viol) >= s.maxviol: return
            if o[0] == 'b':
                s.decide_bool(st, list(st.pc), o[1], o[2])
            else:
                s.decide_near(st, st.pc, o[1], o[2], o[3], o[4], lin, 0)
        s.decide_lin(st, lin)
    def decide_bool(s, st, pc, c, label):
        c = X.tobool(c)
        if type(c) is not E:
            if c: s.nrew += 1
            else: s.obligation_fail(st, label, None)
            return
        if c.op == 'band':
            for x in c.a: s.decide_bool(st, pc, x, label)
            return
        if c.id in st.pcset: s.nrew += 1; return
        nc = X.not_(c)
        r, m = s.S.check(s.S.slice(pc, [nc])+[nc], s.qtimeout)
        s.nsolver += 1
        if r == 'unsat': return
        if r == 'sat': s.obligation_fail(st, label, nc)
        else: s.try_search(st, label, nc)
    def zpoly(s, p, mono):
        t = []
        for m, c in p.items():
            if not m: t.append(z3.RealVal(str(c))); continue
            v = mono.get(m)
            if v is None:
                v = z3.Real('m%d' % len(mono)); mono[m] = v
            t.append(z3.RealVal(str(c))*v)
        return z3.Sum(t) if t else z3.RealVal(0)
    def decide_near(s, st, pc, a, b, tol, label, lin, depth):
        if type(a) is E and type(b) is E and a is b: s.nrew += 1; return
        if type(a) is not E and type(b) is not E:
            s.nrew += 1
            if not (a == b or abs(a-b) <= tol):
                s.obligation_fail(st, label, None, pc=pc)
            return
        if s.mode == 'F':
            d = X.fsub(a, b, 64)
            c = X.bor(X.feq(a, b), X.band(X.fle(d, float(tol)), X.fle(-float(tol), d)))
            return s.decide_bool(st, list(pc), c, label)
        # split on data-dependent selections
        c = find_ite((a, b))
        if c is not None and depth < 14:
            for val in (True, False):
                cc = c if val else X.not_(c)
                if any(x is cc for x in pc): npc = pc
                elif any(x is X.not_(cc) for x in pc): continue
                else:
                    if s.S.feasible(pc, cc, s.btimeout) == 'unsat': continue
                    npc = list(pc)+[cc]
                memo = {}
                s.decide_near(st, npc, subst(a, c, val, memo), subst(b, c, val, memo), tol, label, lin, depth+1)
            return
        try:
            P = s.S.pctx
            pa = P.poly(a); pb = P.poly(b)
            p = P.addp(pa, pb, -1)
            if p:
                if any(P.info[v][0] in ('recip', 'recip1', 'def') for m in p for v, _ in m):
                    q = P.clear(p)
                    if not q: s.nrew += 1; return
            if not p: lin.append((pa, pb, tol, label)); return
            bnd = {}
            for i, (lo, hi) in s.S.bounds.items():
                if lo is not None and hi is not None: bnd[i] = max(abs(Fraction(lo)), abs(Fraction(hi)))
            bb = P.bound_poly(p, bnd)
            if bb is not None and bb <= tol:
                lin.append((pa, pb, tol, label)); return
        except TooBig: pass
        if s.quick_search(st, pc, a, b, tol, label): return
        nc = None
        if s.canon is not None:
            try: d = s.canon.expr(P.addp(P.poly(a), P.poly(b), -1)); nc = X.not_(X.band(X.fle(d, float(tol)), X.fle(X.fneg(d), float(tol))))
            except TooBig: pass
        if nc is None: nc = X.not_(X.band(X.fle(X.fsub(a, b, 64), float(tol)), X.fle(X.fsub(b, a, 64), float(tol))))
        if type(nc) is not E:
            s.nsolver += 1
            if nc: s.obligation_fail(st, label, None, pc=pc)
            return
        r, m = s.S.check(s.S.slice(pc, [nc])+[nc], s.qtimeout, s.canon is not None)
        s.nsolver += 1
        if r == 'unsat': return
        if r == 'sat': s.obligation_fail(st, label, nc, pc=pc)
        else: s.try_search(st, label, nc, pc)
    def decide_lin(s, st, lin):
        """one linear-arithmetic query for a batch: every monomial (product of inputs) is an unknown real within its bounds"""
        if not lin: return
        t0 = time.time()
        mono = {}; ors = []
        sol = z3.SolverFor('QF_LRA'); sol.set('timeout', s.qtimeout)
        P = s.S.pctx
        same = True
        for pa, pb, tol, label in lin:
            d = s.zpoly(pa, mono)-s.zpoly(pb, mono); t = z3.RealVal(str(Fraction(tol)))
            ors.append(z3.Or(d > t, d < -t))
            same = same and pa == pb
        if not same:
            bnd = {}
            for i, (lo, hi) in s.S.bounds.items():
                if lo is not None and hi is not None: bnd[i] = max(abs(Fraction(lo)), abs(Fraction(hi)))
            for m, v in mono.items():
                b = P.bound_poly({m: Fraction(1)}, bnd)
                if b is not None: b = z3.RealVal(str(b)); sol.add(v <= b, v >= -b)
        sol.add(z3.Or(ors))
        r = str(sol.check())
        s.S.st.time += time.time()-t0; s.S.st.queries += 1; setattr(s.S.st, r, getattr(s.S.st, r)+1)
        s.nsolver += len(lin)
        if r != 'unsat':
            s.undecided.append(('linear batch', r))
    def rnd_env(s, vs, rng, coarse):
        env = {}
        for i in vs:
            n = X.symnode(i)
            if n.k == 'f':
                lo, hi = s.S.bounds.get(i, (-1, 1)); lo = -1 if lo is None else lo; hi = 1 if hi is None else hi
                env[i] = Fraction(lo)+(Fraction(hi)-Fraction(lo))*Fraction(rng.randrange(0, coarse+1), coarse)
                if s.mode == 'F': env[i] = float(env[i])
            else:
                lo, hi = s.S.bounds.get(i, (None, None))
                env[i] = rng.getrandbits(n.w if n.k == 'i' else 1) if lo is None else lo+rng.randrange(hi-lo+1)
        return env
    def quick_search(s, st, pc, a, b, tol, label, tries=6):
        rng = random.Random(s.seed*31+s.nobl)
        vs = X.vars_of(a) if type(a) is E else set()
        if type(b) is E: vs = vs | X.vars_of(b)
        rel = s.S.slice(list(pc), [x for x in (a, b) if type(x) is E])
        vs = set(vs)
        for c in rel: vs |= X.vars_of(c)
        for t in range(tries):
            env = s.rnd_env(vs, rng, 16 if t < 3 else 256)
            try:
                if abs(Fraction(evalE(a, env, s.mode))-Fraction(evalE(b, env, s.mode))) > 4*Fraction(tol) and all(evalE(c, env, s.mode) for c in rel):
                    nc = X.not_(X.band(X.fle(X.fsub(a, b, 64), float(tol)), X.fle(X.fsub(b, a, 64), float(tol))))
                    fix = [s.S.tr(X.symnode(i)) == s.S.num(v, 64) for i, v in env.items() if X.symnode(i).k == 'f'] if s.mode == 'R' else []
                    if type(nc) is E:
                        r, m = s.S.check(list(rel)+[nc], s.qtimeout, True, fix)
                        if r == 'unsat': continue
                        if r == 'sat': env.update(m)
                    if len(rel) < len(pc):
                        rest = [c for c in pc if all(c is not x for x in rel)]
                        r, m = s.S.full_model(rest, s.qtimeout)
                        if r != 'sat': return False
                        m.update(env); env = m
                    s.record(st, label, env, 'search'); return True
            except (ZeroDivisionError, NotImplementedError, OverflowError, ValueError, TypeError): pass
        return False
    def try_search(s, st, label, nc, pc=None, tries=40):
        """solver gave no answer: look for a concrete counterexample by evaluation"""
        pc = list(st.pc if pc is None else pc)
        rng = random.Random(s.seed*7919+len(s.undecided))
        vs = set()
        for c in pc+[nc]: vs |= X.vars_of(c)
        for t in range(tries):
            env = {}
            for i in vs:
                n = X.symnode(i)
                if n.k == 'f':
                    lo, hi = s.S.bounds.get(i, (-1, 1)); lo = -1 if lo is None else lo; hi = 1 if hi is None else hi
                    env[i] = Fraction(lo)+(Fraction(hi)-Fraction(lo))*Fraction(rng.randrange(0, 257), 256)
                    if s.mode == 'F': env[i] = float(env[i])
                else: env[i] = rng.getrandbits(n.w if n.k == 'i' else 1)
            try:
                if all(evalE(c, env, s.mode) for c in pc) and evalE(nc, env, s.mode):
                    s.record(st, label, env, 'search'); return
            except (ZeroDivisionError, NotImplementedError, OverflowError, ValueError): pass
        s.undecided.append((label, 'unknown'))
    def obligation_fail(s, st, label, nc, note='', pc=None):
        pc = list(st.pc if pc is None else pc)
        if nc is not None: pc = pc+[nc]
        if s.concrete is not None:
            s.viol.append(Violation(label, [], s.cfg, 'concrete', note)); return
        r, m = s.S.full_model(pc, s.qtimeout*2)
        if r == 'unsat': return
        if r != 'sat':
            s.undecided.append((label, 'no model')); return
        s.record(st, label, m, 'solver', note)
        # a second, independent model helps when rounding hides the first
    def record(s, st, label, model, kind, note=''):
        v = Violation(label, s.input_values(st, model), s.cfg, kind, note)
        for k in s.kfind:
            if k.search('%s @ %s' % (label, s.jobname)):
                s.nknown[k.pattern] = n = s.nknown.get(k.pattern, 0)+1
                if n <= 2: s.kviol.append(v)
                return
        s.viol.append(v)
    # --------------------------------------------------------------- processes
    def top_return(s, st):
        if st.procs is not None: return s.proc_done(st)
        return None
    def switch_proc(s, st, seg, blocked):
        raise EngineError('no simulated processes')

class TopReturn(Exception): pass
def top_seg(st): raise TopReturn()
class Redo(Exception): pass
class Block(Exception): pass

class LazyMem(dict):
    __slots__ = ('eng', 'st')
    def __init__(s, eng, st, src=()):
        dict.__init__(s, src); s.eng = eng; s.st = st
    def get(s, i, d=None):
        try: return dict.__getitem__(s, i)
        except KeyError:
            o = s.eng.global_obj(s.st, i)
            return o if o is not None else d
    def __getitem__(s, i):
        o = s.get(i)
        if o is None: raise KeyError(i)
        return o

def find_ite(es):
    """an innermost-first selection condition inside float expressions (not containing other selections)"""
    seen = set(); stack = [e for e in es if type(e) is E]
    best = None
    while stack:
        n = stack.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op == 'ite' and n.k == 'f': return n.a[0] if n.a[0].op != 'band' else n.a[0].a[0]
        if n.op == 'fabs': return X.flt(n.a[0], 0.0)
        if n.k == 'f':
            for x in n.a:
                if type(x) is E: stack.append(x)
    return None
def subst(e, c, val, memo):
    """e with Boolean condition c replaced by val"""
    if type(e) is not E: return e
    r = memo.get(e.id)
    if r is not None: return r[0]
    stack = [e]
    while stack:
        n = stack[-1]
        if n.id in memo: stack.pop(); continue
        if n is c: memo[n.id] = (val,); stack.pop(); continue
        todo = [x for x in n.a if type(x) is E and x.id not in memo]
        if todo: stack.extend(todo); continue
        a = [memo[x.id][0] if type(x) is E else x for x in n.a]
        memo[n.id] = (rebuild(n, a, c, val),); stack.pop()
    return memo[e.id][0]
def rebuild(n, a, c, val):
    op = n.op
    if op == 'fabs' and type(c) is E and c.op == 'flt' and type(c.a[1]) is not E and c.a[1] == 0 and n.a[0] is c.a[0]:
        return X.fneg(a[0]) if val else a[0]
    if all((x is y) or (type(x) is not E and type(y) is not E and x == y) for x, y in zip(a, n.a)): return n
    w = n.w
    if op == 'ite': return X.ite_k(a[0], a[1], a[2], n.k, w)
    if op == 'not': return X.not_(a[0])
    if op == 'band': return X.band(*a)
    if op == 'bxor': return X.xor_(a[0], a[1]) if type(a[0]) is E or type(a[1]) is E else bool(a[0]) != bool(a[1])
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return getattr(X, op)(X.tof(a[0]), X.tof(a[1]), w)
    if op == 'fneg': return X.fneg(a[0])
    if op == 'fabs': return X.fabs(a[0], w)
    if op == 'sqrt': return X.fsqrt(a[0], w)
    if op == 'fcast': return X.fpext(a[0]) if w == 64 else X.fptrunc(a[0])
    if op == 'flt': return X.flt(a[0], a[1])
    if op == 'fle': return X.fle(a[0], a[1])
    if op == 'feq': return X.feq(a[0], a[1])
    if op == 'eq': return X.eq(a[0], a[1])
    if op == 'ult': return X.ult(a[0], a[1])
    if op == 'slt': return X.slt(a[0], a[1], (n.a[0] if type(n.a[0]) is E else n.a[1]).w)
    if op == 'bits': return X.bits(a[0], w)
    if op == 'float': return X.tofloat(a[0], w)
    if op in ('sitofp', 'uitofp'): return getattr(X, op)(a[0], a[1], w)
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        f = {'add': X.add, 'mul': X.mul, 'and': X.and_, 'or': X.or_, 'xor': X.xor_}[op]
        if type(a[0]) is E or type(a[1]) is E: return f(a[0], a[1])
        m = X.M(w)
        return {'add': a[0]+a[1], 'mul': a[0]*a[1], 'and': a[0] & a[1], 'or': a[0] | a[1], 'xor': a[0] ^ a[1]}[op] & m
    if op == 'neg': return X.neg(a[0], w)
    if op == 'extract': return X.extract(a[0], a[1], a[2])
    if op == 'concat': return X.concat(*a)
    if op == 'zext': return X.zext(a[0], w)
    if op == 'sext': return X.sext(a[0], n.a[0].w, w)
    if op in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr'): return getattr(X, op)(a[0], a[1], w)
    return X.mk(op, tuple(a), n.k, w)

# ------------------------------------------------------------------ environment
BUILTINS = {}; OVERRIDE = {}; PREFIX = []
def builtin(*names):
    def d(f):
        for n in names: BUILTINS['@'+n] = f
        return f
    return d
def override(*names):
    def d(f):
        for n in names: OVERRIDE['@'+n] = f
        return f
    return d
def prefix(n):
    def d(f): PREFIX.append(('@'+n, f)); return f
    return d

# ---- harness API
@builtin('hs_f32')
def _(s, st, a): return s.input(st, cstr(st, a[0]).decode(), 'f', 32, a[1], a[2])
@builtin('hs_f64')
def _(s, st, a): return s.input(st, cstr(st, a[0]).decode(), 'f', 64, a[1], a[2])
@builtin('hs_bits')
def _(s, st, a):
    n = st.conc_arg(a[1]); v = s.input(st, cstr(st, a[0]).decode(), 'i', n)
    return X.zext(v, 64) if n < 64 else v
@builtin('hs_int')
def _(s, st, a):
    lo = X.sgn(a[1], 64); hi = X.sgn(a[2], 64)
    v = s.input(st, cstr(st, a[0]).decode(), 'i', 64, lo, hi)
    if type(v) is E:
        s.assume(st, X.sle(lo & X.M(64), v, 64)); s.assume(st, X.sle(v, hi & X.M(64), 64))
    return v
@builtin('hs_choose')
def _(s, st, a):
    n = st.conc_arg(a[1])
    e = st.ext.get('choose')
    if e is None:
        e = s.input(st, cstr(st, a[0]).decode(), 'i', 32, 0, n-1)
        if type(e) is not E: return e
        s.assume(st, X.ult(e, n)); st.ext['choose'] = Box(e)
    else: e = e.v
    v = st.conc_arg(e)
    del st.ext['choose']
    return v
class Box:
    def __init__(s, v): s.v = v
    def copy(s): return s
class Coro:
    """contexts of the simulated threads: they share one memory image"""
    def __init__(s): s.c = [None]; s.cur = 0
    def copy(s):
        n = Coro(); n.cur = s.cur
        n.c = [x and (list(x[0]), [(list(f[0]),)+f[1:] for f in x[1]], list(x[2]), x[3]) for x in s.c]
        return n
@builtin('hs_co_new')
def _(s, st, a):
    co = st.ext.get('co')
    if co is None: co = st.ext['co'] = Coro()
    f = s.fn_by_addr(st.conc_arg(a[0]))
    if f is None: raise EngineError('hs_co_new: not a function')
    keep = (st.r, st.stack, st.al)
    st.stack = []
    seg = s.begin(st, f, [a[1]])
    co.c.append((st.r, st.stack, st.al, seg))
    st.r, st.stack, st.al = keep
    return len(co.c)-1
@builtin('hs_co_switch')
def _(s, st, a):
    t = st.conc_arg(a[0]); co = st.ext.get('co')
    if co is None or not (0 <= t < len(co.c)): raise EngineError('hs_co_switch %r' % t)
    if t == co.cur: return None
    if co.c[t] is None: raise EngineError('hs_co_switch to a running context')
    return ('co_switch', t)
@builtin('hs_conc')
def _(s, st, a):
    """case-split on every value of an integer expression"""
    return st.conc_arg(a[0])
@builtin('hs_cfg')
def _(s, st, a): 
    i = st.conc_arg(a[0])
    return int(s.cfg[i]) & X.M(32) if i < len(s.cfg) else 0
@builtin('hs_assume')
def _(s, st, a):
    c = X.tobool(a[0])
    if type(c) is not E:
        if not c: raise PathEnd('assume')
        return
    s.flush(st)
    k = s.known(st, c)
    if k is False: raise PathEnd('assume')
    if s.S.feasible(st.pc, c, s.btimeout) == 'unsat': raise PathEnd('assume')
    s.assume(st, c)
@builtin('hs_chk')
def _(s, st, a): s.oblige(st, ('b', X.tobool(a[0]), cstr(st, a[1]).decode()))
@builtin('hs_near')
def _(s, st, a): s.oblige(st, ('n', a[0], a[1], a[2], cstr(st, a[3]).decode()))
@builtin('hs_near_at')
def _(s, st, a):
    xyz = [X.sgn(st.conc_arg(x), 32) for x in a[5:8]]
    s.oblige(st, ('n', a[0], a[1], a[2], ('%s:%s(%d,%d,%d)' % (cstr(st, a[3]).decode(), cstr(st, a[4]).decode(), *xyz)).replace(' ', '_')))
@builtin('hs_task')
def _(s, st, a):
    if s.race is not None: s.race_switch(st, X.sgn(st.conc_arg(a[0]), 32))
@builtin('hs_reach')
def _(s, st, a):
    l = cstr(st, a[0]).decode(); s.reached[l] = s.reached.get(l, 0)+1
@builtin('hs_expect_exit')
def _(s, st, a): st.expect_exit = st.conc_arg(a[0])
@builtin('hs_native')
def _(s, st, a): return 0
@builtin('hs_fork_bool')
def _(s, st, a): raise EngineError('hs_fork_bool')
@builtin('hs_obj_size')
def _(s, st, a):
    p = st.conc_arg(a[0]); o = st.mem.get(p >> 32)
    return -1 & X.M(64) if o is None or o.freed else o.size-((p & 0xffffffff)-BASE)
@builtin('hs_is_freed')
def _(s, st, a):
    p = st.conc_arg(a[0]); o = st.mem.get(p >> 32)
    return int(o is None or o.freed)
@builtin('hs_note')
def _(s, st, a): s.notes[cstr(st, a[0]).decode()] = s.notes.get(cstr(st, a[0]).decode(), 0)+1

# ---- logging and termination
@override('_Z10log_printfPKcz', 'log_printf')
def _(s, st, a):
    st.ext['nlog'] = st.ext.get('nlog', 0)+1
    try: st.ext['lastlog'] = (st.ext.get('lastlog', '')+fmt(s, st, cstr(st, a[0]), a[1:]).decode('latin1').strip())[-300:]
    except Exception: pass
    return 0
@builtin('hs_name')
def _(s, st, a):
    if s.mode == 'R' and type(a[0]) is E: s.S.pctx.name(a[0])
@builtin('hs_lemma')
def _(s, st, a):
    if s.mode == 'R' and type(a[0]) is E and s.concrete is None: s.S.pctx.lemma(a[0], a[1])
@builtin('hs_sampled')
def _(s, st, a): return 1 if s.concrete is not None else 0
@builtin('hs_nlog')
def _(s, st, a): return st.ext.get('nlog', 0)
@override('_nanodelay', 'hs_nothing')
def _(s, st, a): return 0
@builtin('exit', '_exit', 'abort', '_ZSt9terminatev', '__assert_fail', 'MPI_Abort', '__cxa_pure_virtual')
def _(s, st, a): raise PathEnd('exit', 'exit')
@builtin('printf', 'puts', 'putchar', 'fflush', 'vprintf', 'perror', 'fwrite_unlocked', 'setvbuf', 'usleep', 'sleep', 'nanosleep', 'sched_yield')
def _(s, st, a): return 0
@builtin('__cxa_atexit', 'atexit', '__cxa_guard_release', '__cxa_guard_abort', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', 'signal', 'sync')
def _(s, st, a): return 0
@builtin('__cxa_guard_acquire')
def _(s, st, a):
    p = st.conc_arg(a[0])
    if ld_i(st, p, 1): return 0
    st_(st, p, 1, 1); return 1
@builtin('getenv')
def _(s, st, a): return 0
@builtin('time', 'clock')
def _(s, st, a): return 1000
@builtin('clock_gettime', 'gettimeofday')
def _(s, st, a):
    p = st.conc_arg(a[1] if True and len(a) > 1 and a[0] in (0, 1, 2, 3, 4) else a[0])
    if p: mem_set(st, p, 0, 16)
    return 0
@builtin('__errno_location')
def _(s, st, a):
    p = st.ext.get('errno')
    if p is None: p = st.ext['errno'] = st.alloc(8, 'errno', 0)
    return p
# ---- memory
def do_malloc(s, st, n, fill=None, name='heap'):
    n = st.conc_arg(n)
    if n > 1 << 28: raise PathEnd('exit', 'allocation of %d bytes' % n)
    st.names['malloc'] = k = st.names.get('malloc', 0)+1
    return st.alloc(n, '%s%d' % (name, k), fill)
@builtin('malloc', '_Znwm', '_Znam', 'valloc')
def _(s, st, a): return do_malloc(s, st, a[0])
@builtin('calloc')
def _(s, st, a): return do_malloc(s, st, st.conc_arg(a[0])*st.conc_arg(a[1]), 0)
@builtin('posix_memalign')
def _(s, st, a): st_(st, st.conc_arg(a[0]), 8, do_malloc(s, st, a[2])); return 0
@builtin('realloc')
def _(s, st, a):
    p = st.conc_arg(a[0]); q = do_malloc(s, st, a[1])
    if p:
        o = st.mem.get(p >> 32); mem_copy(st, q, p, min(o.size, st.conc_arg(a[1])))
        st.wobj(p >> 32).freed = True
    return q
@builtin('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def _(s, st, a):
    p = st.conc_arg(a[0])
    if p == 0: return
    o = st.mem.get(p >> 32)
    if o is None or (p & 0xffffffff) != BASE: raise MemFault('free of bad pointer '+N.where(st, p, 0))
    if o.freed: raise MemFault('double free '+N.where(st, p, 0))
    o = st.wobj(p >> 32); o.freed = True; o.cells = {}
@prefix('llvm.memcpy')
def _memcpy(s, st, a):
    n = st.conc_arg(a[2]); d = st.conc_arg(a[0]); q = st.conc_arg(a[1])
    mem_copy(st, d, q, n); return d
PREFIX.append(('@llvm.memmove', _memcpy)); BUILTINS['@memcpy'] = _memcpy; BUILTINS['@memmove'] = _memcpy
@prefix('llvm.memset')
def _memset(s, st, a):
    n = st.conc_arg(a[2]); d = st.conc_arg(a[0]); mem_set(st, d, a[1], n); return d
BUILTINS['@memset'] = _memset
@builtin('memcmp', 'bcmp')
def _(s, st, a):
    n = st.conc_arg(a[2]); p = st.conc_arg(a[0]); q = st.conc_arg(a[1])
    r = 0
    for i in reversed(range(n)):
        x = ld_i(st, p+i, 1); y = ld_i(st, q+i, 1)
        if type(x) is int and type(y) is int:
            if x != y: r = 1 if x > y else X.M(32)
        else: r = X.ite_k(X.eq(x, y), r, X.ite_k(X.ult(x, y), X.M(32), 1, 'i', 32), 'i', 32)
    return r
def _yes(st, c):
    """branch on a condition"""
    if type(c) is E: c = st.conc_arg(X.ite_k(c, 1, 0, 'i', 8))
    return bool(c)
def _len(st, p):
    """length of a string (branching on where symbolic text ends)"""
    i = 0
    while i < 4096:
        b = ld_i(st, p+i, 1)
        if _yes(st, X.eq(b, 0)): return i
        i += 1
    raise EngineError('string too long')
@builtin('strlen')
def _(s, st, a): return _len(st, st.conc_arg(a[0]))
def _strcmp(s, st, a, n):
    p = st.conc_arg(a[0]); q = st.conc_arg(a[1]); i = 0; c = []
    while i < n and i < 4096:
        x = ld_i(st, p+i, 1); y = ld_i(st, q+i, 1); c.append((x, y)); i += 1
        if type(x) is int and (x == 0 or type(y) is int and x != y) or type(y) is int and y == 0: break
    r = 0
    for x, y in reversed(c):
        if type(x) is int and type(y) is int:
            if x != y: r = 1 if x > y else X.M(32)
            elif x == 0: r = 0
        else:
            same = r if type(x) is int and x or type(y) is int and y else X.ite_k(X.eq(x, 0), 0, r, 'i', 32)
            r = X.ite_k(X.eq(x, y), same, X.ite_k(X.ult(x, y), X.M(32), 1, 'i', 32), 'i', 32)
    return r
@builtin('strcmp')
def _(s, st, a): return _strcmp(s, st, a, 1 << 20)
@builtin('strncmp')
def _(s, st, a): return _strcmp(s, st, a, st.conc_arg(a[2]))
@builtin('strcpy')
def _(s, st, a): b = cstr(st, st.conc_arg(a[1])); put_bytes(st, st.conc_arg(a[0]), b+b'\0'); return a[0]
@builtin('strcat')
def _(s, st, a):
    b = cstr(st, st.conc_arg(a[1])); d = st.conc_arg(a[0]); l = len(cstr(st, d)); put_bytes(st, d+l, b+b'\0'); return d
@builtin('strncpy')
def _(s, st, a):
    n = st.conc_arg(a[2]); b = cstr(st, st.conc_arg(a[1]))[:n]; b = b+b'\0'*(n-len(b)); put_bytes(st, st.conc_arg(a[0]), b); return a[0]
@builtin('strdup')
def _(s, st, a):
    b = cstr(st, st.conc_arg(a[0])); p = do_malloc(s, st, len(b)+1); put_bytes(st, p, b+b'\0'); return p
@builtin('strchr')
def _(s, st, a):
    p = st.conc_arg(a[0]); c = st.conc_arg(a[1]) & 255
    for i in range(4096):
        x = ld_i(st, p+i, 1)
        if _yes(st, X.eq(x, c)): return p+i
        if _yes(st, X.eq(x, 0)): return 0
    raise EngineError('string too long')
@builtin('strstr')
def _(s, st, a):
    p = st.conc_arg(a[0]); q = st.conc_arg(a[1]); n = _len(st, p); m = _len(st, q)
    for i in range(n-m+1):
        if _yes(st, X.band(*[X.eq(ld_i(st, p+i+k, 1), ld_i(st, q+k, 1)) for k in range(m)])): return p+i
    return 0
@builtin('memchr')
def _(s, st, a):
    p = st.conc_arg(a[0]); c = st.conc_arg(a[1]) & 255; n = st.conc_arg(a[2])
    for i in range(n):
        x = ld_i(st, p+i, 1)
        if _yes(st, X.eq(x, c)): return p+i
    return 0
def fmt(s, st, f, args):
    out = b''; i = 0; ai = 0
    for m in re.finditer(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|L|j)?([diuxXcsfgeGEp%])|[^%]+', f):
        t = m.group(0)
        if m.group(5) is None: out += t; continue
        if m.group(5) == b'%': out += b'%'; continue
        v = args[ai]; ai += 1
        if type(v) is E: v = st.conc_arg(v) if v.k == 'i' else 0.0
        spec = (m.group(1) or b'')+(m.group(2) or b'')+(b'.'+m.group(3) if m.group(3) else b'')
        c = m.group(5); w = 64 if m.group(4) in (b'l', b'll', b'z', b'j') else 32
        if c in b'di': v = X.sgn(v & X.M(w), w); c = b'd'
        elif c in b'uxX': v = v & X.M(w); c = b'd' if c == b'u' else c
        elif c == b's': v = cstr(st, v)
        elif c == b'p': v = '0x%x' % v; v = v.encode(); c = b's'
        elif c == b'c': v = v & 255
        out += (b'%'+spec+c) % v
    return out
@builtin('sprintf')
def _(s, st, a):
    b = fmt(s, st, cstr(st, st.conc_arg(a[1])), a[2:]); put_bytes(st, st.conc_arg(a[0]), b+b'\0'); return len(b)
@builtin('snprintf')
def _(s, st, a):
    b = fmt(s, st, cstr(st, st.conc_arg(a[2])), a[3:]); n = st.conc_arg(a[1])
    if n: put_bytes(st, st.conc_arg(a[0]), b[:n-1]+b'\0')
    return len(b)
@builtin('atoi')
def _(s, st, a):
    m = re.match(rb'\s*[-+]?\d+', cstr(st, st.conc_arg(a[0]))); return int(m.group(0)) & X.M(32) if m else 0
@builtin('atof')
def _(s, st, a):
    m = re.match(rb'\s*[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', cstr(st, st.conc_arg(a[0])))
    try: return float(m.group(0))
    except ValueError: return 0.0
@builtin('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll', 'strtoul', '__isoc23_strtoul')
def _(s, st, a):
    p = st.conc_arg(a[0]); b = cstr(st, p); base = st.conc_arg(a[2])
    m = re.match(rb'\s*[-+]?(0[xX][0-9a-fA-F]+|\d+)', b) if base in (0, 16) else re.match(rb'\s*[-+]?\d+', b)
    if base not in (0, 10, 16): raise EngineError('strtol base %d' % base)
    v = 0
    if m:
        t = m.group(0).decode().strip(); neg = t.startswith('-'); t = t.lstrip('+-')
        v = int(t, 16) if t[:2].lower() == '0x' or base == 16 else int(t, 8) if base == 0 and t.startswith('0') and len(t) > 1 else int(t)
        v = max(-(1 << 63), min((1 << 63)-1, -v if neg else v))
    e = st.conc_arg(a[1])
    if e: st_(st, e, 8, p+(m.end() if m else 0))
    return v & X.M(64)
@builtin('strtod', '__isoc23_strtod')
def _(s, st, a):
    p = st.conc_arg(a[0]); b = cstr(st, p)
    m = re.match(rb'\s*[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', b)
    e = st.conc_arg(a[1])
    if e: st_(st, e, 8, p+(m.end() if m else 0))
    return float(m.group(0)) if m else 0.0
# ---- math
def _m(name, w, fn):
    BUILTINS['@'+name] = fn
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'exp2', 'log2', 'log10', 'pow', 'atan2', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'cbrt', 'erf', 'hypot'):
    BUILTINS['@'+_n] = (lambda n: lambda s, st, a: X.ffn(n, tuple(a), 64))(_n)
    BUILTINS['@'+_n+'f'] = (lambda n: lambda s, st, a: X.ffn(n, tuple(a), 32))(_n)
for _n in ('floor', 'ceil', 'trunc', 'rint', 'round'):
    def _mkr(n):
        def f(s, st, a):
            if type(a[0]) is E: return X.ffn(n, (a[0],), a[0].w)
            return float(getattr(math, n)(a[0])) if n != 'rint' and n != 'round' else float(round(a[0])) if n == 'rint' else math.copysign(math.floor(abs(a[0])+0.5), a[0])
        return f
    BUILTINS['@'+_n] = _mkr(_n); BUILTINS['@'+_n+'f'] = _mkr(_n)
@builtin('sqrtf')
def _(s, st, a): return X.fsqrt(a[0], 32)
@builtin('sqrt')
def _(s, st, a): return X.fsqrt(a[0], 64)
@builtin('fabs', 'fabsf')
def _(s, st, a): return X.fabs(a[0], a[0].w if type(a[0]) is E else 64)
@builtin('fmod')
def _(s, st, a): return X.frem(a[0], a[1], 64)
@builtin('copysignf')
def _(s, st, a): return N.INLINE['llvm.copysign'](st, 32, a[0], a[1])
@builtin('copysign')
def _(s, st, a): return N.INLINE['llvm.copysign'](st, 64, a[0], a[1])
@builtin('fmaxf', 'fmax')
def _(s, st, a): return N.sel_(X.flt(a[0], a[1]), a[1], a[0], 'f', 64)
@builtin('fminf', 'fmin')
def _(s, st, a): return N.sel_(X.flt(a[0], a[1]), a[0], a[1], 'f', 64)
@builtin('isnan')
def _(s, st, a): return int(a[0] != a[0]) if type(a[0]) is not E else 0
@builtin('omp_get_num_threads', 'omp_get_max_threads')
def _(s, st, a): return 1
@builtin('omp_get_thread_num', 'omp_set_num_threads')
def _(s, st, a): return 0
@builtin('qsort')
def _(s, st, a):
    # comparator-driven insertion sort is not needed symbolically: provided by the harness when required
    raise EngineError('qsort')

# ---- files (kept in memory; nothing is ever written to the real file system)
FCAP = 1 << 22
def _fs(st): return st.ext.setdefault('fs', {})
def _fd(st): return st.ext.setdefault('fd', {})
@builtin('fopen', 'fopen64')
def _(s, st, a):
    name = cstr(st, st.conc_arg(a[0])); mode = cstr(st, st.conc_arg(a[1])).replace(b'b', b''); fs = _fs(st)
    if mode[:1] == b'r':
        if name not in fs: return 0
    elif mode[:1] in (b'w', b'a'):
        if not _indir(st, name): return 0
        if mode[:1] == b'w' or name not in fs: fs[name] = (st.alloc(FCAP, 'file:'+name.decode('latin1'), 0) >> 32, 0)
    else: return 0
    h = st.alloc(16, 'FILE', 0)
    _fd(st)[h] = (name, fs[name][1] if mode[:1] == b'a' else 0, mode)
    return h
def _handle(st, p):
    p = st.conc_arg(p); f = _fd(st).get(p)
    if f is None: raise MemFault('use of a file that is not open')
    return p, f
def fwrite_(s, st, p, src, n):
    h, (name, pos, mode) = _handle(st, p)
    if mode == b'r': return 0
    o, ln = _fs(st)[name]
    if mode[:1] == b'a': pos = ln
    if pos+n > FCAP: raise EngineError('file larger than the model')
    if n:
        if type(src) is bytes: put_bytes(st, (o << 32)+BASE+pos, src)
        else: mem_copy(st, (o << 32)+BASE+pos, src, n)
    pos += n; _fs(st)[name] = (o, max(ln, pos)); _fd(st)[h] = (name, pos, mode)
    return n
@builtin('fwrite')
def _(s, st, a):
    sz = st.conc_arg(a[1]); n = st.conc_arg(a[2]); h = st.conc_arg(a[3])
    if h not in _fd(st): return n                            # terminal
    if st.ext.get('wfail') and sz*n:
        return 0
    return n if sz*n == 0 else n if fwrite_(s, st, h, st.conc_arg(a[0]), sz*n) else 0
@builtin('fread')
def _(s, st, a):
    d = st.conc_arg(a[0]); sz = st.conc_arg(a[1]); n = st.conc_arg(a[2]); h, (name, pos, mode) = _handle(st, a[3])
    if sz*n == 0 or mode in (b'w', b'a'): return 0
    o, ln = _fs(st)[name]; k = max(0, min(sz*n, ln-pos))
    if k: mem_copy(st, d, (o << 32)+BASE+pos, k)
    _fd(st)[h] = (name, pos+k, mode)
    return k//sz
@builtin('fclose')
def _(s, st, a):
    h, f = _handle(st, a[0]); del _fd(st)[h]; st.wobj(h >> 32).freed = True
    return 0
@builtin('fseek', 'fseeko')
def _(s, st, a):
    h, (name, pos, mode) = _handle(st, a[0]); off = X.sgn(st.conc_arg(a[1]), 64); wh = st.conc_arg(a[2])
    p = off+(0 if wh == 0 else pos if wh == 1 else _fs(st)[name][1])
    if p < 0: return X.M(32)
    _fd(st)[h] = (name, p, mode); return 0
@builtin('ftell', 'ftello')
def _(s, st, a): return _handle(st, a[0])[1][1]
@builtin('fputc', 'putc', '_IO_putc')
def _(s, st, a):
    h = st.conc_arg(a[1])
    if h not in _fd(st): return a[0]
    v = X.extract(X.asint(a[0], 32), 7, 0) if type(a[0]) is E else a[0] & 255
    t = st.alloc(1, 'char', 0); st_(st, t, 1, v)
    return a[0] if fwrite_(s, st, h, t, 1) else X.M(32)
@builtin('fgetc', 'getc', '_IO_getc')
def _(s, st, a):
    h, (name, pos, mode) = _handle(st, a[0]); o, ln = _fs(st)[name]
    if pos >= ln or mode in (b'w', b'a'): return X.M(32)
    _fd(st)[h] = (name, pos+1, mode); v = ld_i(st, (o << 32)+BASE+pos, 1)
    return X.zext(v, 32) if type(v) is E else v
@builtin('remainder')
def _(s, st, a):
    if type(a[0]) is E or type(a[1]) is E: raise EngineError('remainder of symbolic values')
    return math.remainder(float(a[0]), float(a[1]))
@builtin('rewind')
def _(s, st, a): h, (name, pos, mode) = _handle(st, a[0]); _fd(st)[h] = (name, 0, mode)
@builtin('feof', 'ferror')
def _(s, st, a): _handle(st, a[0]); return 0
@builtin('remove', 'unlink')
def _(s, st, a): return 0 if _fs(st).pop(cstr(st, st.conc_arg(a[0])), None) is not None else X.M(32)
def _dirs(st): return st.ext.setdefault('dirs', {b'': 1, b'.': 1, b'/scratch': 1})
def _indir(st, name): return name.rpartition(b'/')[0].rstrip(b'/') in _dirs(st)
@builtin('mkdir')
def _(s, st, a):
    name = cstr(st, st.conc_arg(a[0])).rstrip(b'/')
    if name in _dirs(st) or name in _fs(st) or not _indir(st, name): return X.M(32)
    _dirs(st)[name] = 1; return 0
@builtin('getcwd')
def _(s, st, a): put_bytes(st, st.conc_arg(a[0]), b'/scratch\0'); return a[0]
def _fprint(s, st, h, f, args):
    h = st.conc_arg(h)
    if h not in _fd(st): return 0
    if any(type(v) is E and v.k == 'f' for v in args): raise EngineError('symbolic value printed to a text file')
    b = fmt(s, st, cstr(st, st.conc_arg(f)), args); fwrite_(s, st, h, b, len(b)); return len(b)
@builtin('fprintf')
def _(s, st, a): return _fprint(s, st, a[0], a[1], a[2:])
@builtin('fputs')
def _(s, st, a):
    h = st.conc_arg(a[1])
    if h in _fd(st): b = cstr(st, st.conc_arg(a[0])); fwrite_(s, st, h, b, len(b))
    return 1
@prefix('llvm.va_start')
def _(s, st, a):
    k = st.ext['va_n'] = st.ext.get('va_n', 0)+1; st.ext['va%d' % k] = tuple(st.ext.get('varargs', ())); st_(st, st.conc_arg(a[0]), 8, k)
@prefix('llvm.va_copy')
def _(s, st, a): st_(st, st.conc_arg(a[0]), 8, ld_i(st, st.conc_arg(a[1]), 8))
def va_args(st, p): return st.ext['va%d' % st.conc_arg(ld_i(st, st.conc_arg(p), 8))]
@builtin('vfprintf')
def _(s, st, a): return _fprint(s, st, a[0], a[1], va_args(st, a[2])) if st.conc_arg(a[0]) in _fd(st) else 0
@builtin('vsprintf')
def _(s, st, a): b = fmt(s, st, cstr(st, st.conc_arg(a[1])), va_args(st, a[2])); put_bytes(st, st.conc_arg(a[0]), b+b'\0'); return len(b)
@builtin('vsnprintf')
def _(s, st, a):
    b = fmt(s, st, cstr(st, st.conc_arg(a[2])), va_args(st, a[3])); n = st.conc_arg(a[1])
    if n: put_bytes(st, st.conc_arg(a[0]), b[:n-1]+b'\0')
    return len(b)
# ---- symbol table: functions with external linkage, as exported by -rdynamic
@builtin('dlerror')
def _(s, st, a): p = st.ext.get('dlerr', 0); st.ext['dlerr'] = 0; return p
@builtin('dladdr')
def _(s, st, a):
    p = st.conc_arg(a[0]); d = st.conc_arg(a[1]); x = s.L.faddr.get(p)
    for i in range(4): st_(st, d+8*i, 8, 0)
    nm = None
    if x and x[0] == 'f' and s.L.key(x[1], x[2]) == x[2]: nm = x[2].lstrip('@').strip('"').encode()
    q = st.alloc(16, 'dli_fname', 0); put_bytes(st, q, b'./vpic\0'); st_(st, d, 8, q)
    if nm: q = st.alloc(len(nm)+1, 'dli_sname', 0); put_bytes(st, q, nm+b'\0'); st_(st, d+16, 8, q); st_(st, d+24, 8, p)
    return 1
@builtin('dlsym')
def _(s, st, a):
    nm = '@'+cstr(st, st.conc_arg(a[1])).decode('latin1')
    p = s.L.exported(nm)
    if p is None:
        if 'dlmsg' not in st.ext: st.ext['dlmsg'] = st.alloc(16, 'dlerror', 0); put_bytes(st, st.ext['dlmsg'], b'undefined\0')
        st.ext['dlerr'] = st.ext['dlmsg']; return 0
    return p
