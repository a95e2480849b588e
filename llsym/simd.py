"""Models of the x86 vector intrinsics that survive in the IR.

rsqrtps/rcpps are approximations in hardware; the sources refine them with a Newton step.  In exact-real mode they
are taken as the exact reciprocal (square root): the approximation error is part of the excluded rounding error."""
import math
import expr as X
from expr import E
from engine import intrin, EngineError
def _err(st, v, rel):
    """With the job option approx the hardware's relative error is a free symbol within its documented bound."""
    if not st.eng.approx or st.eng.concrete is not None: return v
    e = st.eng.input(st, 'approx error', 'f', 64, -rel, rel)
    return X.fmul(v, X.fadd(e, 1.0, 64), 64)
def _rcp(st, a, rel):
    if type(a) is E:
        if X.MODE != 'R': raise EngineError('approximate reciprocal in IEEE mode')
        return _err(st, X.fdiv(1.0, a, 32), rel)
    return X.cdiv(1.0, a, 32)
def _rsqrt(st, a, rel):
    if type(a) is E:
        if X.MODE != 'R': raise EngineError('approximate reciprocal root in IEEE mode')
        return _err(st, X.fdiv(1.0, X.fsqrt(a, 32), 32), rel)
    return X.r32(1/math.sqrt(a)) if a > 0 else (math.inf if a == 0 else math.nan)
E12, E14 = 1.5*2.0**-12, 2.0**-14
@intrin('llvm.x86.sse.rcp.ps', 'llvm.x86.avx.rcp.ps.256')
def _(st, w, a): return tuple(_rcp(st, X.asflt(x, 32), E12) for x in a)
@intrin('llvm.x86.sse.rsqrt.ps', 'llvm.x86.avx.rsqrt.ps.256')
def _(st, w, a): return tuple(_rsqrt(st, X.asflt(x, 32), E12) for x in a)
@intrin('llvm.x86.avx512.rcp14.ps.512')
def _(st, w, a, src, m): return tuple(_rcp(st, X.asflt(x, 32), E14) if m >> i & 1 else src[i] for i, x in enumerate(a))
@intrin('llvm.x86.avx512.rsqrt14.ps.512')
def _(st, w, a, src, m): return tuple(_rsqrt(st, X.asflt(x, 32), E14) if m >> i & 1 else src[i] for i, x in enumerate(a))
