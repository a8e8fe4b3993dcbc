"""Models of compiler intrinsics, allocation and libm functions (part of the trusted base)."""
import re
from fractions import Fraction
import z3
from terms import *
from execir import Result, Unsupported, Infeasible

# libm functions: uninterpreted with the algebraic facts listed here
UF1 = {n: z3.Function("m_" + n, z3.RealSort(), z3.RealSort()) for n in ("exp", "log", "sqrt", "erfc", "erf", "sinh", "cosh", "asinh", "floor", "ceil", "sin", "cos", "tan", "tanh", "round", "atan", "cbrt", "lgamma")}
POW = z3.Function("m_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
AXIOMS_USED = set()


def ret(st, v=None):
    return [Result(st, "ret", v)]


def rabs(x):
    return abs(x) if is_frac(x) else z3.If(rz(x) >= 0, rz(x), -rz(x))


def m_exp(ex, st, x):
    if is_frac(x) and x == 0:
        return Fraction(1)
    r = UF1["exp"](rz(x))
    AXIOMS_USED.add("exp(x) > 0")
    st.assume(r > 0)
    return r


def m_log(ex, st, x):
    if is_frac(x) and x == 1:
        return Fraction(0)
    return UF1["log"](rz(x))


def m_sqrt(ex, st, x):
    if is_frac(x) and x in (0, 1):
        return x
    r = UF1["sqrt"](rz(x))
    AXIOMS_USED.add("x >= 0 implies sqrt(x) >= 0 and sqrt(x)^2 = x")
    st.assume(z3.Implies(rz(x) >= 0, z3.And(r >= 0, r * r == rz(x))))
    return r


def math1(name):
    def h(ex, st, a, i, dem):
        x = a[0]
        if isinstance(x, Undef):
            return ret(st, UNDEF)
        if name == "exp":
            return ret(st, m_exp(ex, st, x))
        if name == "log":
            return ret(st, m_log(ex, st, x))
        if name == "sqrt":
            return ret(st, m_sqrt(ex, st, x))
        if name == "floor":
            return ret(st, z3.ToReal(z3.ToInt(rz(x))))
        if name == "ceil":
            return ret(st, -z3.ToReal(z3.ToInt(-rz(x))))
        return ret(st, UF1[name](rz(x)))
    return h


def h_new(ex, st, a, i, dem):
    o = ex.new_obj(st, "heap@" + ex.loc(i), a[0])
    if not P(a[0]).is_const():
        g = P(a[0]).coef_gcd()
        c = P(a[0]).c()
        if g and c % g == 0:
            pass
    return ret(st, Ptr(o.id, 0))


def h_delete(ex, st, a, i, dem):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None and not isinstance(p.obj, tuple) and p.obj in st.heap:
        o = st.own(p.obj)
        o.live = False
    return ret(st)


def h_memcpy(ex, st, a, i, dem):
    ex.memcpy(st, a[0], a[1], a[2], i)
    return ret(st, a[0])


def h_memset(ex, st, a, i, dem):
    ex.memset(st, a[0], a[1], a[2], i)
    return ret(st, a[0])


def h_noop(ex, st, a, i, dem):
    return ret(st, Poly.const(0) if i["t"] != "void" else None)


def h_throw(ex, st, a, i, dem):
    return [Result(st, "throw", None, ex.loc(i))]


def h_guard(ex, st, a, i, dem):
    return ret(st, Poly.const(1))


def minmax(signed, mx):
    def h(ex, st, a, i, dem):
        w = int(i["t"][1:])
        f = ex.sgn if signed else ex.uns
        c = icmp("ge" if mx else "le", f(st, a[0], w), f(st, a[1], w))
        return ret(st, ite(as_bool(c), a[0], a[1]))
    return h


def h_abs(ex, st, a, i, dem):
    return ret(st, ite(as_bool(icmp("ge", a[0], 0)), a[0], a[0].scale(-1)))


def h_fabs(ex, st, a, i, dem):
    return ret(st, rabs(a[0]))


def h_fmul(ex, st, a, i, dem):
    return ret(st, radd(rmul(a[0], a[1]), a[2]))


def h_fminmax(mx):
    def h(ex, st, a, i, dem):
        return ret(st, ite(as_bool(rcmp("ge" if mx else "le", a[0], a[1])), a[0], a[1]))
    return h


def h_pow(ex, st, a, i, dem):
    x, y = a
    if is_frac(y) and y.denominator == 1 and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)):
            r = rmul(r, x)
        return ret(st, r)
    return ret(st, POW(rz(x), rz(y)))


def h_isfinite(ex, st, a, i, dem):
    return ret(st, False)


def h_copysign(ex, st, a, i, dem):
    x = rabs(a[0])
    return ret(st, ite(as_bool(rcmp("ge", a[1], Fraction(0))), x, -rz(x)))


def h_isconst(ex, st, a, i, dem):
    return ret(st, False)


def h_expect(ex, st, a, i, dem):
    return ret(st, a[0])


def h_fill(ex, st, a, i, dem):
    if not (isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj == a[1].obj):
        return None
    v = ex.load(st, a[2], "f64", i)
    ln = a[1].off.add(a[0].off, -1).div_exact(8)
    if ln is None or (a[0].obj is not None and st.heap[a[0].obj].rowlen is not None):
        return None
    ex.fill_range(st, a[0], ln, "f64", lambda k: v, i)
    return ret(st)


def R(x):
    return re.compile(x)


STD = [
    (R(r"std::__fill_a1<double\*, double>"), h_fill),
    (R(r"^_Znwm$|^_Znam$|^_ZnwmSt11align_val_t$"), h_new),
    (R(r"^_ZdlPv|^_ZdaPv"), h_delete),
    (R(r"^llvm\.threadlocal\.address"), lambda ex, st, a, i, dem: [Result(st, "ret", a[0])]),
    (R(r"^llvm\.mem(cpy|move)"), h_memcpy),
    (R(r"^memmove$|^memcpy$"), h_memcpy),
    (R(r"^llvm\.memset"), h_memset),
    (R(r"^llvm\.(lifetime|dbg|assume|invariant|stacksave|stackrestore)"), h_noop),
    (R(r"^__cxa_throw$|^__cxa_rethrow$|^_ZSt\d+__throw_|^_ZSt9terminatev|^__clang_call_terminate|^abort$|^__assert_fail|^__cxa_pure_virtual|^_ZSt21__glibcxx_assert_fail"), h_throw),
    (R(r"^__cxa_guard_acquire$"), h_guard),
    (R(r"^__cxa_guard_(release|abort)$|^__cxa_atexit$|^__cxa_(begin|end)_catch"), h_noop),
    (R(r"^llvm\.smax"), minmax(True, True)), (R(r"^llvm\.smin"), minmax(True, False)),
    (R(r"^llvm\.umax"), minmax(False, True)), (R(r"^llvm\.umin"), minmax(False, False)),
    (R(r"^llvm\.abs"), h_abs), (R(r"^llvm\.fabs|^fabs$"), h_fabs),
    (R(r"^llvm\.fmuladd|^llvm\.fma"), h_fmul),
    (R(r"^llvm\.maxnum|^fmax$"), h_fminmax(True)), (R(r"^llvm\.minnum|^fmin$"), h_fminmax(False)),
    (R(r"^llvm\.pow|^pow$"), h_pow), (R(r"^llvm\.copysign"), h_copysign),
    (R(r"^llvm\.is\.constant"), h_isconst), (R(r"^llvm\.expect"), h_expect),
    (R(r"^llvm\.is\.fpclass"), h_isfinite),
] + [(R(r"^(llvm\.)?%s(\.f64)?$" % n), math1(n)) for n in UF1]

# Notes attached to exceptions: bookkeeping with no effect on results
XSTACK = [(R(r"Dal::exception::XStackInfo_::XStackInfo_|Dal::exception::XStackInfo_::~XStackInfo_|Dal::exception::(Push|Pop)Stack|XStackInfo_|exception::StackRegister|exception::"), h_noop)]
