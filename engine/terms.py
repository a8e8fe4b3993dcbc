"""Term layer: integer polynomials over z3 atoms, reals, booleans, pointers."""
from fractions import Fraction
from math import gcd
import z3

_atoms = {}          # id -> z3 Int expression (kept alive so ids stay unique)
_pcache = {}         # z3 id -> Poly
_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


def fresh_counter():
    return _fresh[0]


def fresh_numbers(e, limit=400):
    """numbers of the fresh symbols in e"""
    out, stack, seen = [], [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
            if "!" in n:
                try:
                    out.append(int(n.rsplit("!", 1)[1]))
                except ValueError:
                    pass
            stack.extend(x.children())
    return out


def reset_names():
    _fresh[0] = 0


class Poly:
    """Integer polynomial: {monomial(tuple of atom ids, sorted): coefficient}."""
    __slots__ = ("m", "_z")

    def __init__(self, m):
        self.m = m
        self._z = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def c(self):
        return self.m.get((), 0)

    def add(self, o, k=1):
        r = dict(self.m)
        for a, b in o.m.items():
            v = r.get(a, 0) + k * b
            if v:
                r[a] = v
            elif a in r:
                del r[a]
        return Poly(r)

    def mul(self, o):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b))
                v = r.get(k, 0) + x * y
                if v:
                    r[k] = v
                elif k in r:
                    del r[k]
        return Poly(r)

    def scale(self, k):
        return Poly({a: b * k for a, b in self.m.items()} if k else {})

    def key(self):
        return tuple(sorted(self.m.items()))

    def same(self, o):
        return self.m == o.m

    def div_exact(self, k):
        """self / k when every coefficient is divisible, else None."""
        if any(b % k for b in self.m.values()):
            return None
        return Poly({a: b // k for a, b in self.m.items()})

    def coef_gcd(self):
        g = 0
        for a, b in self.m.items():
            if a != ():
                g = gcd(g, abs(b))
        return g

    def z(self):
        if self._z is None:
            t = []
            for a, b in sorted(self.m.items()):
                if a == ():
                    t.append(z3.IntVal(b))
                    continue
                e = _atoms[a[0]]
                for i in a[1:]:
                    e = e * _atoms[i]
                t.append(e if b == 1 else b * e)
            self._z = z3.IntVal(0) if not t else (t[0] if len(t) == 1 else z3.Sum(t))
        return self._z

    def __repr__(self):
        return "P(%s)" % self.z()


def atom(e):
    i = e.get_id()
    _atoms[i] = e
    return Poly({(i,): 1})


def P(x):
    """Anything integer -> Poly."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    i = x.get_id()
    r = _pcache.get(i)
    if r is not None:
        return r[1]
    if z3.is_int_value(x):
        p = Poly.const(x.as_long())
    elif z3.is_add(x):
        p = Poly({})
        for ch in x.children():
            p = p.add(P(ch))
    elif z3.is_sub(x):
        ch = x.children()
        p = P(ch[0])
        for q in ch[1:]:
            p = p.add(P(q), -1)
    elif z3.is_mul(x):
        p = Poly.const(1)
        for ch in x.children():
            p = p.mul(P(ch))
    elif x.decl().kind() == z3.Z3_OP_UMINUS:
        p = P(x.children()[0]).scale(-1)
    else:
        p = atom(x)
    _pcache[i] = (x, p)
    return p


def Z(x):
    """Anything -> z3 expression (int / real / bool)."""
    if isinstance(x, Poly):
        return x.z()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return x


def fint(base):
    return atom(z3.Int(fresh_name(base)))


def freal(base):
    return z3.Real(fresh_name(base))


# ---- reals -----------------------------------------------------------------
def rz(x):
    return Z(Fraction(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else Z(x)


def is_frac(x):
    return isinstance(x, Fraction)


def radd(a, b):
    if is_frac(a) and is_frac(b):
        return a + b
    if is_frac(a) and a == 0:
        return b
    if is_frac(b) and b == 0:
        return a
    return rz(a) + rz(b)


def rsub(a, b):
    if is_frac(a) and is_frac(b):
        return a - b
    if is_frac(b) and b == 0:
        return a
    if is_frac(a) and a == 0:
        return -rz(b)
    return rz(a) - rz(b)


def rmul(a, b):
    if is_frac(a) and is_frac(b):
        return a * b
    if is_frac(a) and a == 0 or is_frac(b) and b == 0:
        return Fraction(0)
    if is_frac(a) and a == 1:
        return b
    if is_frac(b) and b == 1:
        return a
    return rz(a) * rz(b)


def rdiv(a, b):
    if is_frac(a) and is_frac(b) and b != 0:
        return a / b
    if is_frac(b) and b == 1:
        return a
    if is_frac(b) and b != 0:
        return rz(a) * rz(Fraction(1) / b)
    return rz(a) / rz(b)


# ---- booleans --------------------------------------------------------------
def bnot(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def implies(a, b):
    return bor(bnot(a), b)


def bz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def as_bool(x):
    """Fold trivially true/false z3 booleans."""
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def icmp(op, a, b):
    a, b = P(a), P(b)
    d = a.add(b, -1)
    if d.is_const():
        v = d.c()
        return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]
    x, y = a.z(), b.z()
    return {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
            "gt": lambda: x > y, "ge": lambda: x >= y}[op]()


def rcmp(op, a, b):
    if is_frac(a) and is_frac(b):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    x, y = rz(a), rz(b)
    if x.eq(y):
        return op in ("eq", "le", "ge")
    return {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
            "gt": lambda: x > y, "ge": lambda: x >= y}[op]()


class Ptr:
    """obj is an object id (int), ('fn', name) or None for null."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = P(off)

    def shift(self, d):
        return Ptr(self.obj, self.off.add(P(d)))

    def __repr__(self):
        return "Ptr(%s,%r)" % (self.obj, self.off)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def shift(self, d):
        return PtrIte(self.c, self.a.shift(d), self.b.shift(d))


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a.same(b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.off.same(b.off)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.v) == len(b.v) and all(same_val(x, y) for x, y in zip(a.v, b.v))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def ite(c, a, b):
    """If-then-else on any value."""
    c = as_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if same_val(a, b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            g = gcd(a.off.coef_gcd(), b.off.coef_gcd(), a.off.c(), b.off.c())
            if g > 1:
                return Ptr(a.obj, P(z3.If(c, a.off.div_exact(g).z(), b.off.div_exact(g).z())).scale(g))
            return Ptr(a.obj, P(z3.If(c, a.off.z(), b.off.z())))
        return PtrIte(c, a, b)
    if isinstance(a, Agg):
        return Agg([ite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, (Poly, int)) and not isinstance(a, bool):
        return P(z3.If(c, Z(a), Z(b)))
    if isinstance(a, (bool, z3.BoolRef)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return z3.Not(c)
        return z3.If(c, bz(a), bz(b))
    return z3.If(c, rz(a), rz(b))
