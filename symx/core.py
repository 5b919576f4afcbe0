"""Symbolic reals, booleans, path exploration and obligations.

The real code of /repo runs in CPython; its numeric inputs are SymReal objects
(exact real arithmetic, kept as a ratio of polynomials over named generators),
every branch on a SymBool forks the execution, and every obligation becomes a
solver query  path-condition AND definitions AND NOT(obligation).
"""
import math
import re
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import solver
from .poly import (mono_div, F, ONE, P1, Poly, Ring, TooBig, ZERO, frac_sqrt, pconst, pvar)

NS = 400  # witness samples per path (used only to witness feasibility)
CUR = None  # current Ctx
INF = float("inf")
NAN = float("nan")


class PathAbort(BaseException):
    pass


class Infeasible(PathAbort):
    pass


class Unsupported(Exception):
    pass


class Gen:
    __slots__ = ("id", "name", "z", "defs", "deps", "nonneg", "pos", "lo", "hi", "samp", "kind", "extra", "nice")

    def __init__(self, id, name, z, kind):
        self.id, self.name, self.z, self.kind = id, name, z, kind
        self.defs = []
        self.deps = set()
        self.nonneg = self.pos = False
        self.lo = self.hi = None
        self.samp = None
        self.extra = None
        self.nice = None


def outer(x, side):
    """a nearby fraction with few digits, at or beyond x"""
    x = Fraction(x)
    if x == 0:
        return x
    k = 40 - (abs(x.numerator).bit_length() - x.denominator.bit_length())
    m = x * Fraction(2) ** k
    n = math.ceil(m) if side > 0 else math.floor(m)
    return n / Fraction(2) ** k


def outer_sqrt(x):
    return outer(Fraction(math.sqrt(float(x))) * (1 + Fraction(1, 1 << 40)), 1)


def zq(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


class SymBool:
    """z: solver term; ev / nev: witness samples on which it is clearly true / clearly false"""
    __slots__ = ("z", "ev", "nev", "gens", "atom", "ctx")

    def __init__(self, z, ev, gens, atom=None, nev=None):
        self.z, self.ev, self.gens, self.atom = z, ev, gens, atom
        self.nev = nev or (lambda: ~ev())

    def __bool__(self):
        return CUR.branch(self)

    def __invert__(self):
        at = None
        if self.atom is not None:
            p, ops = self.atom
            at = (p, frozenset((-1, 0, 1)) - ops)
        return SymBool(z3.Not(self.z), self.nev, self.gens, at, self.ev)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        if not isinstance(o, SymBool):
            return NotImplemented
        a, b, c, d = self.ev, o.ev, self.nev, o.nev
        return SymBool(z3.And(self.z, o.z), lambda: a() & b(), self.gens | o.gens, None, lambda: c() | d())
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        if not isinstance(o, SymBool):
            return NotImplemented
        a, b, c, d = self.ev, o.ev, self.nev, o.nev
        return SymBool(z3.Or(self.z, o.z), lambda: a() | b(), self.gens | o.gens, None, lambda: c() & d())
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        a, b, c, d = self.ev, o.ev, self.nev, o.nev
        return SymBool(z3.Xor(self.z, o.z), lambda: (a() & d()) | (c() & b()), self.gens | o.gens, None,
                       lambda: (a() & b()) | (c() & d()))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return ~(self ^ o)
        return NotImplemented

    def __hash__(self):
        return id(self)

    def logical_not(self):
        return ~self

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def logical_xor(self, o):
        return self ^ o

    # used as a number: decided on this path
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + (int(o) if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - (int(o) if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * (int(o) if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __neg__(self):
        return -int(self)

    def __repr__(self):
        return "<SymBool>"


def bnot(c):
    if isinstance(c, SymBool):
        return ~c
    return not c


def band(*cs):
    r = True
    for c in cs:
        if isinstance(c, SymBool):
            r = c if r is True else (r & c)
        elif not c:
            return False
    return r


def bor(*cs):
    r = False
    for c in cs:
        if isinstance(c, SymBool):
            r = c if r is False else (r | c)
        elif c:
            return True
    return r


def is_sym(x):
    return isinstance(x, SymReal)


def lift(x):
    """SymReal, or a float special (nan/inf), or None if not numeric"""
    t = type(x)
    if t is SymReal:
        return x
    if isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)):
        if isinstance(x, (float, np.floating)):
            if x != x or x in (INF, -INF):
                return float(x)
        return CUR.const(F(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, SymBool):
        return CUR.const(1 if bool(x) else 0)
    return None


def _den_key(p):
    return (len(p.t), sorted((tuple(m), v) for m, v in p.t.items()))


class SymReal:
    __slots__ = ("num", "den", "nn", "ctx")
    __array_priority__ = 0

    def __init__(self, num, den=(), nn=False):
        self.num = num          # Poly
        self.den = den          # tuple of (monic Poly, exponent)
        self.nn = nn            # known non-negative

    # --- numpy scalar protocol bits
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    @property
    def T(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def gens(self):
        g = self.num.gens()
        for p, _ in self.den:
            g |= p.gens()
        return g

    def is_const(self):
        return not self.den and self.num.is_const()

    # --- arithmetic
    def _add(self, o, sign):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            return o2 if sign > 0 else -o2
        b = o2 if sign > 0 else SymReal(o2.num.neg(), o2.den)
        return CUR.radd(self, b, nn=(sign > 0 and self.nn and o2.nn))

    def __add__(self, o):
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        r = (-self)._add(o, 1)
        return r

    def __neg__(self):
        return SymReal(self.num.neg(), self.den)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            if o2 != o2:
                return NAN
            if self > 0:
                return o2
            if self < 0:
                return -o2
            return NAN
        return CUR.rmul(self, o2)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            return NAN if o2 != o2 else CUR.const(0)
        return CUR.rdiv(self, o2)

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            if o2 != o2:
                return NAN
            return o2 if self >= 0 else -o2
        return CUR.rdiv(o2, self)

    def __pow__(self, e, mod=None):
        if is_sym(e) and e.is_const():
            e = e.num.const()
        if is_sym(e):
            return CUR.powfrac(self, e)
        if isinstance(e, (int, np.integer)) or (isinstance(e, (float, np.floating, Fraction)) and e == int(e)):
            e = int(e)
            if e < 0:
                return 1 / (self ** (-e))
            r = CUR.const(1)
            for _ in range(e):
                r = r * self
            if e % 2 == 0 and is_sym(r):
                r = SymReal(r.num, r.den, True)
            return r
        if e == 0.5:
            return CUR.sqrt(self)
        if e == -0.5:
            return 1 / CUR.sqrt(self)
        if isinstance(e, (float, Fraction)) and e * 2 == int(e * 2) and abs(e) < 20:
            k = int(abs(e))
            r = self ** k * CUR.sqrt(self)
            return r if e > 0 else 1 / r
        if isinstance(e, np.ndarray):
            return NotImplemented
        return CUR.powfrac(self, lift(e))

    def __rpow__(self, b):
        if not is_sym(b) and b > 0 and self.num is not None and not CUR.int_gens(self):
            return CUR.exp(self, base=float(b))
        return b ** float(CUR.concretise(self))

    def __abs__(self):
        return CUR.absval(self)

    def __floordiv__(self, o):
        return CUR.floor(self / o)

    def __rfloordiv__(self, o):
        return CUR.floor(o / self)

    def __mod__(self, o):
        return self - CUR.floor(self / o) * o

    def __rmod__(self, o):
        return o - CUR.floor(o / self) * self

    def __float__(self):
        return float(CUR.concretise(self))

    def __int__(self):
        return int(CUR.concretise(self))

    def __index__(self):
        return int(CUR.concretise(self))

    def __round__(self, n=None):
        return CUR.round(self, n or 0)

    def rint(self):
        return CUR.round(self)

    def __floor__(self):
        return CUR.floor(self)

    def __bool__(self):
        return bool(self != 0)

    # --- comparisons
    def _cmp(self, o, ops):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            if o2 != o2:
                return ops == frozenset((-1, 1))
            return (-1 if o2 > 0 else 1) in ops
        return CUR.compare(self, o2, ops)

    def __lt__(self, o):
        return self._cmp(o, frozenset((-1,)))

    def __le__(self, o):
        return self._cmp(o, frozenset((-1, 0)))

    def __gt__(self, o):
        return self._cmp(o, frozenset((1,)))

    def __ge__(self, o):
        return self._cmp(o, frozenset((0, 1)))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, frozenset((0,)))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, frozenset((-1, 1)))

    def __hash__(self):
        return hash((self.num, self.den))

    # --- methods numpy's object loops call
    def sqrt(self):
        return CUR.sqrt(self)

    def sin(self):
        return CUR.cos_sin(self)[1]

    def cos(self):
        return CUR.cos_sin(self)[0]

    def tan(self):
        c, s = CUR.cos_sin(self)
        return s / c

    def arcsin(self):
        return CUR.arcsin(self)

    def arccos(self):
        return CUR.arccos(self)

    def arctan(self):
        return CUR.arctan2(self, CUR.const(1))

    def arctan2(self, o):
        return CUR.arctan2(self, o)

    def exp(self):
        return CUR.exp(self)

    def log(self):
        return CUR.log(self)

    def log2(self):
        return CUR.log(self) / float(math.log(2))

    def log1p(self):
        return CUR.log(self + 1)

    def expm1(self):
        return CUR.exp(self) - 1

    def exp2(self):
        return CUR.exp(self, base=2.0)

    def log10(self):
        return CUR.uf("log10", self)

    def fabs(self):
        return CUR.absval(self)

    absolute = fabs

    def square(self):
        return self ** 2

    def floor(self):
        return CUR.floor(self)

    def ceil(self):
        return -CUR.floor(-self)
    __ceil__ = ceil

    def trunc(self):
        return CUR.floor(self) if self >= 0 else -CUR.floor(-self)
    __trunc__ = trunc

    def fmod(self, o):
        q = self / o
        return self - o * (CUR.floor(q) if q >= 0 else -CUR.floor(-q))

    def __divmod__(self, o):
        return self // o, self % o

    def is_integer(self):
        return CUR.floor(self) == self

    def hypot(self, o):
        return CUR.sqrt(self * self + o * o)

    def deg2rad(self):
        return self * math.pi / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / math.pi

    degrees = rad2deg

    def isnan(self):
        return False

    def __format__(self, spec):
        m = re.fullmatch(r"([-+ ]?)(0?)(\d*)\.(\d+)([fFeE])", spec)
        return CUR.format(self, *m.groups()) if m else "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__


class Ctx:
    """one execution path"""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.dec = []
        self.ring = Ring()
        self.gens = []
        self.byname = {}
        self.pc = []           # (z3, gens)
        self.signs = {}        # monic Poly -> allowed set
        self.mask = np.ones(NS, bool)
        self.atoms = []
        self.inputs = {}       # name -> ('real', SymReal) etc
        self.sqrts = {}
        self._conj = {}        # Poly -> SymReal
        self.squares = {}      # NF(x^2) -> x
        self.angles = {}       # gid -> dict
        self.ufs = {}
        self.ufargs = {}       # gid -> (function, argument)
        self.lazyabs, self.lazies = False, {}
        self.exps, self.expunit, self.explog, self.powof = {}, {}, {}, {}
        self.digits = []
        self.pows = {}
        self.branch_i = 0
        self.events = []
        self.obs = []
        self.nob = 0
        self.floors = {}
        self.eqpath = False
        self.rounding = False
        self.nround = 0

    # ---------------------------------------------------------------- gens
    def new_gen(self, name, kind):
        if name in self.byname:
            k = 2
            while f"{name}_{k}" in self.byname:
                k += 1
            name = f"{name}_{k}"
        g = Gen(len(self.gens), name, z3.Real(name), kind)
        self.gens.append(g)
        self.byname[name] = g
        return g

    def gsym(self, g, nn=False):
        return SymReal(pvar(g.id), (), nn or g.nonneg)

    def const(self, c):
        return SymReal(pconst(c), (), c >= 0)

    def rng(self, name):
        return np.random.default_rng((self.eng.seed, zlib.crc32(name.encode())))

    def real(self, name, lo=None, hi=None, samp=None):
        g = self.new_gen(name, "input")
        r = self.rng(name)
        if lo is not None:
            g.lo = F(lo)
            g.defs.append(g.z >= zq(g.lo))
            g.nonneg = g.lo >= 0
            g.pos = g.lo > 0
        if hi is not None:
            g.hi = F(hi)
            g.defs.append(g.z <= zq(g.hi))
        if samp is not None:
            g.samp = samp
        else:
            a = float(lo) if lo is not None else -1e3
            b = float(hi) if hi is not None else 1e3
            s = r.uniform(a, b, NS)
            if a < 0 < b and b - a > 4:   # mix of magnitudes around 0
                k = NS // 2
                s[:k] = r.normal(0, min(3.0, (b - a) / 4), k)
                s = np.clip(s, a, b)
            elif a > 0 and b / a > 100:
                k = NS // 2
                s[:k] = np.exp(r.uniform(math.log(a), math.log(b), k))
            g.samp = s
        a, b = (0 if lo is None else F(lo)), (0 if hi is None else F(hi))
        g.nice = 0 if (lo is None or a <= 0) and (hi is None or b >= 0) else (
            1 if (lo is None or a <= 1) and (hi is None or b >= 1) else (a if lo is not None else b))
        v = self.gsym(g)
        self.inputs[name] = v
        return v

    # ------------------------------------------------------------ rational
    def simp(self, num, den, nn=False):
        """cancel den factors dividing num"""
        if num.is_zero():
            return SymReal(ZERO, (), True)
        if not den:
            return SymReal(num, (), nn)
        out = []
        for p, e in den:
            while e:
                q = None
                if len(p.t) <= len(num.t) or num.degree() >= p.degree():
                    q = self.ring.exact_div(num, p)
                if q is None:
                    cj = self.conjugate(p)
                    if cj is not None and num.degree() >= cj[0].degree():
                        q = self.ring.exact_div(num, cj[0])
                        if q is not None:
                            q = self.ring.mul(q, cj[1])
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((p, e))
        return SymReal(num, tuple(out), nn)

    def conjugate(self, p):
        """(p*q, q) for p = a + b*s linear in its last square root s, q = a - b*s"""
        r = self._conj.get(p)
        if r is None:
            r = False
            sq = [g for g in p.gens() if self.gens[g].kind == "sqrt"]
            if sq and len(p.t) <= 60:
                s = max(sq)
                a, b = {}, {}
                for m, v in p.t.items():
                    e = dict(m).get(s, 0)
                    if e == 0:
                        a[m] = v
                    else:
                        b[mono_div(m, ((s, 1),))] = v
                if a:
                    a, b, gs = Poly(a), Poly(b), pvar(s)
                    q = a.sub(self.ring.mul(b, gs))
                    try:
                        n = self.ring.mul(p, q)
                        if not n.is_zero() and not n.is_const():
                            r = (n, q)
                    except TooBig:
                        pass
            self._conj[p] = r
        return r or None

    def norm_den(self, facs):
        """list of (poly, exp) -> (const, tuple) merged, monic, ruled squares reduced"""
        c = Fraction(1)
        d = {}
        work = list(facs)
        while work:
            p, e = work.pop()
            if e == 0:
                continue
            if p.is_const():
                c *= Fraction(p.const()) ** e
                continue
            k, p = p.monic()
            c *= Fraction(k) ** e
            # split monomial content
            mc = p.mono_content()
            if mc and len(p.t) >= 1 and not (len(p.t) == 1 and len(mc) == 1 and mc[0][1] == 1):
                rest = p.div_mono(mc)
                for g, x in mc:
                    work.append((pvar(g), x * e))
                work.append((rest, e))
                continue
            d[p] = d.get(p, 0) + e
        changed = True
        while changed:
            changed = False
            for p, e in list(d.items()):
                if len(p.t) == 1:
                    (m, v), = p.t.items()
                    g = m[0][0]
                    rule = self.ring.pow_rules.get(g)
                    if rule is not None and e >= rule[0]:
                        n, r = divmod(e, rule[0])
                        del d[p]
                        if r:
                            d[p] = r
                        c2, facs2 = self.norm_den([(rule[1], n)])
                        c *= c2
                        for p2, e2 in facs2:
                            d[p2] = d.get(p2, 0) + e2
                        changed = True
                        break
        return c, tuple(sorted(d.items(), key=lambda x: _den_key(x[0])))

    def prodpow(self, facs):
        r = P1
        for p, e in facs:
            r = self.ring.mul(r, self.ring.power(p, e))
        return r

    # ------------------------------------------------------------ rounding
    def exact(self, op, *a):
        """the result before rounding"""
        self.rounding = False
        try:
            return op(*a)
        finally:
            self.rounding = True

    def single(self, a):
        """what a float of 4 bytes holds of a"""
        return self.rounded(a, 24)

    def rounded(self, a, digits=53):
        """what a double holds of the result a: a * (1 + d) for some |d| <= 2^-53 (round to nearest, no underflow), or,
        weaker and easier on the solver, a + d with |d| <= 2^-53 * max |a| where bounds of a are known"""
        if type(a) is float:
            return a
        if a.is_const() and digits == 53:
            return self.const(Fraction(float(Fraction(a.num.const()))))
        if digits == 53 and not a.den and len(a.num.t) == 1 and self.held(a.num):
            return a
        u = Fraction(1, 1 << digits)
        iv = self.bounds(a)
        k = self.nround
        self.nround += 1
        d = self.new_gen(f"ulp{k}", "ulp")
        w = u if iv is None else u * max(abs(iv[0]), abs(iv[1]))
        d.lo, d.hi = -w, w
        d.defs = [d.z <= zq(w), d.z >= zq(-w)]
        d.samp = np.zeros(NS)
        g = self.new_gen(f"fl{k}", "fl")
        g.deps = {d.id} | set(a.gens())
        n = self.zpoly(a.num)
        e = self.zden(a) if a.den else None
        if iv is None:
            n = n * (1 + d.z)
        else:
            n = n + d.z * e if a.den else n + d.z
            g.lo, g.hi = iv[0] - w, iv[1] + w
        g.defs = [g.z * e == n if a.den else g.z == n]
        if a.nn:
            g.nonneg = True
            g.lo = max(g.lo, 0) if g.lo is not None else None
            g.defs.append(g.z >= 0)
        with np.errstate(all="ignore"):
            g.samp = self.reval(a)
        return SymReal(pvar(g.id), (), a.nn)

    def bounds(self, a):
        """interval of a quotient of polynomials"""
        for g in a.gens():
            g = self.gens[g]
            if g.kind == "sqrt" and g.hi is None and not g.extra:
                g.extra = True
                rad = self.ring.pow_rules[g.id][1]
                r = self.interval(rad)
                if r is not None:
                    g.lo, g.hi = Fraction(0), outer_sqrt(max(r[1], 0))
        r = self.interval(a.num)
        if r is None or a.den and len(a.den) > 3:
            return None
        if a.den:
            q = self.interval(self.prodpow(a.den))
            if q is None or q[0] <= 0 <= q[1]:
                return None
            xs = [x / y for x in r for y in q]
            r = min(xs), max(xs)
        return (outer(r[0], -1), outer(r[1], 1))

    def held(self, p):
        """a number that is already there (times a power of two)"""
        (m, v), = p.t.items()
        v = abs(Fraction(v))
        return len(m) == 1 and m[0][1] == 1 and (v.numerator & (v.numerator - 1)) == 0 \
            and (v.denominator & (v.denominator - 1)) == 0

    def radd(self, a, b, nn=False):
        if self.rounding:
            return self.rounded(self.exact(self.radd, a, b, nn))
        if a.den == b.den:
            return self.simp(a.num.add(b.num), a.den, nn)
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for p, e in db.items():
            if e > l.get(p, 0):
                l[p] = e
        fa = [(p, e - da.get(p, 0)) for p, e in l.items() if e > da.get(p, 0)]
        fb = [(p, e - db.get(p, 0)) for p, e in l.items() if e > db.get(p, 0)]
        na = self.ring.mul(a.num, self.prodpow(fa))
        nb = self.ring.mul(b.num, self.prodpow(fb))
        c, den = self.norm_den(list(l.items()))
        num = na.add(nb)
        if c != 1:
            num = num.scale(1 / c)
        return self.simp(num, den, nn)

    def rmul(self, a, b):
        if self.rounding:
            return self.rounded(self.exact(self.rmul, a, b))
        nn = (a.nn and b.nn) or (a.num == b.num and a.den == b.den)
        num = self.ring.mul(a.num, b.num)
        if not a.den and not b.den:
            return SymReal(num, (), nn)
        c, den = self.norm_den(list(a.den) + list(b.den))
        if c != 1:
            num = num.scale(1 / c)
        return self.simp(num, den, nn)

    def rdiv(self, a, b):
        if self.rounding:
            return self.rounded(self.exact(self.rdiv, a, b))
        if b.is_const():
            k = b.num.const()
            if k == 0:
                return self.div_by_zero(a)
            return SymReal(a.num.scale(1 / Fraction(k)), a.den, a.nn and k > 0)
        if b == 0:   # forks when undecided
            return self.div_by_zero(a)
        nn = (a.nn and b.nn) or (a.num == b.num and a.den == b.den)
        # a/b = a.num * b.den / (a.den * b.num)
        num = a.num
        if b.den:
            num = self.ring.mul(num, self.prodpow(b.den))
        c, den = self.norm_den(list(a.den) + [(b.num, 1)])
        num = num.scale(1 / c) if c != 1 else num
        return self.simp(num, den, nn)

    def div_by_zero(self, a):
        self.event("div0")
        if a == 0:
            return NAN
        if a > 0:
            return INF
        return -INF

    def event(self, what):
        self.events.append(what)

    # --------------------------------------------------------------- signs
    def known_sign(self, p):
        """set of possible signs of p (subset of {-1,0,1})"""
        if p.is_const():
            c = p.const()
            return frozenset((0,)) if c == 0 else frozenset((1 if c > 0 else -1,))
        c, m = p.monic()
        base = self.signs.get(m)
        s = None
        if base is not None:
            s = base if c > 0 else frozenset(-x for x in base)
        if s is not None and len(s) == 1:
            return s
        t = self._struct_sign(p)
        if s is None:
            return t
        return (s & t) or s

    def _gen_sign(self, gid):
        s = self.signs.get(pvar(gid))
        if s is not None:
            return s
        g = self.gens[gid]
        if g.pos:
            return frozenset((1,))
        if g.nonneg:
            return frozenset((0, 1))
        if g.hi is not None and g.hi < 0:
            return frozenset((-1,))
        return frozenset((-1, 0, 1))

    def _mono_sign(self, m, v):
        s = {1 if v > 0 else -1}
        for g, e in m:
            gs = self._gen_sign(g)
            if e % 2 == 0:
                gs = {x * x for x in gs}
            s = {a * b for a in s for b in gs}
            if len(s) == 3:
                break
        return s

    def _struct_sign(self, p):
        lo = hi = 0  # combined
        pos = neg = False
        strict_p = strict_n = False
        for m, v in p.t.items():
            s = self._mono_sign(m, v)
            if 1 in s and -1 in s:
                return self._interval_sign(p)
            if 1 in s:
                pos = True
                if s == {1}:
                    strict_p = True
            if -1 in s:
                neg = True
                if s == {-1}:
                    strict_n = True
        if pos and neg:
            return self._interval_sign(p)
        if pos:
            return frozenset((1,)) if strict_p else frozenset((0, 1))
        if neg:
            return frozenset((-1,)) if strict_n else frozenset((-1, 0))
        return frozenset((0,))

    def interval(self, p):
        """bounds of p, from those of its unknowns; None when one has none"""
        lo = hi = Fraction(0)
        for m, v in p.t.items():
            a = b = Fraction(v)
            for g, e in m:
                gen = self.gens[g]
                gl, gh = gen.lo, gen.hi
                if gl is None and gen.nonneg:
                    gl = 0
                if gl is None or gh is None:
                    return None
                if e % 2 == 0:
                    c = max(abs(gl), abs(gh)) ** e
                    d = 0 if gl <= 0 <= gh else min(abs(gl), abs(gh)) ** e
                    gl, gh = d, c
                elif e > 1:
                    gl, gh = gl ** e, gh ** e
                xs = (a * gl, a * gh, b * gl, b * gh)
                a, b = min(xs), max(xs)
            lo += a
            hi += b
        return lo, hi

    def _interval_sign(self, p):
        r = self.interval(p)
        if r is None:
            return frozenset((-1, 0, 1))
        lo, hi = r
        if lo > 0:
            return frozenset((1,))
        if hi < 0:
            return frozenset((-1,))
        if lo == 0:
            return frozenset((0, 1))
        if hi == 0:
            return frozenset((-1, 0))
        return frozenset((-1, 0, 1))

    # ---------------------------------------------------------- comparison
    def sign_poly(self, a):
        """polynomial with the sign of a (a defined)"""
        p = a.num
        flip = 1
        for f, e in a.den:
            if e % 2:
                s = self.known_sign(f)
                if s <= {0, 1}:
                    continue
                if s <= {0, -1}:
                    flip = -flip
                    continue
                p = self.ring.mul(p, f)
        return p if flip > 0 else p.neg()

    def compare(self, a, b, ops):
        if self.rounding:                       # comparing is exact
            return self.exact(self.compare, a, b, ops)
        d = self.radd(a, SymReal(b.num.neg(), b.den))
        return self.cmp0(d, ops)

    def cmp0(self, d, ops):
        if ops <= {0} or ops == {-1, 1}:
            p = d.num
        else:
            p = self.sign_poly(d)
        s = self.known_sign(p)
        if d.nn:
            s = s & {0, 1} if ops not in ({0}, {-1, 1}) or not d.den else s
            if not s:
                s = self.known_sign(p)
        if s <= ops:
            return True
        if not (s & ops):
            return False
        c, m = p.monic()
        if c < 0:
            ops = frozenset(-x for x in ops)
            s = frozenset(-x for x in s)
        return self.atom(m, ops)

    def atom(self, m, ops):
        e = self.zpoly(m)
        z = {(-1,): e < 0, (0,): e == 0, (1,): e > 0, (-1, 0): e <= 0, (0, 1): e >= 0,
             (-1, 1): e != 0}[tuple(sorted(ops))]

        def evs(ops):
            v = self.peval(m)
            with np.errstate(all="ignore"):
                sc = 1e-9 * self.pscale(m)
                r = np.zeros(NS, bool)
                if -1 in ops:
                    r |= v < -sc
                if 1 in ops:
                    r |= v > sc
            return r
        rest = frozenset((-1, 0, 1)) - ops
        return SymBool(z, lambda: evs(ops), m.gens(), (m, ops), lambda: evs(rest))

    # -------------------------------------------------------------- z3 side
    def zpoly(self, p):
        terms = []
        for m, v in p.t.items():
            fs = []
            for g, e in m:
                fs.extend([self.gens[g].z] * e)
            if not fs:
                terms.append(zq(v))
            elif v == 1:
                terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                terms.append(zq(v) * (fs[0] if len(fs) == 1 else z3.Product(*fs)))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def zden(self, a):
        return self.zpoly(self.prodpow(a.den)) if a.den else None

    def closure(self, gens):
        todo = set(gens)
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            todo |= self.gens[g].deps - seen
        return seen

    def constraints(self, extra=(), relevant_only=False, cut=False):
        """pc + defs (+ extra SymBools); with cut, only of the unknowns the extra ones are made of"""
        gens = set()
        zs = []
        ex = [e for e in extra if isinstance(e, SymBool)]
        for e in ex:
            gens |= e.gens
        gens = self.closure(gens)
        if cut:
            pcs = [it for it in self.pc if self.closure(it[1]) <= gens]
        elif relevant_only:
            pcs = []
            rest = list(self.pc)
            changed = True
            while changed:
                changed = False
                for it in list(rest):
                    if self.closure(it[1]) & gens:
                        gens |= self.closure(it[1])
                        pcs.append(it)
                        rest.remove(it)
                        changed = True
        else:
            pcs = self.pc
            for _, g in pcs:
                gens |= self.closure(g)
        zs = [z for z, _ in pcs]
        seen = set()
        for g in sorted(gens):
            for d in self.gens[g].defs:
                k = d.get_id()
                if k not in seen:
                    seen.add(k)
                    zs.append(d)
        zs += [e.z for e in ex]
        return zs, gens

    # ------------------------------------------------------------- samples
    def peval(self, p):
        r = np.zeros(NS)
        with np.errstate(all="ignore"):
            for m, v in p.t.items():
                t = np.full(NS, float(v))
                for g, e in m:
                    s = self.gens[g].samp
                    t = t * (s if e == 1 else s ** e)
                r = r + t
        return r

    def pscale(self, p):
        r = np.zeros(NS)
        with np.errstate(all="ignore"):
            for m, v in p.t.items():
                t = np.full(NS, abs(float(v)))
                for g, e in m:
                    t = t * np.abs(self.gens[g].samp) ** e
                r = r + t
        return r

    def reval(self, a):
        a = lift(a)
        if type(a) is float:
            return np.full(NS, a)
        with np.errstate(all="ignore"):
            v = self.peval(a.num)
            for p, e in a.den:
                v = v / self.peval(p) ** e
        return v

    def hp(self, a, k):
        """value at sample k, in 60-digit arithmetic (square roots and sphere coordinates recomputed)"""
        import mpmath
        a = lift(a)
        if type(a) is float:
            return a
        memo = {}

        def gen(g):
            if g not in memo:
                s = float(self.gens[g].samp[k])
                r = self.ring.pow_rules.get(g)
                if r is not None and r[0] == 2:
                    v = poly(r[1])
                    memo[g] = mpmath.sqrt(v) * (-1 if s < 0 else 1) if v > 0 else mpmath.mpf(0)
                else:
                    memo[g] = mpmath.mpf(s)
            return memo[g]

        def poly(p):
            r = mpmath.mpf(0)
            for m, v in p.t.items():
                v = Fraction(v)
                t = mpmath.mpf(v.numerator) / v.denominator
                for g, e in m:
                    t *= gen(g) ** e
                r += t
            return r
        with mpmath.workdps(60):
            v = poly(a.num)
            for p, e in a.den:
                w = poly(p) ** e
                if w == 0:
                    return float("nan")
                v = v / w
            return float(v)

    # ------------------------------------------------------------ branching
    def learn(self, sb, val):
        if sb.atom is None:
            return
        p, ops = sb.atom
        if not val:
            ops = frozenset((-1, 0, 1)) - ops
        cur = self.signs.get(p, frozenset((-1, 0, 1)))
        new = cur & ops
        if new:
            self.signs[p] = new
            if new == {0}:
                self.eqpath = True
        # register squares of compared quantities (|x| recovery)
        if len(p.t) <= 40:
            try:
                sq = self.ring.mul(p, p)
                self.squares.setdefault(sq, p)
                c0 = p.t.get(ONE)
                if c0 is not None and len(p.t) > 1:
                    q = p.sub(pconst(c0))
                    cc, q = q.monic()
                    self.squares.setdefault(self.ring.mul(q, q), q)
            except TooBig:
                pass

    def assume(self, c):
        if isinstance(c, SymBool):
            self.pc.append((c.z, c.gens))
            self.mask = self.mask & c.ev()
            self.learn(c, True)
            if self.past_prefix():
                # cheap infeasibility check only when no sample survives
                if not self.mask.any():
                    if self.eng.feasible(self, None) == "unsat":
                        raise Infeasible()
        elif not c:
            raise Infeasible()

    def past_prefix(self):
        return len(self.dec) >= len(self.prefix)

    def branch(self, sb):
        if sb.atom is not None:
            s = self.known_sign(sb.atom[0])
            if s <= sb.atom[1]:
                return True
            if not (s & sb.atom[1]):
                return False
        i = len(self.dec)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            if i > self.eng.max_depth:
                self.eng.note_incomplete("depth")
                raise Infeasible()
            t_ok = bool((self.mask & sb.ev()).any())
            f_ok = bool((self.mask & sb.nev()).any())
            if not t_ok:
                t_ok = self.eng.feasible(self, sb) != "unsat"
            if not f_ok:
                f_ok = self.eng.feasible(self, ~sb) != "unsat"
            if t_ok and f_ok:
                # the side with more witnesses first
                nt, nf = int((self.mask & sb.ev()).sum()), int((self.mask & sb.nev()).sum())
                val = nt >= nf
                self.eng.push(self.dec + [not val], min(nt, nf))
            elif t_ok:
                val = True
            elif f_ok:
                val = False
            else:
                raise Infeasible()
            # one-sided: record so that replays of this prefix stay aligned
        self.dec.append(val)
        c = sb if val else ~sb
        self.pc.append((c.z, c.gens))
        self.mask = self.mask & c.ev()
        if sb.atom is not None:
            self.atoms.append((sb.atom[0], sb.atom[1] if val else frozenset((-1, 0, 1)) - sb.atom[1]))
        self.learn(sb, val)
        return val

    def clear_of_edges(self, k):
        """sample k takes this path with room to spare, in 60-digit arithmetic"""
        for p, ops in self.atoms:
            v = self.hp(SymReal(p), k)
            if abs(v) <= 1e-9 * float(self.pscale(p)[k]) or (1 if v > 0 else -1) not in ops:
                return False
        return True

    def choose(self, n, name="choice"):
        """nondeterministic integer in range(n) (all explored)"""
        i = len(self.dec)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.eng.push(self.dec + [k], int(self.mask.sum()))
            val = 0
        self.dec.append(val)
        return val

    # ---------------------------------------------------------------- sqrt
    def sqrt(self, a):
        a = lift(a)
        if type(a) is float:
            return a if a > 0 else NAN
        if self.rounding:
            return self.rounded(self.exact(self.sqrt, a))
        if not a.nn:
            if a < 0:
                self.event("sqrt<0")
                return NAN
        if a.num.is_zero():
            return self.const(0)
        rad = a.num
        outden = []
        for f, e in a.den:
            if e % 2:
                rad = self.ring.mul(rad, f)
                e += 1
            outden.append((f, e // 2))
        r = self.sqrt_poly(rad)
        for f, e in outden:
            fa = self.absval(SymReal(f)) if e % 2 else SymReal(f)
            for _ in range(e):
                r = self.rdiv_nz(r, fa)
        return SymReal(r.num, r.den, True)

    def rdiv_nz(self, a, b):
        """a/b with b known nonzero"""
        if b.is_const():
            return SymReal(a.num.scale(1 / Fraction(b.num.const())), a.den)
        c, den = self.norm_den(list(a.den) + [(b.num, 1)])
        num = a.num
        if b.den:
            num = self.ring.mul(num, self.prodpow(b.den))
        return self.simp(num.scale(1 / c) if c != 1 else num, den)

    def sqrt_poly(self, p):
        if p.is_const():
            c = Fraction(p.const())
            r = frac_sqrt(c)
            if r is not None:
                return self.const(r)
        # known square?
        c, m = p.monic() if not p.is_const() else (1, p)
        fc = frac_sqrt(c) if c > 0 else None
        if fc is not None:
            q = self.squares.get(m)
            if q is not None:
                return self.absval(SymReal(q)) * fc
        # monomial content
        if not p.is_const():
            mc = p.mono_content()
            ev = tuple((g, e - e % 2) for g, e in mc if e >= 2)
            if ev:
                rest = p.div_mono(ev)
                out = self.sqrt_poly(rest)
                for g, e in ev:
                    x = SymReal(pvar(g))
                    if (e // 2) % 2:
                        x = self.absval(x)
                    for _ in range(e // 2):
                        out = out * x
                return out
            r = self.ring.psqrt(p)
            if r is not None:
                return self.absval(SymReal(r))
        # normalise constant square part
        if fc is not None and fc != 1:
            return self.sqrt_poly(m) * fc
        if p in self.sqrts:
            return self.sqrts[p]
        g = self.new_gen(f"sqrt{len(self.sqrts)}", "sqrt")
        g.nonneg = True
        g.deps = set(p.gens())
        g.defs = [g.z >= 0, g.z * g.z == self.zpoly(p)]
        if 0 not in self.known_sign(p):
            g.pos = True
        with np.errstate(all="ignore"):
            g.samp = np.sqrt(self.peval(p))
        self.ring.add_pow_rule(g.id, 2, p)
        r = SymReal(pvar(g.id), (), True)
        self.sqrts[p] = r
        return r

    def lazy(self, p):
        """|p| as an unknown of its own (no case split)"""
        s = self.known_sign(p)
        if s <= {0, 1}:
            return SymReal(p, (), True)
        if s <= {0, -1}:
            return SymReal(p.neg(), (), True)
        c, m = p.monic()
        if m not in self.lazies:
            g = self.new_gen(f"abs{len(self.lazies)}", "abs")
            g.nonneg = True
            z = self.zpoly(m)
            g.defs = [g.z >= 0, z3.Or(g.z == z, g.z == -z)]
            g.deps = set(SymReal(m).gens())
            with np.errstate(all="ignore"):
                g.samp = np.abs(self.peval(m))
            self.lazies[m] = SymReal(pvar(g.id), (), True)
        return self.lazies[m] * abs(Fraction(c))

    def absval(self, a):
        a = lift(a)
        if type(a) is float:
            return abs(a)
        if a.nn:
            return a
        s = self.known_sign(self.sign_poly(a))
        if s <= {0, 1}:
            return SymReal(a.num, a.den, True)
        if s <= {0, -1}:
            return SymReal(a.num.neg(), a.den, True)
        if self.lazyabs:
            n, d = self.lazy(a.num), self.const(1)
            for f, e in a.den:
                d = d * (self.lazy(f) if e % 2 else SymReal(f)) ** e if e % 2 else d * SymReal(f) ** e
            r = self.rdiv_nz(n, d)
            return SymReal(r.num, r.den, True)
        if a >= 0:
            return SymReal(a.num, a.den, True)
        return SymReal(a.num.neg(), a.den, True)

    # ---------------------------------------------------------------- trig
    def angle_input(self, name, lo=None, hi=None):
        """symbolic angle with a half-angle pair (ch, sh); lo/hi only bound samples
        and are asserted through the harness on cos/sin"""
        th = self.new_gen(name, "angle")
        ch = self.new_gen(name + ".ch", "trig")
        sh = self.new_gen(name + ".sh", "trig")
        r = self.rng(name)
        th.samp = r.uniform(lo if lo is not None else -3, hi if hi is not None else 3, NS)
        ch.samp, sh.samp = np.cos(th.samp / 2), np.sin(th.samp / 2)
        for g in (ch, sh):
            g.lo, g.hi = Fraction(-1), Fraction(1)
        rel = ch.z * ch.z + sh.z * sh.z == 1
        ch.defs = [rel]
        sh.defs = [rel]
        ch.deps = {sh.id}
        sh.deps = {ch.id}
        self.ring.add_pow_rule(sh.id, 2, P1.sub(Poly({((ch.id, 2),): 1})))
        c, s = self.gsym(ch), self.gsym(sh)
        # -pi < theta <= pi
        ch.defs.append(ch.z >= 0)
        ch.nonneg = True
        ch.lo = Fraction(0)
        th.defs = [z3.Implies(sh.z > 0, th.z > 0), z3.Implies(sh.z < 0, th.z < 0),
                   z3.Implies(sh.z == 0, th.z == 0), th.z <= zq(F(math.pi)), th.z >= -zq(F(math.pi))]
        th.deps = {ch.id, sh.id}
        self.angles[th.id] = {"C": 2 * c * c - 1, "S": 2 * c * s, "half": (c, s), "pair": (ch, sh)}
        v = self.gsym(th)
        self.inputs[name] = v
        return v

    def make_angle(self, kind, C, S, lo, hi, key):
        """angle generator with given cosine and sine (SymReal), value in (lo,hi]"""
        k = (kind, key)
        if k in self.ufs:
            return self.ufs[k]
        th = self.new_gen(f"{kind}{len(self.angles)}", "angle")
        with np.errstate(all="ignore"):
            th.samp = np.arctan2(self.reval(S), self.reval(C))
        th.lo, th.hi = F(lo), F(hi)
        th.defs = [th.z >= zq(F(lo)), th.z <= zq(F(hi))]
        th.deps = set(C.gens() | S.gens())
        sp = self.zpoly(self.sign_poly(S))
        cp = self.zpoly(self.sign_poly(C))
        th.defs += [z3.Implies(sp > 0, th.z > 0), z3.Implies(sp < 0, th.z < 0),
                    z3.Implies(z3.And(sp == 0, cp > 0), th.z == 0)]
        self.angles[th.id] = {"C": C, "S": S, "half": None}
        v = self.gsym(th)
        self.ufs[k] = v
        # sign knowledge
        ss = self.known_sign(self.sign_poly(S))
        if ss == {1}:
            self.signs[pvar(th.id)] = frozenset((1,))
        elif ss == {-1}:
            self.signs[pvar(th.id)] = frozenset((-1,))
        return v

    def half_pair(self, gid):
        a = self.angles[gid]
        if a["half"] is not None:
            return a["half"]
        C, S = a["C"], a["S"]
        th = self.gens[gid]
        polys = not C.den and not S.den
        ch = self.new_gen(th.name + ".ch", "trig")
        sh = self.new_gen(th.name + ".sh", "trig")
        with np.errstate(all="ignore"):
            ch.samp, sh.samp = np.cos(th.samp / 2), np.sin(th.samp / 2)
        ch.nonneg = True
        ch.lo, ch.hi = Fraction(0), Fraction(1)
        sh.lo, sh.hi = Fraction(-1), Fraction(1)
        c, s = self.gsym(ch), self.gsym(sh)
        if not polys:
            gc = self.new_gen(th.name + ".c", "trig")
            gs = self.new_gen(th.name + ".s", "trig")
            for g, v in ((gc, C), (gs, S)):
                g.samp = self.reval(v)
                g.lo, g.hi = Fraction(-1), Fraction(1)
                den = self.prodpow(v.den)
                g.defs = [g.z * self.zpoly(den) == self.zpoly(v.num), g.z <= 1, g.z >= -1]
                g.deps = set(v.gens())
            self.ring.add_pow_rule(gs.id, 2, P1.sub(Poly({((gc.id, 2),): 1})))
            gs.defs.append(gs.z * gs.z + gc.z * gc.z == 1)
            gs.deps.add(gc.id)
            C, S = self.gsym(gc), self.gsym(gs)
            a["Cg"], a["Sg"] = C, S
        h = Fraction(1, 2)
        cp, sp = C.num, S.num
        self.ring.add_pow_rule(ch.id, 2, P1.add(cp).scale(h))
        self.ring.add_pow_rule(sh.id, 2, P1.sub(cp).scale(h))
        self.ring.add_pair_rule(ch.id, sh.id, sp.scale(h))
        ch.defs = [ch.z >= 0, ch.z * ch.z * 2 == 1 + self.zpoly(cp)]
        sh.defs = [sh.z * sh.z * 2 == 1 - self.zpoly(cp), ch.z * sh.z * 2 == self.zpoly(sp)]
        ch.deps = {sh.id} | cp.gens() | sp.gens()
        sh.deps = {ch.id} | cp.gens() | sp.gens()
        a["half"] = (c, s)
        return a["half"]

    def cos_sin(self, x):
        x = lift(x)
        if type(x) is float:
            return NAN, NAN
        if x.den:
            raise Unsupported("trig of a quotient")
        C, S = self.const(1), self.const(0)
        for m, v in x.num.t.items():
            if m == ONE:
                c2, s2 = self.const_trig(v)
            else:
                if len(m) != 1 or m[0][1] != 1:
                    raise Unsupported("trig of a nonlinear term")
                gid = m[0][0]
                if gid not in self.angles:
                    if self.gens[gid].kind != "input":
                        raise Unsupported("trig of a non-angle")
                    self.promote_angle(gid)
                a = self.angles[gid]
                v = Fraction(v)
                # accept multiples of 1/2 only
                k = v * 2
                if k.denominator != 1:
                    raise Unsupported(f"trig of {v}*angle")
                k = int(k)
                n = abs(k)
                if n % 2 == 0:
                    bc, bs = a["C"], a["S"]
                    n //= 2
                else:
                    bc, bs = self.half_pair(gid)
                c2, s2 = self.const(1), self.const(0)
                for _ in range(n):
                    c2, s2 = c2 * bc - s2 * bs, s2 * bc + c2 * bs
                if k < 0:
                    s2 = -s2
            C, S = C * c2 - S * s2, S * c2 + C * s2
        return C, S

    def promote_angle(self, gid):
        th = self.gens[gid]
        ch = self.new_gen(th.name + ".ch", "trig")
        sh = self.new_gen(th.name + ".sh", "trig")
        ch.samp, sh.samp = np.cos(th.samp / 2), np.sin(th.samp / 2)
        rel = ch.z * ch.z + sh.z * sh.z == 1
        ch.defs, sh.defs = [rel], [rel]
        ch.deps, sh.deps = {sh.id}, {ch.id}
        for g in (ch, sh):
            g.lo, g.hi = Fraction(-1), Fraction(1)
        self.ring.add_pow_rule(sh.id, 2, P1.sub(Poly({((ch.id, 2),): 1})))
        c, s = self.gsym(ch), self.gsym(sh)
        self.angles[gid] = {"C": 2 * c * c - 1, "S": 2 * c * s, "half": (c, s), "pair": (ch, sh)}

    def const_trig(self, v):
        q = float(v) / (math.pi / 2)
        r = round(q)
        if abs(q - r) < 1e-12:
            return [(1, 0), (0, 1), (-1, 0), (0, -1)][r % 4][0] + self.const(0), \
                [(1, 0), (0, 1), (-1, 0), (0, -1)][r % 4][1] + self.const(0)
        # rational point on the circle close to the float values, exactly c^2+s^2=1
        t = Fraction(math.tan(float(v) / 2)).limit_denominator(10 ** 9)
        d = 1 + t * t
        return self.const((1 - t * t) / d), self.const(2 * t / d)

    def arctan2(self, y, x):
        y, x = lift(y), lift(x)
        if type(y) is float or type(x) is float:
            if (type(y) is float and y != y) or (type(x) is float and x != x):
                return NAN
            raise Unsupported("arctan2 of inf")
        rr = x * x + y * y
        rr = SymReal(rr.num, rr.den, True)
        if rr == 0:
            return self.const(0)
        rho = self.sqrt(rr)
        return self.make_angle("atan2", x / rho, y / rho, -math.pi, math.pi,
                               (y.num, y.den, x.num, x.den))

    def arcsin(self, u):
        u = lift(u)
        if type(u) is float:
            return NAN
        if u > 1 or u < -1:
            self.event("arcsin>1")
            return NAN
        c2 = 1 - u * u
        c = self.sqrt(SymReal(c2.num, c2.den, True))
        return self.make_angle("asin", c, u, -math.pi / 2, math.pi / 2, (u.num, u.den))

    def arccos(self, u):
        u = lift(u)
        if type(u) is float:
            return NAN
        if u > 1 or u < -1:
            self.event("arccos>1")
            return NAN
        if self.eng.round_domain:
            self.domain_margin(u)
        s2 = 1 - u * u
        s = self.sqrt(SymReal(s2.num, s2.den, True))
        return self.make_angle("acos", u, s, 0, math.pi, (u.num, u.den))

    def domain_margin(self, u):
        pass

    # -------------------------------------------------------- other atoms
    def powfrac(self, b, e):
        if isinstance(e, float):
            raise Unsupported("pow special")
        if b < 0:
            self.event("complex pow")
            return complex(NAN, NAN)
        if not (e > 0):
            raise Unsupported("pow with non-positive exponent")
        if b == 0:
            return self.const(0)
        key = (b.num, b.den, e.num, e.den)
        if key in self.pows:
            return self.pows[key][2]
        g = self.new_gen(f"pow{len(self.pows)}", "pow")
        g.nonneg = True
        with np.errstate(all="ignore"):
            g.samp = self.reval(b) ** self.reval(e)
        bz, bd = self.zpoly(b.num), self.prodpow(b.den)
        p1 = self.zpoly(self.sign_poly(b - 1)) if not (b - 1).num.is_zero() else z3.RealVal(0)
        g.defs = [g.z >= 0, z3.Implies(p1 < 0, g.z < 1), z3.Implies(p1 == 0, g.z == 1),
                  z3.Implies(p1 > 0, g.z > 1)]
        p0 = self.zpoly(self.sign_poly(b))
        g.defs.append(z3.Implies(p0 > 0, g.z > 0))
        g.deps = set(b.gens()) | set(e.gens())
        for (b2, e2, v2) in self.pows.values():
            if e2.num == e.num and e2.den == e.den:
                d = b - b2
                if d.num.is_zero():
                    continue
                dz = self.zpoly(self.sign_poly(d))
                h = self.gens[list(v2.gens())[0]]
                g.defs += [z3.Implies(dz > 0, g.z > h.z), z3.Implies(dz < 0, g.z < h.z),
                           z3.Implies(dz == 0, g.z == h.z)]
                g.deps |= {h.id} | set(b2.gens())
        v = SymReal(pvar(g.id), (), True)
        self.powof[g.id] = (b, e)
        self.pows[key] = (b, e, v)
        return v

    def uf(self, name, x):
        """an increasing function known by its values at the points met, their order, and its inverse"""
        x = lift(x)
        if type(x) is float:
            return getattr(np, name)(x)
        if x.is_const():
            return float(getattr(np, name)(float(x.num.const())))
        if name in ("log", "log10"):
            if not (x > 0):
                self.event("log<=0")
                return NAN
            b = math.e if name == "log" else 10.0
            y = self.explog.get((b, x.num, x.den))
            if y is not None:               # of a power of the base
                return y
        key = (name, x.num, x.den)
        if key in self.ufs:
            return self.ufs[key]
        g = self.new_gen(f"{name}{len(self.ufs)}", "uf")
        with np.errstate(all="ignore"):
            g.samp = getattr(np, name)(self.reval(x))
        g.deps = set(x.gens())
        if name == "exp":
            g.nonneg = g.pos = True
            g.defs = [g.z > 0]
        xs = list(x.gens())
        if not x.den and len(xs) == 1 and x.num.t.keys() == pvar(xs[0]).t.keys() and name in ("log", "log10"):
            c, h = F(list(x.num.t.values())[0]), self.gens[xs[0]]
            if h.lo is not None and h.hi is not None and c * h.lo > 0:
                w = [float(getattr(np, name)(float(c * e))) for e in (h.lo, h.hi)]
                g.lo, g.hi = F(w[0] - 1e-9), F(w[1] + 1e-9)
                g.defs += [g.z >= zq(g.lo), g.z <= zq(g.hi)]
        v = self.gsym(g)
        self.monotone(g, name, x, 1 if name == "exp" else 0)
        self.ufargs[g.id] = (name, x)
        self.ufs[key] = v
        return v

    def monotone(self, g, name, x, at):
        """g = name(x) is ordered like x among the values of the function met so far and f(0)=1 / f(1)=0"""
        pts = [(self.gens[k].z, y) for k, (n, y) in self.ufargs.items() if n == name][-8:]
        pts.append((z3.RealVal(at), self.const(1 - at)))
        for z, y in pts:
            d = x - y
            if d.num.is_zero():
                continue
            dz = self.zpoly(self.sign_poly(d))
            g.defs += [z3.Implies(dz > 0, g.z > z), z3.Implies(dz < 0, g.z < z), z3.Implies(dz == 0, g.z == z)]
            g.deps |= set(y.gens())

    def exp(self, x, base=math.e):
        """base**x; products for sums, powers for multiples, the argument itself for logarithms"""
        x = lift(x)
        fn = lambda v: base ** v if base != math.e else np.exp(v)
        if type(x) is float:
            return fn(x)
        if x.is_const():
            return float(fn(float(x.num.const())))
        key = (base, x.num, x.den)
        if key in self.exps:
            return self.exps[key]
        name = "log" if base == math.e else "log10" if base == 10 else None
        out = self.const(1)
        if x.den:
            out = out * self._exp(x, base)
        else:
            for m, v in x.num.t.items():
                v = Fraction(v)
                if m == ONE:
                    out = out * float(fn(float(v)))
                    continue
                a = self.ufargs.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if a is not None and a[0] == name:
                    out = out * a[1] ** (int(v) if v.denominator == 1 else float(v))
                    continue
                mon = Poly({m: Fraction(1)})
                unit = self.expunit.setdefault((base, mon), abs(v))
                k = v / unit
                if k.denominator != 1:
                    raise Unsupported("exponentials of incommensurable multiples")
                out = out * self._exp(SymReal(mon) * unit, base) ** int(k)
        self.exps[key] = out
        if name:
            self.explog[(base, out.num, out.den)] = x
        return out

    def _exp(self, x, base):
        key = (base, "atom", x.num, x.den)
        if key in self.exps:
            return self.exps[key]
        g = self.new_gen(f"exp{len(self.exps)}", "uf")
        with np.errstate(all="ignore"):
            xs = self.reval(x)
            g.samp = np.exp(xs) if base == math.e else base ** xs
        g.deps = set(x.gens())
        g.nonneg = g.pos = True
        g.defs = [g.z > 0]
        if base == math.e:
            zx, zd = self.zpoly(x.num), self.prodpow(x.den)
            if zd.is_const():
                g.defs.append(g.z >= 1 + zx / zq(zd.const()))
        if base > 1:
            self.monotone(g, f"exp{base}", x, 1)
        self.ufargs[g.id] = (f"exp{base}", x)
        self.exps[key] = v = self.gsym(g)
        return v

    def log(self, x):
        """sums for products and powers"""
        x = lift(x)
        if type(x) is float or x.is_const() or x.num.is_zero():
            return self.uf("log", x)
        if (math.e, x.num, x.den) in self.explog:
            return self.explog[(math.e, x.num, x.den)]
        if not (x > 0):
            self.event("log<=0")
            return NAN
        out = self.const(0)
        num, k = self._log_part(x.num)
        out = out + num
        for f, e in x.den:
            t, k2 = self._log_part(f)
            k *= k2
            out = out - t * e
        if k < 0:                           # signs of the parts unknown: one logarithm of the whole
            return self.uf("log", x)
        return out

    def _log_part(self, p):
        """log |p| and the sign of p, for the polynomial p (of known sign), else (0, -1)"""
        c, m = (Fraction(p.const()), None) if p.is_const() else p.monic()
        sg = 1 if c > 0 else -1
        out = self.const(0) + float(math.log(abs(c)))
        if m is None:
            return out, sg
        mc = m.mono_content()
        if any(self._gen_sign(g) != frozenset((1,)) for g, e in mc):
            return self.const(0), -1
        for g, e in mc:
            r = self.ring.pow_rules.get(g)
            if r is not None and r[0] == 2 and self.gens[g].kind == "sqrt":
                t, s = self._log_part(r[1])
                if s < 0:
                    return self.const(0), -1
                out = out + t * Fraction(e, 2)
            elif g in self.powof:
                b, ex = self.powof[g]
                out = out + self.log(b) * ex * e
            elif g in self.ufargs and self.ufargs[g][0] == f"exp{math.e}":
                out = out + self.ufargs[g][1] * e
            else:
                out = out + self.uf("log", SymReal(pvar(g), (), True)) * e
        rest = m.div_mono(mc) if mc else m
        if not rest.is_const():
            s = self.known_sign(rest)
            if s == frozenset((-1,)):
                rest, sg = rest.neg(), -sg
            elif s != frozenset((1,)):
                return self.const(0), -1
            out = out + self.uf("log", SymReal(rest))
        return out, sg

    def int_gens(self, x):
        """x = integer + sum of integer multiples of integer unknowns?"""
        return not x.den and all(
            F(c).denominator == 1 and (not m or (len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "floor"))
            for m, c in x.num.t.items())

    def floor_log(self, x, trunc=False):
        """floor (or truncation) of k + log10(y), decided by comparing y with powers of ten; None if x is
        not of that form"""
        k, lg = F(0), None
        if x.den:
            return None
        for m, c in x.num.t.items():
            if not m:
                k = F(c)
            elif lg is None and c == 1 and len(m) == 1 and m[0][1] == 1 and \
                    self.ufargs.get(m[0][0], ("",))[0] == "log10":
                lg = self.ufargs[m[0][0]][1]
            else:
                return None
        if lg is None or k.denominator != 1:
            return None
        k = int(k)
        ten = lambda e: F(10) ** e
        lo, hi = -40, 40                     # 10^lo <= y < 10^hi
        if lg < self.const(ten(lo)) or lg >= self.const(ten(hi)):
            raise Unsupported("logarithm out of range")
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if lg < self.const(ten(mid)):
                hi = mid
            else:
                lo = mid
        if trunc and k + lo < 0 and lg != self.const(ten(lo)):
            lo += 1
        return self.const(k + lo)

    def concretise(self, x):
        """the value of an integer-valued expression, one path per value"""
        if x.is_const():
            return x.num.const()
        if not self.int_gens(x):
            raise Unsupported("float(symbolic)")
        lo, hi = -10 ** 7, 10 ** 7
        if x < lo or x >= hi:
            raise Unsupported("integer out of range")
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if x < mid:
                hi = mid
            else:
                lo = mid
        return F(lo)

    def fmt_digits(self, n, p):
        """'%.{p}g' of an integer-valued expression with p digits: a string whose characters stand
        for its digits"""
        if not (n >= 10 ** (p - 1)) or not (n < 10 ** p):
            return None
        if n == 10 ** (p - 1):
            return "%.*g" % (p, float(10 ** (p - 1)))
        if not self.int_gens(n):
            return None
        for k, (m, r) in enumerate(self.digits):
            if r == p and (m - n).num.is_zero():
                break
        else:
            k = len(self.digits)
            self.digits.append((n, p))
        return "".join(chr(0xE000 + 32 * k + i) for i in range(p))

    def format(self, x, sign, zero, width, k, kind):
        """fixed and scientific notation: one path per sign and number of digits (ties in the last digit, a null
        set, go away from zero)"""
        k = int(k)
        neg = x < 0
        if neg:
            x = -x
        tail = ""
        if kind in "fF":
            n = self.floor(x * self.const(F(10) ** k) + self.const(F(1) / 2))
        elif x == 0:
            n, tail = self.const(0), "e+00"
        else:
            lo, hi = -20, 20                     # 10^lo <= x < 10^hi
            if x < self.const(F(10) ** lo) or x >= self.const(F(10) ** hi):
                raise Unsupported("format out of range")
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if x < self.const(F(10) ** mid):
                    hi = mid
                else:
                    lo = mid
            n = self.floor(x * self.const(F(10) ** (k - lo)) + self.const(F(1) / 2))
            if n >= 10 ** (k + 1):
                n, lo = self.const(10 ** k), lo + 1
            tail = "%s%s%02d" % (kind, "-" if lo < 0 else "+", abs(lo))
        p = 1
        while not n < 10 ** p:
            p += 1
            if p > 25:
                raise Unsupported("format out of range")
        if n.is_const():
            ds = str(int(n.num.const()))
        elif p == 1:
            ds = next(str(d) for d in range(10) if d == 9 or n == d)
        else:
            ds = self.fmt_digits(n, p)
            if ds is None:
                raise Unsupported("digits of this")
        ds = ds.rjust(k + 1, "0")
        body = (ds[:len(ds) - k] + "." + ds[len(ds) - k:] if k else ds) + tail
        sg = "-" if neg else sign if sign in ("+", " ") else ""
        w = int(width or 0)
        return sg + body.rjust(w - len(sg), "0") if zero else (sg + body).rjust(w)

    def number(self, s):
        """value of a decimal string that may contain digit characters of fmt_digits; None if malformed"""
        s = s.strip()
        sg = -1 if s[:1] == "-" else 1
        s = s.lstrip("+-") if s[:1] in "+-" else s
        man, _, ex = s.replace("E", "e").partition("e")
        try:
            ex = int(ex) if ex else 0
        except ValueError:
            return None
        if man.count(".") > 1 or not man.strip("."):
            return None
        ip, _, fp = man.partition(".")
        tot, sc = self.const(0), ex - len(fp)
        ds = ip + fp
        i = 0
        while i < len(ds):
            c = ord(ds[i])
            if c >= 0xE000 and (c - 0xE000) // 32 < len(self.digits):
                k, a = divmod(c - 0xE000, 32)
                n, p = self.digits[k]
                j = i
                while j < len(ds) and ord(ds[j]) == c + (j - i):
                    j += 1
                b = a + (j - i)              # digits a..b-1 of n
                v = n if b == p else self.floor(n / self.const(F(10) ** (p - b)))
                if a:
                    v = v - self.floor(n / self.const(F(10) ** (p - a))) * (10 ** (b - a))
                tot = tot * (10 ** (j - i)) + v
                i = j
            elif ds[i].isdigit() and c < 128:
                tot = tot * 10 + int(ds[i])
                i += 1
            else:
                return None
        return tot * self.const(F(10) ** sc) * sg

    def floor(self, x):
        x = lift(x)
        if type(x) is float:
            return x
        if x.is_const():
            return self.const(math.floor(x.num.const()))
        if self.ufargs:
            v = self.floor_log(x)
            if v is not None:
                return v
        key = (x.num, x.den)
        if key in self.floors:
            return self.floors[key]
        g = self.new_gen(f"floor{len(self.floors)}", "floor")
        zi = z3.Int(g.name + "!i")
        if x.den:
            q = z3.Real(g.name + "!q")
            g.defs = [q * self.zden(x) == self.zpoly(x.num)]
        else:
            q, g.defs = self.zpoly(x.num), []
        g.defs += [g.z == z3.ToReal(zi), g.z <= q, q < g.z + 1]
        g.deps = set(x.gens())
        with np.errstate(all="ignore"):
            g.samp = np.floor(self.reval(x))
        v = self.gsym(g)
        self.floors[key] = v
        return v

    def round(self, x, n=0):
        """to the nearest multiple of 10^-n (ties, a null set, go up)"""
        k = F(10) ** int(n)
        return self.floor(x * self.const(k) + self.const(F(1) / 2)) / self.const(k)

    # -------------------------------------------------------------- models
    def zinputs(self):
        out = {}
        for n, v in self.inputs.items():
            for gid in v.gens():
                g = self.gens[gid]
                out[g.name] = g.z
                a = self.angles.get(gid)
                if a and a.get("pair"):
                    for h in a["pair"]:
                        out[h.name] = h.z
        return out

    def values_from_model(self, mdl, gens=None, nice=False):
        """input values of a model; inputs the query does not mention keep a witness
        value (or a simple one)"""
        idx = np.nonzero(self.mask)[0]
        k = int(idx[0]) if len(idx) else 0
        vals = {}
        for n, v in self.inputs.items():
            gid = next(iter(v.gens()))
            g = self.gens[gid]
            a = self.angles.get(gid)
            if gens is not None and gid not in gens and not (a and a.get("pair") and a["pair"][0].id in gens):
                vals[n] = float(g.nice) if nice and g.nice is not None else float(g.samp[k])
            elif a and a.get("pair") and a["pair"][0].name in mdl and g.kind == "angle":
                vals[n] = 2 * math.atan2(float(mdl[a["pair"][1].name]), float(mdl[a["pair"][0].name]))
            elif g.name in mdl:
                vals[n] = float(mdl[g.name])
            else:
                vals[n] = float(g.samp[k])
        return vals

    def degenerate(self):
        """some branch on this path pins a quantity to an exact value"""
        return self.eqpath

    def values_from_sample(self, k):
        return {n: float(self.gens[next(iter(v.gens()))].samp[k]) for n, v in self.inputs.items()}


def _seq_ops():
    """a numpy scalar combined with a list or tuple gives an array"""
    import operator
    for n, f in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("truediv", operator.truediv)):
        for pre in ("__", "__r"):
            name = pre + n + "__"
            old = getattr(SymReal, name)

            def new(self, o, old=old, f=f, rev=(pre == "__r")):
                if isinstance(o, (list, tuple)):
                    from .npshim import np_array
                    a = np_array(o)
                    return f(a, self) if rev else f(self, a)
                return old(self, o)
            setattr(SymReal, name, new)


_seq_ops()
