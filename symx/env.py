"""The two environments a harness runs in: SymEnv (symbolic inputs, obligations go
to the solver) and ConcreteEnv (inputs fixed to a model / witness, the same
obligations are evaluated on the real modules)."""
import contextlib
import math
from fractions import Fraction

import numpy as np
import z3

from . import core, npshim
from .core import SymBool, SymReal, Infeasible, band, bor, bnot, is_sym, lift, zq
from .poly import F, P1, Poly


class Fail(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    """end this path quietly (nothing more to check on it)"""


def _rotcols(w, x, y, z):
    return [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
            [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
            [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]]


def _zcols(a, b):
    D = 1 + a * a + b * b
    return [[1 - 2 * a * a / D, -2 * a * b / D, -2 * a / D],
            [-2 * a * b / D, 1 - 2 * b * b / D, -2 * b / D],
            [2 * a / D, 2 * b / D, 2 / D - 1]]


class BaseEnv:
    symbolic = False

    # ---- shared helpers
    def dot(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def sub(self, a, b):
        return [x - y for x, y in zip(a, b)]

    def add(self, a, b):
        return [x + y for x, y in zip(a, b)]

    def scale(self, k, a):
        return [k * x for x in a]

    def norm2(self, a):
        return self.dot(a, a)

    def vec3(self, name, lo=None, hi=None):
        return self.A([self.real(f"{name}.{c}", lo, hi) for c in "xyz"])

    def eqv(self, a, b, label, tol=None):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label + ": wrong length")
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, f"{label}[{i}]", tol)

    def stop(self):
        raise Stop()

    def rounding(self):
        """with env.rounding(): arithmetic as doubles do it, every result off by at most half an ulp"""
        return contextlib.nullcontext()


# --------------------------------------------------------------------- symbolic
class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ctx, mods, params):
        self.ctx, self.m, self.p = ctx, mods, params
        self.choices = []
        self.observed = []

    def A(self, xs):
        return npshim.np_array(list(xs))

    # ---- inputs
    def real(self, name, lo=None, hi=None, samp=None):
        return self.ctx.real(name, lo, hi, samp)

    def unit3(self, name):
        """arbitrary unit vector"""
        ctx = self.ctx
        r = ctx.rng(name)
        v = r.normal(size=(3, core.NS))
        # a share of near-axis directions
        k = core.NS // 5
        v[:, :k] *= np.array([0.05, 0.05, 1.0])[:, None]
        v[:, k:2 * k] *= np.array([0.05, 1.0, 0.05])[:, None]
        v[:, 2 * k:3 * k] *= np.array([1.0, 0.05, 0.05])[:, None]
        v = v / np.linalg.norm(v, axis=0)
        return self.A(self.sphere_gens([f"{name}.{c}" for c in "xyz"], v))

    def sphere_gens(self, names, samples, kind="input"):
        """generators with sum of squares 1 (the last one carries the rewrite rule)"""
        ctx = self.ctx
        gs = []
        for nm, smp in zip(names, samples):
            g = ctx.new_gen(nm, kind)
            g.lo, g.hi = F(-1), F(1)
            g.samp = smp
            g.nice = 0
            gs.append(g)
        gs[-1].nice = 1
        rel = z3.Sum(*[g.z * g.z for g in gs]) == 1
        for g in gs:
            g.defs = [rel, g.z <= 1, g.z >= -1]
            g.deps = {h.id for h in gs if h is not g}
        p = P1
        for g in gs[:-1]:
            p = p.sub(Poly({((g.id, 2),): 1}))
        ctx.ring.add_pow_rule(gs[-1].id, 2, p)
        vs = [ctx.gsym(g) for g in gs]
        for g, s in zip(gs, vs):
            ctx.inputs[g.name] = s
        return vs

    def frame(self, name):
        """arbitrary right-handed orthonormal frame (columns of the rotation matrix of
        an arbitrary unit quaternion)"""
        r = self.ctx.rng(name)
        q = r.normal(size=(4, core.NS))
        k = core.NS // 8
        q[:3, :k] *= 0.02
        q[0, k:2 * k] = q[2, k:2 * k] = 0.0
        q = q / np.linalg.norm(q, axis=0)
        x, y, z, w = self.sphere_gens([f"{name}.{c}" for c in "xyzw"], q)
        return [self.A(v) for v in _rotcols(w, x, y, z)]

    def zframe(self, name, lim=50, off=0):
        """orthonormal frame whose third axis is any direction except a small cap around
        -z (stereographic coordinates), the other two its minimal rotation from x, y"""
        a, b = self.real(name + ".a", -lim, lim), self.real(name + ".b", -lim, lim)
        if off:
            self.require(a * a + b * b >= off * off)
        return [self.A(v) for v in _zcols(a, b)]

    def circle(self, name):
        """arbitrary (c, s) with c^2 + s^2 = 1"""
        t = self.ctx.rng(name).uniform(-math.pi, math.pi, core.NS)
        return self.sphere_gens([f"{name}.c", f"{name}.s"], [np.cos(t), np.sin(t)])

    def angle(self, name, lo=None, hi=None):
        return self.ctx.angle_input(name, lo, hi)

    def cossin(self, th):
        return self.ctx.cos_sin(th)

    def sqrt(self, x):
        return self.ctx.sqrt(x) if is_sym(x) else math.sqrt(x)

    @contextlib.contextmanager
    def rounding(self):
        self.ctx.rounding = True
        try:
            yield
        finally:
            self.ctx.rounding = False

    def exact(self, x):
        return x

    def lazy_abs(self):
        """absolute values become unknowns instead of case splits"""
        self.ctx.lazyabs = True

    def exp(self, x):
        return self.ctx.exp(x) if is_sym(x) else math.exp(x)

    def log(self, x):
        return self.ctx.log(x) if is_sym(x) else math.log(x)

    def log10(self, x):
        return self.ctx.uf("log10", x) if is_sym(x) else math.log10(x)

    def choose(self, n, name="choice"):
        k = self.ctx.choose(n, name)
        self.choices.append(k)
        return k

    def pick(self, options):
        return options[self.choose(len(options))]

    def boolean(self, name):
        return bool(self.choose(2, name))

    # ---- logic
    def assume(self, c):
        self.ctx.assume(c)

    def require(self, c, what=""):
        """inputs outside the property's domain"""
        self.ctx.assume(c)

    def decide(self, c):
        return bool(c)

    def known(self, c):
        """truth value when it is already fixed on this path, else None (no fork)"""
        if not isinstance(c, SymBool):
            return bool(c)
        return None

    def observe(self, name, v):
        self.observed.append((name, v))

    # ---- obligations
    def fail(self, label):
        self.ctx.eng.discharge(self.ctx, self, False, None, label)

    def true(self, c, label, robust=None):
        if isinstance(c, np.ndarray):
            c = band(*list(c.flat))
        self.ctx.eng.discharge(self.ctx, self, c, robust, label)

    def _num(self, x, label):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, complex):
            self.fail(label + ": complex")
            raise Stop()
        if x is None:
            self.fail(label + ": None")
            raise Stop()
        l = lift(x)
        if l is None:
            self.fail(label + f": not a number ({type(x).__name__})")
            raise Stop()
        if type(l) is float:
            self.fail(label + f": {l}")
            raise Stop()
        return l

    def eq(self, a, b, label, tol=None):
        a, b = self._num(a, label), self._num(b, label)
        tol = self.ctx.eng.tol if tol is None else tol
        d = a - b
        if d.num.is_zero() or d.is_const() and abs(d.num.const()) <= 1e-3 * tol:    # rounding of constants
            self.ctx.eng.count_norm(self.ctx, label)
            return
        c = d == 0
        d2 = d * d
        rob = lambda t: (d2 > F(t) ** 2)
        self.ctx.eng.discharge(self.ctx, self, c, (rob, tol), label)

    def le(self, a, b, label, tol=None):
        a, b = self._num(a, label), self._num(b, label)
        tol = self.ctx.eng.tol if tol is None else tol
        c = a <= b
        d = a - b
        self.ctx.eng.discharge(self.ctx, self, c, (lambda t: d > F(t), tol), label)

    def lt(self, a, b, label, tol=None):
        a, b = self._num(a, label), self._num(b, label)
        tol = self.ctx.eng.tol if tol is None else tol
        c = a < b
        d = a - b
        self.ctx.eng.discharge(self.ctx, self, c, (lambda t: d > F(t), tol), label)

    def same(self, a, b, label):
        self.true(a == b, label) if not isinstance(a == b, SymBool) else self.eq(a, b, label)

    def is_finite(self, x, label):
        self._num(x, label)

    def number(self, s, label):
        """value of a decimal string"""
        v = self.ctx.number(s) if isinstance(s, str) else None
        if v is None:
            self.fail(label + ": not a decimal number")
            raise Stop()
        return v

    def AND(self, *cs):
        return band(*cs)

    def OR(self, *cs):
        return bor(*cs)

    def NOT(self, c):
        return bnot(c)


# --------------------------------------------------------------------- concrete
class ConcreteEnv(BaseEnv):
    def __init__(self, values, choices, mods, params, tol=1e-6):
        self.values, self.m, self.p = values, mods, params
        self.todo = list(choices)
        self.observed = []
        self.failures = []
        self.tol = tol

    def A(self, xs):
        return np.array([float(x) for x in xs])

    def real(self, name, lo=None, hi=None, samp=None):
        v = float(self.values.get(name, 0.0))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def unit3(self, name):
        v = np.array([float(self.values.get(f"{name}.{c}", 0.0)) for c in "xyz"])
        n = np.linalg.norm(v)
        if n == 0:
            v = np.array([0.0, 0.0, 1.0])
            n = 1.0
        return v / n

    def frame(self, name):
        q = np.array([float(self.values.get(f"{name}.{c}", 0.0)) for c in "xyzw"])
        n = np.linalg.norm(q)
        x, y, z, w = q / n if n else (0.0, 0.0, 0.0, 1.0)
        return [np.array(v) for v in _rotcols(w, x, y, z)]

    def zframe(self, name, lim=50, off=0):
        a, b = self.real(name + ".a", -lim, lim), self.real(name + ".b", -lim, lim)
        if off:
            self.require(a * a + b * b >= off * off)
        return [np.array(v) for v in _zcols(a, b)]

    def circle(self, name):
        c, s = (float(self.values.get(f"{name}.{k}", 0.0)) for k in "cs")
        n = math.hypot(c, s)
        return (c / n, s / n) if n else (1.0, 0.0)

    def angle(self, name, lo=None, hi=None):
        return float(self.values.get(name, 0.0))

    def cossin(self, th):
        return math.cos(th), math.sin(th)

    def sqrt(self, x):
        if isinstance(x, Fraction):
            k = 1 << 200
            return Fraction(math.isqrt(int(max(x, 0) * k * k)), k)
        return math.sqrt(max(x, 0.0))

    def exact(self, x):
        """the number itself, for arithmetic without rounding"""
        return Fraction(float(x))

    def lazy_abs(self):
        pass

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x) if x > 0 else float("nan")

    def log10(self, x):
        return math.log10(x) if x > 0 else float("nan")

    def choose(self, n, name="choice"):
        return self.todo.pop(0) if self.todo else 0

    def pick(self, options):
        return options[self.choose(len(options))]

    def boolean(self, name):
        return bool(self.choose(2, name))

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    require = assume

    def decide(self, c):
        return bool(c)

    def known(self, c):
        return bool(c)

    def observe(self, name, v):
        self.observed.append((name, v))

    def fail(self, label):
        self.failures.append((label, "fails"))

    def true(self, c, label, robust=None):
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if not c:
            self.failures.append((label, "false"))

    def _num(self, x, label):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, complex) or x is None or not isinstance(x, (int, float, np.number, np.bool_,
                                                                                 Fraction)):
            self.failures.append((label, f"not a real number: {x!r}"))
            raise Stop()
        if x != x or x in (math.inf, -math.inf):
            self.failures.append((label, f"not finite: {x!r}"))
            raise Stop()
        return float(x)

    def _slack(self, a, b, tol):
        t = self.tol if tol is None else tol
        return t * 0.5 + 1e-9 * (abs(a) + abs(b))

    def eq(self, a, b, label, tol=None):
        a, b = self._num(a, label), self._num(b, label)
        if abs(a - b) > self._slack(a, b, tol):
            self.failures.append((label, f"{a!r} != {b!r}"))

    def le(self, a, b, label, tol=None):
        a, b = self._num(a, label), self._num(b, label)
        if a - b > self._slack(a, b, tol):
            self.failures.append((label, f"{a!r} > {b!r}"))

    lt = le

    def same(self, a, b, label):
        if not (a == b):
            self.failures.append((label, f"{a!r} != {b!r}"))

    def is_finite(self, x, label):
        self._num(x, label)

    def number(self, s, label):
        try:
            return float(s)
        except (ValueError, TypeError):
            self.failures.append((label, f"not a decimal number: {s!r}"))
            raise Stop()

    def AND(self, *cs):
        return all(bool(c) for c in cs)

    def OR(self, *cs):
        return any(bool(c) for c in cs)

    def NOT(self, c):
        return not c
