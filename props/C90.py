"""Fermi-Dirac integrals: the fast approximation and the quadrature agree with the integral itself.

Oracle: F_j(eta) = 1/Gamma(j+1) int x^j/(1+exp(x-eta)) dx is convex and increasing in eta, and concave in w = exp(eta)
(each x contributes w/(w + e^x)). So between two arguments it lies between tangent and chord; their end values come from
mpmath's polylogarithm at 30 digits. Within a cell the solver compares the code's expression with these lines."""
import math
from fractions import Fraction as F

from props.h import *

ASSUMES = ["exp(eta) is an unknown w > 0 tied to eta by its law of multiples and by the ends of each cell of eta",
           "quadrature at 20 fixed refinements (its accuracy at more is not decided)"]
G = {-0.5: math.sqrt(math.pi), 0.5: math.sqrt(math.pi) / 2, 1: 1.0, 1.5: 0.75 * math.sqrt(math.pi), 2: 2.0}
_memo = {}


def fd(j, eta):
    """the integral ('script') to double precision"""
    if (j, eta) not in _memo:
        import mpmath as mp
        with mp.workdps(30):
            v = float(mp.re(-mp.polylog(mp.mpf(j) + 1, -mp.exp(mp.mpf(eta)))))
        _memo[j, eta] = v
    return _memo[j, eta]


def approx_cells(env):
    a, b = env.p.cells[env.choose(len(env.p.cells), "cell")]
    eta = env.real("eta", a, b)
    y = env.m.general.FD_int_approx(eta, 0.5)[0] / G[0.5]
    env.observe("y", y)
    low = fd(0.5, a) + fd(-0.5, a) * (eta - a)              # tangent below, chord above
    high = fd(0.5, a) + (fd(0.5, b) - fd(0.5, a)) / (b - a) * (eta - a)
    t = env.p.tol
    env.true(env.AND(y >= (1 - t) * low, y <= (1 + t) * high), "close to the integral")


def dilute(env):
    """eta <= -2: the alternating series in w"""
    eta = env.real("eta", -600, -2)
    w = env.exp(eta)
    env.require(w <= math.exp(-2) * (1 + 1e-9))
    y = env.m.general.FD_int_approx(eta, 0.5)[0] / G[0.5]
    if env.p.even:
        env.require(eta >= -20)
        env.observe("y", y)
    ser = lambda n: sum((-1) ** k * w ** k / (k + 1) ** 1.5 for k in range(n))
    r = y / w
    env.true(env.AND(r >= (1 - 1e-6) * ser(8), r <= (1 + 1e-6) * ser(7)), "within one part in a million of the integral")


def degenerate(env):
    """eta >= 30: Sommerfeld's expansion (the next term is below 1e-6 of the whole)"""
    eta = env.real("eta", 30, 1e9)
    y = env.m.general.FD_int_approx(eta, 0.5)[0]
    r = y / (eta * env.sqrt(eta)) * 1.5
    env.observe("r", r)
    s = 1 + math.pi ** 2 / 8 / eta ** 2 + 7 * math.pi ** 4 / 640 / eta ** 4
    s = s + 31 * math.pi ** 6 / 3072 / eta ** 6
    env.true(env.AND(r >= (1 - 1e-6) * s, r <= (1 + 1e-6) * s), "within one part in a million of the integral")


def refused(env):
    eta = env.real("eta", -50, 50)
    j = env.pick([-0.5, 0, 1, 1.5, 2])
    r = env.m.general.FD_int_approx(eta, j)
    env.true(len(r) == 1 and r[0] != r[0], "other orders give no number")


def quadrature(env):
    env.lazy_abs()
    j = env.p.j
    a, b = env.p.cells[env.choose(len(env.p.cells), "cell")]
    eta = env.real("eta", a, b)
    w = env.exp(eta)
    wa, wb = math.exp(a), math.exp(b)
    env.require(env.AND(w >= wa * (1 - 1e-12), w <= wb * (1 + 1e-12)))
    kind = env.p.kind
    y, n, err = env.m.general.FD_int_num(eta, j, tol=0, Nmax=env.p.nmax, **({} if kind is None else dict(fType=kind)))
    if kind != "script":
        y = y / G[j]
    env.observe("y", y)
    env.true(int(n) == env.p.nmax, "refined as often as asked")
    low = fd(j, a) + (fd(j, b) - fd(j, a)) / (wb - wa) * (w - wa)       # chord below, tangent above
    high = fd(j, a) + fd(j - 1, a) / wa * (w - wa)
    t = env.p.tol
    env.true(env.AND(y >= (1 - t) * low, y <= (1 + t) * high), "close to the integral")


def stops(env):
    """the error reported is that of the last refinement, and refinement stops as soon as it is below tol"""
    j = env.p.j
    eta = env.real("eta", -2, 2)
    f = env.m.general.FD_int_num
    tol = 0.1
    y, n, err = f(eta, j, tol=tol, Nmax=4, fType="script")
    n = int(n)
    env.true(2 <= n <= 4, "at least two, at most Nmax refinements")
    if n < 4:
        env.true(err < tol, "stopped because converged")
    y2, n2, err2 = f(eta, j, tol=0, Nmax=n, fType="script")
    env.eq(y, y2, "the last refinement is returned")
    env.eq(err, err2, "with its error")
    y1, n1, _ = f(eta, j, tol=0, Nmax=n - 1, fType="script") if n > 2 else (None, 0, 0)
    if y1 is not None:
        env.eq(err / G[j], abs(y - y1), "the error is the change made by the last refinement", tol=1e-6)


def limits(env):
    """outside -20..20: classical and degenerate limits"""
    j = env.p.j
    f = env.m.general.FD_int_num
    kind = env.pick(["script", "roman", None])
    k = 1.0 if kind == "script" else G[j]
    kw = {} if kind is None else dict(fType=kind)
    if env.boolean("dilute"):
        eta = env.real("eta", -600, -20.001)
        y = f(eta, j, **kw)[0]
        r = y / k / env.exp(eta)
        env.true(env.AND(r >= 1 - 1e-6, r <= 1 + 1e-6), "the classical limit")
    else:
        eta = env.real("eta", 20.001, 1e6)
        y = f(eta, j, **kw)[0]
        env.observe("y", y)
        gam = {-0.5: 0.5, 0.5: 0.75, 1: 2.0, 1.5: 15 / 8, 2: 6.0}[j] * (math.sqrt(math.pi) if j != int(j) else 1.0)
        e = eta ** int(j + 1) * (env.sqrt(eta) if j != int(j) else 1)
        r = y / k * gam / e
        env.true(env.AND(r >= 1 - 1e-6, r <= 1 + 1e-6), "the degenerate limit")


def split(lo, hi, n):
    return [(lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 1) / n) for i in range(n)]


def goals(tier):
    q = tier == "quick"
    out = [Goal("approximation, dilute", dilute, dict(even=e), bounds=f"-600<=eta<=-2{', compared above -20' if e else ''}")
           for e in (False, True)]
    for lo, hi, n, t in ((-1.9999999, 0, 80, 1e-4), (0, 3, 120, 5e-5), (3, 10, 160, 5e-5), (10.000001, 30, 200, 2e-6)):
        out.append(Goal(f"approximation {lo}..{hi}", approx_cells, dict(cells=split(lo, hi, n), tol=t),
                        bounds=f"{n} cells, every eta, to {t}"))
    out.append(Goal("approximation, degenerate", degenerate, bounds="30<=eta<=1e9"))
    out.append(Goal("other orders", refused, bounds="|eta|<=50"))
    for j in (-0.5, 0.5, 1.5):
        for kind in ("script", "roman") if q else ("script", "roman", None):
            out.append(Goal(f"quadrature j={j} {kind}", quadrature,
                            dict(j=j, kind=kind, nmax=14 if q else 20, tol=({-0.5: 2e-4}.get(j, 2e-3)) if q else {-0.5: 3e-5, 0.5: 3e-4}.get(j, 6e-4),
                                 cells=split(-5, 1 if q else 2, 12 if q else 60)),
                            bounds=f"-5<=eta<={1 if q else 2}, {14 if q else 20} refinements"))
        t = {-0.5: 1e-5, 0.5: 5e-5, 1.5: 6e-4}[j]
        out.append(Goal(f"quadrature j={j} dilute", quadrature, dict(j=j, kind="script", nmax=14, tol=t, cells=[(-20, -12), (-12, -9)]),
                        bounds=f"-20<=eta<=-9, 14 refinements, to {t}"))
        out.append(Goal(f"limits j={j}", limits, dict(j=j), bounds="-600..-20 and 20..1e6"))
    out.append(Goal("stopping", stops, dict(j=0.5), bounds="-2<=eta<=2, at most 4 refinements"))
    for j in (1, 2):
        out.append(Goal(f"limits j={j}", limits, dict(j=j), bounds="-600..-20 and 20..1e6"))
    return out
