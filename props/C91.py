"""Interpolation on logarithmic axes: through the data, and a power law between (and beyond) neighbours."""
import math

import numpy as np

from props.h import *

ASSUMES = ["logarithms and powers are known by their order, their values at 1, their inverse and the laws of sums and "
           "multiples; scipy's linear spline is replaced by the line through neighbours that it computes"]


def data(env, n):
    xs, ys = [], []
    for i in range(n):
        xs.append(env.real(f"x{i}", 1e-3, 1e3))
        ys.append(env.real(f"y{i}", 1e-3, 1e3))
        if i:
            env.require(xs[i] >= 1.01 * xs[i - 1])
    return xs, ys


def nodes(env):
    """the curve passes through every data point"""
    n = env.p.n
    xs, ys = data(env, n)
    f = env.m.general.log_interp1d(env.A(xs), env.A(ys))
    k = env.choose(n, "node")
    v = f(xs[k])
    env.observe("v", v)
    env.eq(v / ys[k], 1, "passes through its data")


def between(env):
    """log y is linear in log x from one data point to the next, and goes on so beyond the ends"""
    n = env.p.n
    xs, ys = data(env, n)
    f = env.m.general.log_interp1d(env.A(xs), env.A(ys))
    k = env.choose(n - 1, "interval")
    z = env.real("z", 1e-4, 1e4)
    first, last = k == 0 and env.p.beyond, k == n - 2 and env.p.beyond
    if not first:
        env.require(z >= 1.001 * xs[k])
    if not last:
        env.require(z <= 0.999 * xs[k + 1])
    v = f(z)
    env.observe("v", v)
    L = env.log10
    lv, lz, x0, x1, y0, y1 = L(v), L(z), L(xs[k]), L(xs[k + 1]), L(ys[k]), L(ys[k + 1])
    env.eq((lv - y0) * (x1 - x0), (y1 - y0) * (lz - x0), "a power law between neighbours")
    if not env.p.beyond:
        env.true(env.OR(env.AND(lv >= y0 - 1e-9, lv <= y1 + 1e-9), env.AND(lv <= y0 + 1e-9, lv >= y1 - 1e-9)),
                 "between its neighbours")


def many(env):
    """a long table of fixed numbers, one of them free"""
    n = env.p.n
    xs = [0.01 * 1.5 ** i for i in range(n)]
    ys = [1.0 + (i * 5) % 7 for i in range(n)]
    k = env.pick([1, n // 2, n - 2])
    ys[k] = env.real("y", 1e-2, 1e2)
    f = env.m.general.log_interp1d(env.A(xs), env.A(ys))
    v = f(xs[k])
    env.observe("v", v)
    env.eq(v / ys[k], 1, "passes through its data")
    for i in (0, k // 2, k + 1, n - 1):
        env.eq(f(xs[i]) / ys[i], 1, "passes through its data")
    z = xs[k] * 1.2                               # a place between this point and the next
    L, c = env.log10, math.log(1.2) / math.log(1.5)
    env.eq(L(f(z)), (1 - c) * L(ys[k]) + c * math.log10(ys[k + 1]), "a power law between neighbours")
    if k >= 3:
        a = f(xs[k - 2] * 1.2)
        env.eq(a / (ys[k - 2] ** (1 - c) * ys[k - 1] ** c), 1, "whatever the others are")


def arrays(env):
    """arrays in, arrays out, point by point; the data stay as they were"""
    xs, ys = data(env, 2)
    X, Y = env.A(xs), env.A(ys)
    f = env.m.general.log_interp1d(X, Y)
    z = [env.real(f"z{i}", 1e-2, 1e2) for i in range(2)]
    v = f(env.A(z))
    env.true(np.shape(v) == (2,), "one value per point")
    for i in range(2):
        env.eq(v[i] / f(z[i]), 1, "the same as one at a time")
        env.eq(X[i], xs[i], "abscissae untouched")
        env.eq(Y[i], ys[i], "ordinates untouched")


def goals(tier):
    b = "any data 1e-3..1e3, abscissae at least 1% apart, query 1e-4..1e4; "
    out = []
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        out.append(Goal(f"through {n} points", nodes, dict(n=n), bounds=b))
        for y in (False, True):
            out.append(Goal(f"between {n} points" + (" and beyond" if y else ""), between, dict(n=n, beyond=y), bounds=b))
    k = 12 if tier == "quick" else 40
    out.append(Goal("a long table", many, dict(n=k), bounds=f"{k} points a factor 1.5 apart, one ordinate 0.01..100 free"))
    out.append(Goal("arrays", arrays, bounds=b))
    return out
