"""Array helpers: nearest element, moving average, Savitzky-Golay filter."""
from fractions import Fraction as F

import numpy as np

from props.h import *

ASSUMES = ["lengths, window sizes and orders up to the stated ones, every value free"]


def nearest(env):
    g = env.m.general
    xs = [env.real(f"x{i}", -POS, POS) for i in range(env.p.n)]
    if env.p.get("fixed"):               # all but one
        k = env.pick([0, env.p.n // 2, env.p.n - 1])
        xs = [x if i == k else 37 * ((i * 17) % env.p.n) - 700 for i, x in enumerate(xs)]
    v = env.real("v", -2 * POS, 2 * POS)
    a = env.A(xs)
    i, x = g.find_nearest(a, v)
    env.true(0 <= int(i) < env.p.n, "an index into the array")
    env.eq(x, xs[int(i)], "the element at that index")
    d = x - v
    for y in xs:
        e = y - v
        env.le(d * d, e * e, "nothing in the array is nearer", tol=1e-6)
    env.eqv(a, xs, "the array is unchanged")


def near(env, a, b, label):
    d = a - b
    env.true(env.AND(d <= 1e-6, d >= -1e-6), label)


def average(env):
    g = env.m.general
    n, N = env.p.n, env.p.N
    xs = [env.real(f"x{i}", -POS, POS) for i in range(n)]
    a = env.A(xs)
    y = g.movingAverageFast(a, N)
    env.true(len(y) == n, "as long as the data")
    env.observe("y", y)
    for i in range(n):
        lo, hi = i - N // 2, i - N // 2 + N          # N samples around i; of an even N, one more before it
        w = [xs[k] for k in range(lo, hi) if 0 <= k < n]
        near(env, y[i], sum(w) / N, "the mean of the N samples around it" if lo >= 0 and hi <= n else
             "samples beyond the ends count as zero")
    env.eqv(a, xs, "the data are unchanged")


def lsq(order, half, deriv):
    """exact weights: d-th derivative at 0 of the least-squares polynomial through y(-half..half)"""
    m = order + 1
    ks = range(-half, half + 1)
    A = [[F(sum(k ** (i + j) for k in ks)) for j in range(m)] + [F(k) ** i for k in ks] for i in range(m)]
    for c in range(m):
        p = next(r for r in range(c, m) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(m):
            if r != c and A[r][c]:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    f = 1
    for i in range(2, deriv + 1):
        f *= i
    return [x * f for x in A[deriv][m:]]


def golay(env):
    """inside, the value (or derivative) of the least-squares polynomial through the window around each point"""
    g = env.m.general
    n, win, order, deriv = env.p.n, env.p.win, env.p.order, env.p.deriv
    rate = env.real("rate", 0.1, 10) if env.p.get("rate") else 1
    h = win // 2
    xs = [env.real(f"x{i}", -POS, POS) for i in range(n)]
    if win > 9:                          # (the ends are folded over: values given there)
        xs = [x if h < i < n - h - 1 else (i * i) % 13 for i, x in enumerate(xs)]
    a = env.A(xs)
    kw = {}
    if deriv:
        kw["deriv"] = deriv
    if env.p.get("rate"):
        kw["rate"] = rate
    y = g.savitzky_golay(a, win, order, **kw)
    env.true(len(y) == n, "as long as the data")
    env.observe("y", y)
    w = lsq(order, h, deriv)
    for i in range(h, n - h):
        want = sum(float(w[j]) * rate ** deriv * xs[i - h + j] for j in range(1, win)) + \
            float(w[0]) * rate ** deriv * xs[i - h]
        d = y[i] - want
        env.true(env.AND(d <= 1e-6, d >= -1e-6), "the least-squares polynomial of the window")
    env.eqv(a, xs, "the data are unchanged")


def golay_const(env):
    """a constant stays constant up to the ends; its derivative is zero"""
    g = env.m.general
    c = env.real("c", -POS, POS)
    y = g.savitzky_golay(env.A([c] * env.p.n), env.p.win, env.p.order, deriv=env.p.deriv)
    env.true(len(y) == env.p.n, "as long as the data")
    for v in y:
        d = v - (c if env.p.deriv == 0 else 0)
        env.true(env.AND(d <= 1e-6, d >= -1e-6), "a constant signal stays constant, also at the ends")


def golay_line(env):
    """a rising straight line stays straight up to the ends"""
    g = env.m.general
    n, d = env.p.n, env.p.deriv
    c, s = env.real("c", -POS, POS), env.real("s", 0.001, 100)
    y = g.savitzky_golay(env.A([c + i * s for i in range(n)]), env.p.win, env.p.order, deriv=d)
    env.true(len(y) == n, "as long as the data")
    for i in range(n):
        near(env, y[i], c + i * s if d == 0 else s, "a rising line stays straight, also at the ends")


def golay_bad(env):
    g = env.m.general
    y = env.A([env.real(f"x{i}", -POS, POS) for i in range(7)])
    win, order = env.pick([(4, 1), (0, 0), (2, 1), (3, 2), (5, 4), (1, 0), (6, 2)])
    try:
        g.savitzky_golay(y, win, order)
    except TypeError:
        env.true(True, "even or too short windows are refused")
        return
    env.fail("even or too short windows are refused")


def goals(tier):
    q = tier == "quick"
    out = []
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
        out.append(Goal(f"nearest of {n}", nearest, dict(n=n), bounds=f"{n} values and target within 2000"))
    k = 14 if q else 24
    out.append(Goal("nearest of many", nearest, dict(n=k, fixed=True),
                    bounds=f"{k} values in no order, one at the start, middle or end anywhere within 1000, the target too"))
    for n, N in ([(5, 1), (5, 3), (6, 2), (7, 5), (6, 4), (40, 7), (60, 24)] + ([] if q else [(9, 7), (12, 5), (10, 9), (3, 3)])):
        out.append(Goal(f"moving average of {n} by {N}", average, dict(n=n, N=N), bounds="values within 1000"))
    cs = [(3, 1, 0), (5, 2, 0), (5, 3, 0), (5, 2, 1), (5, 3, 2), (3, 0, 0), (11, 4, 0), (21, 6, 1), (31, 2, 0)]
    if not q:
        cs += [(5, 3, 1), (7, 2, 0), (7, 4, 1), (7, 3, 3), (5, 1, 1)]
    for win, order, deriv in cs:
        n = win + 1 if win < 7 else win if win < 11 else win + 20
        out.append(Goal(f"Savitzky-Golay window {win} order {order} derivative {deriv}", golay,
                        dict(n=n, win=win, order=order, deriv=deriv), bounds=f"{n} values within 1000"))
    for deriv in ((0, 1, 2) if q else (0, 1, 2, 3)):
        out.append(Goal(f"Savitzky-Golay derivative {deriv} with a sampling rate", golay,
                        dict(n=6, win=5, order=3 if deriv == 3 else 2, deriv=deriv, rate=True),
                        bounds="6 values within 1000, rate 0.1..10"))
    for d in (0, 1):
        out.append(Goal(f"Savitzky-Golay of a constant, derivative {d}", golay_const,
                        dict(n=8, win=5, order=2, deriv=d), bounds="8 equal values within 1000"))
        out.append(Goal(f"Savitzky-Golay of a rising line, derivative {d}", golay_line,
                        dict(n=9, win=5, order=2, deriv=d), bounds="9 values rising by 0.001..100 each"))
    out.append(Goal("Savitzky-Golay refuses", golay_bad, bounds="windows 0, 1, 2, 3, 4, 5, 6"))
    return out
