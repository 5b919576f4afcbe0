"""to_precision: decimal strings with p significant digits."""
import math

from props.h import *

ASSUMES = ["exact arithmetic: magnitudes whose p-digit rounding is within 1e-9 of a tie may go either way in floats"]


def digits(s):
    """significant digit characters of a decimal string"""
    m = s.lstrip("+-").replace("E", "e").partition("e")[0]
    d = m.replace(".", "")
    return d.lstrip("0"), m


def precise(env):
    g = env.m.general
    p = env.p.p
    lo, hi = env.p.range
    x = env.real("x", 10.0 ** lo, 10.0 ** hi)
    E = hi
    for k in range(lo, hi + 1):
        if env.decide(x < 10.0 ** (k + 1)):
            E = k
            break
    if env.boolean("negative"):
        x = -x
    s = g.to_precision(x, p)
    env.true(isinstance(s, str), "a string")
    v = env.number(s, "a decimal number")
    env.observe("v", v)
    half = 10.0 ** (E - p + 1) / 2 * (1 + 1e-6)
    d = v - x
    env.true(env.AND(d <= half, d >= -half), "within half a unit of the p-th digit")
    sig, man = digits(s)
    env.true(len(sig) == p, "exactly p significant digits")
    env.true(s[:1] == "-" if x is not None and env.decide(x < 0) else s[:1] != "-", "the sign is kept")
    env.true(not (man.startswith(".") or man.endswith(".")), "a digit on either side of the point")


def zero(env):
    g = env.m.general
    p = env.pick([1, 2, 3, 5, 8])
    s = g.to_precision(env.pick([0, 0.0, -0.0]), p)
    env.eq(env.number(s.rstrip(".") if s.rstrip(".") else s, "zero is a decimal number"), 0, "zero stays zero")
    env.true(len(s.replace(".", "").replace("-", "")) == p, "zero has p digits too")
    env.true(g.to_precision(float("nan"), p) == "NaN", "NaN is spelled out")


def goals(tier):
    q = tier == "quick"
    r = (-6, 8) if q else (-12, 15)
    out = [Goal(f"{p} digits", precise, dict(p=p, range=r), bounds=f"1e{r[0]} <= |x| <= 1e{r[1]}, either sign", weight=2)
           for p in ((1, 2, 3, 5) if q else range(1, 9))]
    for p, r in ((8, (-3, 4)), (3, (14, 18)), (3, (-20, -16))):
        out.append(Goal(f"{p} digits, 1e{r[0]} to 1e{r[1]}", precise, dict(p=p, range=r),
                        bounds=f"1e{r[0]} <= |x| <= 1e{r[1]}, either sign"))
    out.append(Goal("zero and NaN", zero, bounds="p in 1, 2, 3, 5, 8"))
    return out
