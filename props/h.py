"""Shared harness pieces."""
from symx.core import Unsupported  # noqa
from symx.engine import Goal  # noqa

POS = 1000      # |coordinate| bound for centres
OFF = 2000      # |offset| bound in local frames
SIZE = (0.001, 1000)
HERE = 2e-11    # a surface this near the ray's start is the one it stands on, to within rounding


def pm(x):
    return (-x, x)


def comb(*terms):
    """sum of k*v"""
    r = None
    for k, v in terms:
        t = k * v
        r = t if r is None else r + t
    return r


def local_ray(env, c, fr, name="r", off=OFF, mk=True, **kw):
    """ray with arbitrary start and direction, written in the frame fr at c.
    returns (ray, (x,y,z) start, (a,b,g) unit direction)"""
    n, t, s = fr
    x, y, z = (env.real(f"{name}.{k}", -off, off) for k in "xyz")
    a, b, g = env.unit3(name + ".d")
    L = env.real(name + ".len", 0.01, 100)
    p = c + comb((x, n), (y, t), (z, s))
    d = comb((a, n), (b, t), (g, s))
    return p, L * d, d, (x, y, z), (a, b, g)
