"""Equal 3D axes."""
from props.h import *


class Axes:
    """stand-in for a matplotlib 3D axes: limits in, limits out"""

    def __init__(self, lims):
        self.lims, self.calls = [list(l) for l in lims], 0

    def set(self, i, *a, **k):
        self.calls += 1
        if len(a) == 1:
            lo, hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo = k.get("left", k.get("bottom", k.get("xmin", k.get("ymin", k.get("zmin")))))
            hi = k.get("right", k.get("top", k.get("xmax", k.get("ymax", k.get("zmax")))))
        self.lims[i] = [lo, hi]

    def __getattr__(self, n):
        for i, c in enumerate("xyz"):
            if n in (f"get_{c}lim3d", f"get_{c}lim", f"get_{c}bound"):
                return lambda i=i: tuple(self.lims[i])
            if n in (f"set_{c}lim3d", f"set_{c}lim", f"set_{c}bound"):
                return lambda *a, i=i, **k: self.set(i, *a, **k)
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('axes.' + n)


def equal(env):
    g = env.m.general
    old = []
    for c in "xyz":
        lo, w = env.real(c + ".lo", -POS, POS), env.real(c + ".width", 0.001, 1000)
        if env.p.flip and env.boolean("inverted " + c):
            old.append((lo + w, lo))
        else:
            old.append((lo, lo + w))
    ax = Axes(old)
    g.set_axes_equal(ax)
    new = ax.lims
    env.observe("new", [v for l in new for v in l])
    spans = [n[1] - n[0] for n in new]
    env.eq(spans[0], spans[1], "the three axes span the same length")
    env.eq(spans[0], spans[2], "the three axes span the same length")
    widest = []
    for i, ((a, b), (c, d)) in enumerate(zip(old, new)):
        env.eq(c + d, a + b, "each axis keeps its centre")
        lo, hi = (a, b) if env.decide(a <= b) else (b, a)
        env.le(c, lo, "everything shown before is still shown")
        env.le(hi, d, "everything shown before is still shown")
        w = hi - lo
        e = spans[0] - w
        widest.append(env.AND(e <= 1e-9, e >= -1e-9))
    env.true(env.OR(*widest), "the common span is that of the widest axis")


def radius(env):
    g = env.m.general
    o = env.vec3("o", -POS, POS)
    r = env.real("r", 0, 1000)
    ax = Axes([(0, 1)] * 3)
    g.set_axes_radius(ax, o, r)
    for i in range(3):
        env.eqv(ax.lims[i], [o[i] - r, o[i] + r], "axis limits are origin -+ radius")


def goals(tier):
    b = "any limits within 2000, widths 0.001..1000"
    return [Goal("equal axes", equal, dict(flip=False), bounds=b),
            Goal("equal axes, some inverted", equal, dict(flip=True), bounds=b),
            Goal("radius", radius, bounds=b)]
