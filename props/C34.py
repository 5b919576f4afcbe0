"""Crossings come out right to within rounding, however far away the light starts."""
from props.h import *

ASSUMES = ["light along an axis of the coordinates (cylinders and planes: lying along them too)",
           "curved surfaces: the crossing is off grazing by a nineteenth of the radius"]
TOL = 1e-11


def near(env, got, want, label):
    for k, (a, b) in enumerate(zip(got, want)):
        d = env.exact(a) - b
        env.true(env.AND(d <= TOL, d >= -TOL), f"{label}[{k}]")


def crossings(env, i, sg, R, across, away, meet):
    """light along sg * axis i passes the middle of a round thing at the distance |across|, having started `away`
    before it; the points where it meets the thing have to be those of exact arithmetic"""
    x = env.exact
    w2 = x(R) * x(R) - x(across) * x(across)
    env.require(w2 * 361 >= x(R) * x(R))
    w = env.sqrt(w2)
    a, b = away - w, away + w
    env.require(env.AND(env.OR(a >= 1e-3, a <= -1e-3), env.OR(b >= 1e-3, b <= -1e-3)))
    d = [0, 0, 0]
    d[i] = sg
    q, (hit, p0, p1, _, _, n) = meet(d)
    want = [t for t in (a, b) if env.decide(t > 0)]
    env.true(bool(hit) == bool(want) and n == len(want), "meets it as often as it should")
    env.observe("n", n)
    for t, p in zip(want, (p0, p1)):
        at = [x(e) for e in q]
        at[i] = at[i] + sg * t
        near(env, p, at, "where it meets it")


def ball(env):
    o, sh = env.m.optics3d, env.m.shapes
    i, sg = env.p.i, env.p.s
    j, k = (i + 1) % 3, (i + 2) % 3
    R = env.real("R", 0.05, 10)
    far = env.real("far", -500, 500)
    v = env.real("v", -10, 10)
    c, q = [0, 0, 0], [0, 0, 0]
    q[i], q[j] = far, v
    if env.p.off:
        for m in (i, k):
            c[m] = env.real("c." + "xyz"[m], -100, 100)
        q[k] = c[k]
    x = env.exact

    def meet(d):
        with env.rounding():
            ray = o.Ray(env.A(q), env.A(d))
            return q, sh.Sphere(env.A(c), R=R).test_intersect(ray)
    crossings(env, i, sg, R, x(v) - x(c[j]), sg * (x(c[i]) - x(far)), meet)


def cylinder(env):
    o, sh = env.m.optics3d, env.m.shapes
    i, sg, ax = env.p.i, env.p.s, env.p.ax
    j = 3 - i - ax
    R = env.p.R
    lo, hi = env.p.far
    far = env.real("far", *((lo, hi) if sg > 0 else (-hi, -lo)))
    v = env.real("v", -R, R)
    u = env.real("u", -100, 100)
    q = [0, 0, 0]
    q[i], q[j], q[ax] = far, v, u
    x = env.exact
    axis = [0, 0, 0]
    axis[ax] = env.pick([1, -1])

    def meet(d):
        with env.rounding():
            ray = o.Ray(env.A(q), env.A(d))
            return q, sh.InfiniteCylinder(env.A([0, 0, 0]), env.A(axis), R=R).test_intersect(ray)
    crossings(env, i, sg, R, x(v), -sg * x(far), meet)


def flat(env):
    """planes, discs and rectangles"""
    o, sh = env.m.optics3d, env.m.shapes
    i, sg = env.p.i, env.p.s
    j, k = (i + 1) % 3, (i + 2) % 3
    n, t = [0, 0, 0], [0, 0, 0]
    n[i], t[j] = env.pick([1, -1]), 1
    c, q = env.vec3("c", -100, 100), env.vec3("q", -500, 500)
    x = env.exact
    away = sg * (x(c[i]) - x(q[i]))
    env.require(env.OR(away >= 1e-3, away <= -1e-3))
    h, w = env.real("h", 0.1, 200), env.real("w", 0.1, 200)
    a, b = x(q[j]) - x(c[j]), x(q[k]) - x(c[k])
    if env.p.kind == "rectangle":
        for m, e in ((a, x(h) / 2), (b, x(w) / 2)):
            env.require(env.OR(m - e >= 1e-3, m - e <= -1e-3))
            env.require(env.OR(m + e >= 1e-3, m + e <= -1e-3))
    if env.p.kind == "disc":
        g = a * a + b * b - x(h) * x(h)
        env.require(env.OR(g >= 1e-3, g <= -1e-3))
    d = [0, 0, 0]
    d[i] = sg
    with env.rounding():
        ray = o.Ray(env.A(q), env.A(d))
        n, t = env.A(n), env.A(t)
        s = sh.Plane(c, n) if env.p.kind == "plane" else sh.Circle(c, n, R=h) if env.p.kind == "disc" else \
            sh.Rectangle(c, n, t, h=h, w=w)
        hit, p, _ = s.test_intersect(ray)
    want = env.decide(away > 0)
    if env.p.kind == "rectangle":
        want = want and env.decide(env.AND(a <= x(h) / 2, -a <= x(h) / 2, b <= x(w) / 2, -b <= x(w) / 2))
    if env.p.kind == "disc":
        want = want and env.decide(g <= 0)
    env.true(bool(hit) == want, "meets it or misses it")
    env.observe("hit", bool(hit))
    if want and hit:
        at = [x(e) for e in q]
        at[i] = x(c[i])
        near(env, p, at, "where it meets it")


def goals(tier):
    out = []
    flatb = "plane/rectangle within 100, light within 500 of the origin, sizes 0.1..200"
    ballb = "radius 0.05..10, light within 500, up to a nineteenth of the radius from grazing"
    for i in range(3):
        for s in (1, -1):
            nm = f", light along {'-+'[s > 0]}{'xyz'[i]}"
            out.append(Goal("ball" + nm, ball, dict(i=i, s=s, off=False), bounds=ballb))
            out.append(Goal("ball anywhere" + nm, ball, dict(i=i, s=s, off=True), bounds=ballb + ", centre within 100"))
            for k in ("plane", "rectangle"):
                out.append(Goal(k + nm, flat, dict(i=i, s=s, kind=k), bounds=flatb))
            for ax in range(3):
                for R in (1 / 16, 1, 3, 10):
                    for far in ((-500, -100), (-100, -20), (-20, 20), (20, 500)):
                        if ax == i or tier == "quick" and (ax != 2 or far[1] > -20 or R > 1 or R == 1 and i + s != 1):
                            continue
                        out.append(Goal(f"cylinder along {'xyz'[ax]}, R={R}, from {-far[1]}..{-far[0]}" + nm, cylinder,
                                        dict(i=i, s=s, ax=ax, R=R, far=far),
                                        bounds=f"radius {R}, light from {-far[1]}..{-far[0]} before the axis"))
    return out
