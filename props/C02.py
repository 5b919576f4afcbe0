"""Planes, discs and rectangles are hit exactly where the ray crosses them."""
from props.h import *

ASSUMES = ["directions closer than 1e-6 to the plane and crossings nearer than 1e-6 may be treated either way "
           "(the code ignores |cos| <= 1e-9 and distances <= 1e-9)"]


def check(env, hit, pt, normal, L, geom, what):
    """L: local data; geom(Y, Z, side): signed distances, all must be <= 0 inside"""
    c, fr, p, d, (x, y, z), (a, b, g) = L
    n, t, s = fr
    if hit:
        env.observe("pt", pt)
        q = env.sub(pt, c)
        lam = env.dot(env.sub(pt, p), d)
        env.eq(env.dot(q, n), 0, what + ": point lies in the plane")
        env.eqv(env.sub(pt, p), env.scale(lam, d), what + ": point lies on the ray's line")
        env.lt(0, lam, what + ": point lies ahead")
        if normal is not None:
            env.eqv(normal, n, what + ": unit normal of the surface")
        Y, Z = env.dot(q, t), env.dot(q, s)
        for e in geom(Y, Z):
            env.le(e, 0, what + ": point lies inside the outline")
    else:
        env.true(pt is None, what + ": a miss has no point")
        # cross-multiplied by a: lam = -x/a, Y = y - x b/a, Z = z - x g/a
        if env.decide(env.OR(env.AND(a <= 1e-6, a >= -1e-6))):
            return
        lam = -x / a
        if env.decide(lam <= 1e-6):
            return
        Y, Z = y + lam * b, z + lam * g
        env.true(env.OR(*[e >= -1e-6 for e in geom(Y, Z)]) if geom(Y, Z) else False,
                 what + ": misses only when the crossing is outside the outline")


def setup(env):
    c = env.vec3("c", -POS, POS)
    fr = env.frame("F")
    p, dd, d, st, dr = local_ray(env, c, fr, "r")
    ray = env.m.optics3d.Ray(p, dd)
    return c, fr, ray, (c, fr, p, d, st, dr)


def no_outline(Y, Z):
    return []


def disc(R):
    return lambda Y, Z: [Y * Y + Z * Z - R * R]


def rect(h, w):
    return lambda Y, Z: [Y - h / 2, -Y - h / 2, Z - w / 2, -Z - w / 2]


def shape(env):
    m = env.m
    c, fr, ray, L = setup(env)
    n, t, s = fr
    K = env.real("nl", 0.01, 100)
    T = env.real("tl", 0.01, 100)
    kind = env.p.kind
    if kind == "plane":
        hit, pt, nn = m.shapes.Plane(c, K * n).test_intersect(ray)
        check(env, hit, pt, nn, L, no_outline, kind)
    elif kind.startswith("circle"):
        R = env.real("R", *SIZE)
        kw = dict(R=R) if kind == "circle R" else dict(D=2 * R)
        hit, pt, nn = m.shapes.Circle(c, K * n, **kw).test_intersect(ray)
        check(env, hit, pt, nn, L, disc(R), kind)
    else:
        h, w = env.real("h", *SIZE), env.real("w", *SIZE)
        hit, pt, nn = m.shapes.Rectangle(c, K * n, T * t, h=h, w=w).test_intersect(ray)
        check(env, hit, pt, nn, L, rect(h, w), kind)


def optic(env):
    m = env.m
    o = m.optics3d
    c, fr, ray, L = setup(env)
    n, t, s = fr
    K = env.real("nl", 0.01, 100)
    T = env.real("tl", 0.01, 100)
    kind = env.p.kind
    if kind == "round mirror":
        D = env.real("D", *SIZE)
        op, geom = o.Mirror(c, shape="circular_flat", normal=K * n, D=D), disc(D / 2)
    elif kind == "rectangular mirror":
        h, w = env.real("h", *SIZE), env.real("w", *SIZE)
        op, geom = o.Mirror(c, shape="rectangular_flat", normal=K * n, tangent=T * t, h=h, w=w), rect(h, w)
    elif kind == "DMD":
        h, w = env.real("h", *SIZE), env.real("w", *SIZE)
        ca, sa = env.circle("tilt")
        op = o.Mirror(c, shape="rectangular_flat", normal=K * n, tangent=T * t, h=h, w=w, type="dmd",
                      dmd_normal=ca * n + sa * s)
        geom = rect(h, w)
    elif kind == "grating":
        h, w = env.real("h", *SIZE), env.real("w", *SIZE)
        op, geom = o.Grating(c, K * n, T * t, h=h, w=w, G=600), rect(h, w)
    elif kind == "detector":
        h, w = env.real("h", *SIZE), env.real("w", *SIZE)
        op, geom = o.Detector(c, K * n, T * t, h=h, w=w), rect(h, w)
    else:
        D = env.real("D", *SIZE)
        f = env.real("f", 1, 1000)
        op, geom = o.Lens(c, K * n, D=D, f=f, type=kind.split()[0]), disc(D / 2)
    hit, pt, nn, _ = op.test_intersect(ray)
    check(env, hit, pt, None if "detector" in kind else nn, L, geom, kind)


def goals(tier):
    b = "|centre|<=1000, |offsets|<=2000, sizes 0.001..1000, normal/tangent/direction lengths 0.01..100, any orientation"
    return ([Goal("shape " + k, shape, dict(kind=k), bounds=b, tol=1e-6)
             for k in ("plane", "circle R", "circle D", "rectangle")] +
            [Goal("optic " + k, optic, dict(kind=k), bounds=b, tol=1e-6)
             for k in ("round mirror", "rectangular mirror", "DMD", "grating", "detector",
                       "ideal lens", "ideal_collimate lens", "ideal_focus lens", "normal lens")])
