"""Infinite cylinders: crossings, membership, normals."""
from props.h import *

ASSUMES = ["crossings nearer than 1e-6 and rays within 1e-6 of the axis direction may be treated either way"]


def axis(env):
    k = env.p.axis
    if k == "any":
        return env.zframe("K", off=1e-4)     # +z itself is a goal of its own
    s = 1.0 if k == "+z" else -1.0
    return [env.A([1, 0, 0]), env.A([0, s, 0]), env.A([0, 0, s])]


def make(env):
    c = env.vec3("c", -POS, POS)
    R = env.real("R", 0.01, 1e5)
    fr = axis(env)
    K = env.real("kl.len", 0.01, 100)
    cyl = env.m.shapes.InfiniteCylinder(c, K * fr[2], R=R) if env.p.spec == "R" else \
        env.m.shapes.InfiniteCylinder(c, K * fr[2], D=2 * R)
    return c, R, fr, cyl


def rayhit(env):
    """the ray start is (x, y, z) in the cylinder's frame, its direction has across-axis
    part of length rho and along-axis part g"""
    c, R, (e1, e2, k), cyl = make(env)
    ca, sa = env.circle("h")
    rho, g = env.circle("t")
    env.require(rho >= 1e-6)
    x, y = env.real("x", -OFF, OFF), env.real("y", -OFF, OFF)
    z = env.real("z", -OFF, OFF)
    # u: direction across the axis, w: perpendicular to it; start = x u + y w + z k
    u = ca * e1 + sa * e2
    w = ca * e2 - sa * e1
    p = c + x * u + y * w + z * k
    d = rho * u + g * k
    L = env.real("d.len", 0.01, 100)
    ray = env.m.optics3d.Ray(p, L * d)
    hit, p1, p2, n1, n2, cnt = cyl.test_intersect(ray)
    env.observe("hit", hit)
    out2 = x * x + y * y - R * R
    if hit:
        env.observe("p1", p1)
        ts = []
        for pt, n in ((p1, n1), (p2, n2)):
            if pt is None:
                continue
            q = env.sub(pt, p)
            t = env.dot(q, d)
            ts.append(t)
            env.eqv(q, env.scale(t, d), "point lies on the ray's line", tol=1e-4)
            X = x + t * rho
            env.eq(X * X + y * y, R * R, "point lies on the cylinder", tol=1e-3)
            env.lt(0, t, "point lies ahead")
            env.eqv(n, -(X / R) * u - (y / R) * w, "unit normal towards the axis", tol=1e-4)
        if len(ts) == 2:
            env.lt(ts[0], ts[1], "nearest crossing first")
            env.le(0, out2, "two crossings only from outside")
            env.true(cnt % 2 == 0, "even count outside")
        else:
            env.true(env.OR(out2 <= 1e-6, env.AND(y * y - R * R <= 1e-6, y * y - R * R >= -1e-6)),
                     "single crossing only from inside (or grazing)")
            env.true(env.OR(cnt % 2 == 1, out2 >= -1e-6), "odd count inside")
    else:
        env.true(env.OR(y * y >= R * R - 1e-6, env.AND(x >= -1e-6, out2 >= -1e-6)),
                 "a miss only when nothing lies ahead")


def standing(env):
    """a ray that stands on the side, to within rounding, does not meet it there again"""
    e1, e2, k = axis(env)
    p = env.vec3("p", -100, 100)
    ca, sa = env.circle("h")
    rho, g = env.circle("t")
    env.require(rho >= 0.05)
    u, w = ca * e1 + sa * e2, ca * e2 - sa * e1
    d = rho * u + g * k
    h, y, z = env.real("hc", 0.05, 500), env.real("y", -500, 500), env.real("z", -100, 100)
    env.require(env.AND(y <= 19 * h, -y <= 19 * h))
    off, sg = env.real("off", -HERE, HERE), env.pick([1, -1])
    c = p + (sg * h + off * rho) * u + y * w + z * k        # crossings off and off + sg * 2 h / rho ahead
    R = env.sqrt(h * h + y * y)
    cyl = env.m.shapes.InfiniteCylinder(c, k, R=R)
    hit, p1, p2, n1, n2, cnt = cyl.test_intersect(env.m.optics3d.Ray(p, d))
    env.observe("hit", hit)
    if sg > 0:
        env.true(hit and p2 is None and cnt % 2 == 1, "only the far side is met, from inside")
        if hit:
            env.eqv(p1, p + (2 * h / rho + off) * d, "at the far side", tol=1e-4)
    else:
        env.true(not hit and cnt % 2 == 0, "nothing is met on the way out")


def along(env):
    """rays parallel to the axis never cross the surface"""
    c, R, (e1, e2, k), cyl = make(env)
    x, y, z = (env.real(n, -OFF, OFF) for n in "xyz")
    p = c + x * e1 + y * e2 + z * k
    sgn = env.pick([1.0, -1.0])
    ray = env.m.optics3d.Ray(p, sgn * k)
    hit, p1, p2, n1, n2, cnt = cyl.test_intersect(ray)
    env.true(not hit, "a ray along the axis does not hit the side")


def member(env):
    c, R, (e1, e2, k), cyl = make(env)
    x, y, z = (env.real(n, -OFF, OFF) for n in "xyz")
    p = c + x * e1 + y * e2 + z * k
    ins = cyl.test_point(p)
    env.observe("in", bool(ins))
    r2 = x * x + y * y - R * R
    if ins:
        env.le(r2, 0, "inside means nearer to the axis than R", tol=1e-3)
    else:
        env.le(0, r2, "outside means farther from the axis than R", tol=1e-3)
    if env.decide(x * x + y * y > 1e-6):
        n = cyl.normal(p)
        rr = env.sqrt(x * x + y * y)
        env.eqv(n, (-x / rr) * e1 + (-y / rr) * e2, "unit normal towards the axis", tol=1e-4)


def goals(tier):
    b = ("|centre|<=1000, |offsets|<=2000, 0.01<=R<=1e5, axis direction any except a cap of 2.3 degrees around -z "
         "(stereographic coordinates |a|,|b|<=50; -z and +z themselves are separate goals), axis vector length 0.01..100")
    out = []
    for ax in ("any", "+z", "-z"):
        spec = "R" if ax != "+z" else "D"
        out.append(Goal(f"ray, axis {ax}", rayhit, dict(axis=ax, spec=spec), bounds=b, weight=3))
        out.append(Goal(f"standing on the side, axis {ax}", standing, dict(axis=ax),
                        bounds="|start|<=100, R 0.05..700, within 2e-11 of the surface, not near grazing", weight=2))
        out.append(Goal(f"parallel ray, axis {ax}", along, dict(axis=ax, spec=spec), bounds=b))
        out.append(Goal(f"point, axis {ax}", member, dict(axis=ax, spec=spec), bounds=b))
    return out
