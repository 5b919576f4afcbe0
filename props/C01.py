"""A sphere reports exactly the forward crossings of a ray."""
from props.h import *

ASSUMES = ["crossings nearer than 1e-9 to the ray's start may be treated either way (the code's own self-hit floor is 1e-10), except within 2e-11: there",
           "the ray stands on the sphere (goals 'standing'; not within 3 degrees of grazing)"]


def sphere(env):
    m = env.m
    c = env.vec3("c", -POS, POS)
    R = env.real("R", *SIZE)
    d, e, _ = env.frame("F")
    u = env.real("u", -OFF, OFF)
    v = env.real("v", 0, OFF)
    L = env.real("L", 0.01, 100)
    p = c + u * d + v * e
    kw = {"R": R} if env.p.spec == "R" else {"D": 2 * R} if env.p.spec == "D" else {"R": R, "D": 2 * R}
    s = m.shapes.Sphere(c, **kw)
    ray = m.optics3d.Ray(p, L * d, type=env.p.rtype)
    hit, p1, p2, n1, n2, cnt = s.test_intersect(ray)
    env.observe("hit", hit)
    inside2 = u * u + v * v - R * R
    if hit:
        env.observe("p1", p1)
        env.true(p1 is not None, "a hit has a point")
        env.true(n1 is not None, "a hit has a normal")
        ts = []
        for pt, n in ((p1, n1), (p2, n2)):
            if pt is None:
                env.true(n is None, "no normal without a point")
                continue
            q = env.sub(pt, p)
            t = env.dot(q, d)
            ts.append(t)
            env.eqv(q, env.scale(t, d), "point lies on the ray's line")
            env.eq(t * t + 2 * u * t, -inside2, "point lies on the sphere")
            env.lt(0, t, "point lies ahead of the ray")
            env.eqv(n, env.scale(1 / R, env.sub(c, pt)), "normal is the unit vector towards the centre")
        if len(ts) == 2:
            env.eq(ts[0] + ts[1], -2 * u, "both crossings are reported, each once")
            env.lt(ts[0], ts[1], "the nearest crossing comes first")
            env.le(0, inside2, "two crossings only from outside")
            env.true(cnt % 2 == 0, "an even crossing count outside")
        else:
            env.true(env.OR(inside2 <= 1e-6, env.AND(v - R <= 1e-9, v - R >= -1e-9)),
                     "a single crossing only from inside (or grazing)")
            env.true(env.OR(cnt % 2 == 1, inside2 >= -1e-6), "an odd crossing count inside")
    else:
        env.true(p1 is None and p2 is None, "a miss has no points")
        env.true(env.OR(v >= R - 1e-9, env.AND(u >= -1e-9, inside2 >= -1e-6)), "a miss only when nothing lies ahead")


def standing(env):
    """a ray that stands on the sphere, to within rounding, does not meet it there again"""
    m = env.m
    d, e, _ = env.frame("F")
    p = env.vec3("p", -100, 100)
    w, v = env.real("w", 0.05, 500), env.real("v", 0, 500)
    env.require(v <= 19 * w)
    off = env.real("off", -HERE, HERE)
    sg = env.pick([1, -1])
    R = env.sqrt(v * v + w * w)
    s = m.shapes.Sphere(p + (sg * w + off) * d + v * e, R=R)
    hit, p1, p2, n1, n2, cnt = s.test_intersect(m.optics3d.Ray(p, d))
    env.observe("hit", hit)
    if sg > 0:
        env.true(hit and p2 is None and cnt % 2 == 1, "only the far side is met, from inside")
        if hit:
            env.eqv(p1, p + (2 * w + off) * d, "at the far side")
    else:
        env.true(not hit and cnt % 2 == 0, "nothing is met on the way out")


def goals(tier):
    b = "|centre|<=1000, |offsets|<=2000, 0.001<=R<=1000, direction length 0.01..100, any orientation"
    return [Goal("standing on the sphere", standing, bounds="|start|<=100, R 0.05..700, within 2e-11 of the surface")] + \
           [Goal(f"sphere given by {s}, {t} ray", sphere, dict(spec=s, rtype=t), bounds=b, tol=1e-6)
            for s, t in (("R", "normal"), ("D", "normal"), ("RD", "faerie_fire"))]
