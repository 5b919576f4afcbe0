"""Diffraction grating: in-plane grating equation, for every order and either side."""
from props.h import *

ASSUMES = ["orders that propagate (|G m lambda - sin|alpha|| <= 1 - 1e-6) and light arriving on the ruled face; "
           "angles are those of the projections into the dispersion plane, as the code documents"]


def grat(env):
    o = env.m.optics3d
    n, T, s = env.frame("F")
    g = -s                       # T x n: angles count from n towards g
    if env.p.near:               # within a degree of the plane through normal and grooves
        sa = env.real("sin al", -0.02, 0.02)
        ca = env.sqrt(1 - sa * sa)
    else:
        ca, sa = env.circle("al")    # incidence angle of the projection
    cp, sp = env.circle("ph")    # conical angle
    env.require(ca >= 1e-3)
    env.require(cp >= 1e-3)
    env.require(env.OR(sa >= 1e-6, sa <= -1e-6, sa == 0))
    c = env.vec3("c", -POS, POS)
    G = env.real("G", 1, 3000)
    lam = env.real("lam", 100, 2000)
    m = env.p.order
    back = -1 * (cp * (ca * n + sa * g))
    d = back + sp * T
    q = G * m * lam * 1e-6
    pos = env.decide(sa >= 0)
    sg = 1 if pos else -1
    sb = sg * q - sa              # signed sine of the diffracted angle
    env.require(env.AND(sb <= 1 - 1e-6, sb >= -1 + 1e-6))
    op = o.Grating(c, env.real("n.len", 0.1, 10) * n, env.real("t.len", 0.1, 10) * T, h=100, w=100, G=G,
                   **({} if env.p.own is None else dict(order=env.p.own)))
    ray = o.Ray(c, d, wavelength=lam, order=m, type=env.pick(["normal", "probe"]))
    op.do_intersect(ray, c, n, None)
    u = ray.direction
    env.observe("d", u)
    env.eq(env.norm2(u), 1, "unit length")
    env.eq(env.dot(u, T), sp, "component along the grooves kept")
    env.eq(env.dot(u, g), cp * sb, "sin(alpha) + sin(beta) = G m lambda, positive orders back towards the light")
    env.le(0, env.dot(u, n), "leaves on the side it came from")
    env.eqv(ray.position, c, "position unchanged")


def goals(tier):
    b = "any orientation and incidence with |cos|>=1e-3 in and out of the dispersion plane, G 1..3000/mm, 100..2000 nm"
    orders = (-7, -2, -1, 0, 1, 2, 5, 12) if tier == "quick" else (-30, -12, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 12, 25)
    out = [Goal(f"order {m}", grat, dict(order=m, own=None, near=False), bounds=b) for m in orders]
    own = ((1, -1), (-1, 2), (1, 1)) if tier == "quick" else ((1, -1), (-1, 2), (0, 1), (2, 0), (-2, -2), (1, 1))
    out += [Goal(f"order {m}, near the normal", grat, dict(order=m, own=None, near=True), bounds=b + ", |sin alpha|<=0.02")
            for m in orders if abs(m) == 1]
    return out + [Goal(f"order {m} off a grating of order {w}", grat, dict(order=m, own=w, near=False), bounds=b) for m, w in own]
