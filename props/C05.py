"""Snell's law and total internal reflection."""
from props.h import *


def law(env, d, n, t, dn, e1, e2, R=None):
    """d incident, n unit normal, t transmitted; dn = d.n"""
    env.eq(env.norm2(t), 1, "unit length")
    tn = env.dot(t, n)
    sin2 = e1 * e1 * (1 - dn * dn)
    if env.decide(sin2 > e2 * e2):
        env.eqv(t, [d[i] - 2 * dn * n[i] for i in range(3)], "total internal reflection beyond the critical angle")
    else:
        env.eqv(env.scale(e1, env.cross(d, n)), env.scale(e2, env.cross(t, n)),
                "eta1 sin(in) = eta2 sin(out), in the plane of incidence", tol=1e-6)
        env.true(dn * tn >= 0, "refracted to the far side")


def direct(env):
    d, e, f = env.frame("F")
    ca, sa = env.circle("a")
    n = ca * d + sa * e
    e1, e2 = env.real("eta1", 0.2, 5), env.real("eta2", 0.2, 5)
    p = env.vec3("p", -POS, POS)
    ray = env.m.optics3d.Ray(p, env.real("d.len", 0.01, 100) * d, type=env.pick(["normal", "probe"]))
    ray.refract(refract_type="snells_law", normal=n, intersection_pt=p, eta1=e1, eta2=e2)
    env.observe("t", ray.direction)
    law(env, d, n, ray.direction, ca, e1, e2)
    env.eqv(ray.position, p, "position unchanged")


def lens(env):
    """ball lens surface: outside -> index, inside -> back to 1"""
    d, e, f = env.frame("F")
    ca, sa = env.circle("a")
    n = ca * d + sa * e
    N = env.real("index", 0.2, 5)
    c = env.vec3("c", -POS, POS)
    p = c + env.vec3("o", -10, 10)
    L = env.m.optics3d.Lens(c, shape="spherical", D=20, index=N)
    ray = env.m.optics3d.Ray(p, d, type=env.pick(["normal", "probe"]))
    outside = env.boolean("outside")
    L.do_intersect(ray, p, n, outside)
    env.observe("t", ray.direction)
    law(env, d, n, ray.direction, ca, 1 if outside else N, N if outside else 1)


def compound(env):
    """Compound refractor: index before / after taken from which side the ray enters"""
    d, e, f = env.frame("F")
    ca, sa = env.circle("a")
    n = ca * d + sa * e
    N = env.real("index", 0.2, 5)
    R = env.real("R", 0.1, 100)
    c = env.vec3("c", -100, 100)
    g, o = env.m.general_optics, env.m.optics3d
    tr = g.BinaryTree("union")
    tr.insertLeft(env.m.shapes.Sphere(c, R=R))
    tr.insertRight(env.m.shapes.Sphere(c, R=R / 2))
    op = o.Compound(tr, surface_behavior="refract", index=N)
    p = c + R * n     # a point of the surface, outward normal n
    ray = o.Ray(p, d, type=env.pick(["normal", "probe"]))
    env.require(env.OR(ca <= -0.01, ca >= 0.01))
    sg = env.pick([1, -1])
    op.do_intersect(ray, p, sg * n, env.pick([True, False]))
    env.observe("t", ray.direction)
    entering = env.decide(ca < 0)
    law(env, d, n, ray.direction, ca, 1 if entering else N, N if entering else 1)


def goals(tier):
    b = "any direction, normal and indices 0.2..5 (|coordinates| <= 1000); n unit, either orientation"
    return [Goal("refract", direct, bounds=b),
            Goal("ball lens surface", lens, bounds=b),
            Goal("compound surface", compound, bounds=b + "; sphere radius 0.1..100, |centre| <= 100, |cos| >= 0.01 at the surface")]
