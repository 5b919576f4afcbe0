"""Angles, distances, unit vectors, projections."""
import math

from props.h import *


def two(env):
    """two directions an angle (c, s) apart, s >= 0, of any lengths"""
    u, v, w = env.frame("F")
    if env.p.case == "general":
        c, s = env.circle("ang")
        env.require(s >= env.p.get("smin", 1e-3))
    else:
        c, s = (1, 0) if env.p.case == "same" else (-1, 0)
    b = c * u + s * v if env.p.case == "general" else c * u
    k1, k2 = env.real("len1", 0.001, 1000), env.real("len2", 0.001, 1000)
    return u, v, w, c, s, k1 * u, k2 * b


def unsigned(env):
    g = env.m.general_optics
    u, v, w, c, s, a, b = two(env)
    keep = [x for x in a], [x for x in b]
    if env.boolean("as tuples"):
        a, b = tuple(a), tuple(b)
    th = g.angle_between(a, b)
    env.observe("angle", th)
    cc, ss = env.cossin(th)
    env.eq(cc, c, "cosine of the angle", tol=1e-6)
    env.eq(ss, s, "between 0 and pi", tol=1e-5)
    env.le(0, th, "not negative")
    env.le(th, math.pi, "at most pi", tol=1e-6)
    env.eq(g.angle_between(b, a), th, "symmetric", tol=1e-5)
    env.eqv(a, keep[0], "first argument unchanged")
    env.eqv(b, keep[1], "second argument unchanged")


def signed(env):
    """positive when v1 is counterclockwise of v2 seen along the normal"""
    g = env.m.general_optics
    u, v, w = env.frame("F")
    c, s = env.circle("ang")
    if env.p.quadrant:
        env.require(env.OR(s >= 1e-3, s <= -1e-3))
    k1, k2 = env.real("len1", 0.001, 1000), env.real("len2", 0.001, 1000)
    v2, v1 = k2 * u, k1 * (c * u + s * v)
    w = env.real("len3", 0.001, 1000) * w
    th = g.angle_between(v1, v2, w)
    env.observe("angle", th)
    cc, ss = env.cossin(th)
    env.eq(cc, c, "cosine of the signed angle")
    env.eq(ss, s, "sine of the signed angle")
    env.le(-math.pi, th, "from -pi", tol=1e-6)
    env.le(th, math.pi, "to pi", tol=1e-6)
    t2 = g.angle_between(v2, v1, w)
    c2, s2 = env.cossin(t2)
    env.eq(s2, -s, "exchanging the vectors changes the sign")
    env.eq(c2, c, "exchanging the vectors keeps the cosine")


def signed_collinear(env):
    """exactly parallel and opposite vectors: 0 and half a turn"""
    g = env.m.general_optics
    u, v, w = env.frame("F")
    k1, k2 = env.real("len1", 0.001, 1000), env.real("len2", 0.001, 1000)
    far = env.boolean("opposite")
    th = g.angle_between((-k1 if far else k1) * u, k2 * u, env.real("len3", 0.001, 1000) * w)
    c, s = env.cossin(th)
    env.eq(c, -1 if far else 1, "0 or half a turn", tol=1e-6)
    env.eq(s, 0, "0 or half a turn", tol=1e-5)


def units(env):
    g = env.m.general_optics
    u, v, w = env.frame("F")
    L = env.real("len", *env.p.lengths)
    x = L * u
    keep = list(x)
    r = g.unit_vector(x)
    env.eqv(r, u, "same direction, length 1")
    env.eqv(x, keep, "argument unchanged")
    p, q = env.vec3("p", -POS, POS), L * u
    d = g.distance_between(p, p + q)
    env.eq(d, L, "distance between points")
    env.eq(g.distance_between(p + q, p), L, "distance is symmetric")
    env.eq(g.distance_between(p, p), 0, "distance to itself")


def project(env):
    g = env.m.general_optics
    u, v, w = env.frame("F")
    L = env.real("n.len", 1e-3, 1e3)
    a, b, c = (env.real(k, -POS, POS) for k in "abc")
    x, n = comb((a, u), (b, v), (c, w)), L * w
    kx, kn = list(x), list(n)
    if env.boolean("as lists"):
        x, n = list(x), list(n)
    r = g.project_onto_plane(x, n)
    env.observe("r", r)
    env.eqv(r, comb((a, u), (b, v)), "drops exactly the part along the normal")
    env.eqv(g.project_onto_plane(r, n), r, "projecting twice changes nothing")
    env.eqv(x, kx, "vector unchanged")
    env.eqv(n, kn, "normal unchanged")


def goals(tier):
    b = "any orientation, lengths 0.001..1000"
    out = [Goal("unsigned angle: " + c, unsigned, dict(case=c), bounds=b + ("; at least 1e-3 rad from (anti)parallel"
                if c == "general" else "; exactly " + c)) for c in ("general", "same", "opposite")]
    out += [Goal("signed angle", signed, dict(quadrant=True), bounds=b + ", normal perpendicular to both"),
            Goal("signed angle of collinear vectors", signed_collinear, bounds=b + ", either way"),
            Goal("unit vector and distance", units, dict(lengths=(1e-3, 1e3)), bounds=b),
            Goal("unit vector and distance, very short", units, dict(lengths=(1e-12, 1e-6)),
                 bounds="any orientation, lengths 1e-12..1e-6"),
            Goal("unit vector and distance, very long", units, dict(lengths=(1e6, 1e12)),
                 bounds="any orientation, lengths 1e6..1e12"),
            Goal("projection onto a plane", project, bounds=b + ", components within 1000")]
    return out
