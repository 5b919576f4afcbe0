"""Curved mirrors: which point of the sphere is hit, with which normal; focusing."""
from props.h import *

ASSUMES = ["rays at least 1e-3 from grazing the sphere, crossings at least 1e-6 from the start and from the rim, the "
           "two crossings at least 1e-6 from equally far from the disc"]


def line(env):
    """sphere of radius R whose centre lies u ahead and v beside the start"""
    d, e, f = env.frame("F")
    p = env.vec3("p", -POS, POS)
    u = env.real("u", -OFF, OFF)
    R = env.real("R", 0.1, 1000)
    if env.boolean("meets"):
        cw, sw = env.circle("w")
        env.require(env.AND(cw >= 1e-3, sw >= 0))
        v, w = R * sw, R * cw
    else:
        v = R + env.real("gap", 1e-3, 1000)
        w = None
    return d, e, f, p, u, v, w, R, p + u * d + v * e


def ahead(u, w, env):
    """crossings ahead, nearest first"""
    if w is None:
        return []
    out = []
    for t in (u - w, u + w):
        env.require(env.OR(t >= 1e-6, t <= -1e-6))
        if env.decide(t > 0):
            out.append(t)
    return out


def concave(env):
    """the line crosses the disc's plane rho off the vertex, td ahead of the start"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    a, b, g = env.unit3("d")
    env.require(env.OR(a >= 1e-3, a <= -1e-3))
    d = a * n + b * t + g * s
    c = env.vec3("c", -POS, POS)
    R = env.real("R", 0.1, 1000)
    rho = env.real("rho", 0, 1000)
    td = env.real("td", -OFF, OFF)
    env.require(env.OR(td >= 1e-6, td <= -1e-6))
    p = c + rho * t - td * d
    half = env.real("half", 0.01, 1000)
    env.require(env.OR(rho - half >= 1e-6, half - rho >= 1e-6))
    ctr = c + R * n
    B = R * a - rho * b                       # closest approach to the centre, counted from the disc crossing
    disc = B * B - rho * rho
    if env.boolean("meets"):
        env.require(disc >= 1e-4)
        ts = ahead(td + B, env.sqrt(disc), env)
    else:
        env.require(disc <= -1e-4)
        ts = []
    M = o.Mirror(c, shape="circular_concave_spherical", normal=env.real("n.len", 0.1, 10) * n, f=R / 2, D=2 * half)
    ray = o.Ray(p, env.real("d.len", 0.1, 10) * d)
    hit, pt, nrm, _ = M.test_intersect(ray)
    env.observe("hit", bool(hit))
    if hit:
        env.observe("pt", pt)
        env.true(len(ts) > 0, "no hit without a crossing of the sphere ahead")
        env.true(env.AND(td > 0, rho < half), "only within the aperture")
        if not ts:
            return
        if len(ts) == 2:
            # nearest to the disc crossing: |B - w| against |B + w|
            env.require(env.OR(B >= 1e-6, B <= -1e-6))
            T = ts[0] if env.decide(B > 0) else ts[1]
        else:
            T = ts[0]
        env.eqv(env.sub(pt, p), env.scale(T, d), "the crossing nearest the mirror's face")
        rad = env.sub(ctr, pt)
        sg = env.dot(nrm, rad)
        env.eqv(env.scale(R, nrm), rad if env.decide(sg > 0) else env.scale(-1, rad), "unit normal along the radius")
    else:
        env.true(env.NOT(env.AND(len(ts) > 0, td > 0, rho < half)),
                 "every ray crossing aperture and sphere ahead hits")


def convex(env):
    o = env.m.optics3d
    d, e, f, p, u, v, w, R, ctr = line(env)
    M = o.Mirror(ctr, shape="circular_convex_spherical", D=2 * R)
    ray = o.Ray(p, env.real("d.len", 0.1, 10) * d)
    ts = ahead(u, w, env)
    hit, pt, nrm, _ = M.test_intersect(ray)
    env.observe("hit", bool(hit))
    env.true(bool(hit) == (len(ts) > 0), "hit exactly when the sphere is crossed ahead")
    if hit and ts:
        env.observe("pt", pt)
        env.eqv(env.sub(pt, p), env.scale(ts[0], d), "the nearest crossing")
        env.eqv(env.scale(R, nrm), env.sub(pt, ctr), "unit normal pointing outwards")
        ray.run(max_distance=5000, optic_list=[M], max_interactions=1)
        env.eqv(ray.position, pt, "the run turns there")
        k = env.dot(d, nrm)
        env.eqv(ray.direction, [d[i] - 2 * k * nrm[i] for i in range(3)], "mirrored about the sphere's normal")


def focus(env):
    """a ray parallel to the axis at height h = R sin(th) crosses the axis at R / (2 cos th)
    from the centre of curvature, on whichever side of the axis it arrives"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    fl = env.real("f", *env.p.get("f", (1, 200)))
    R = 2 * fl
    cth, sth = env.circle("th")
    env.require(env.AND(cth >= 0.8, env.OR(sth >= 1e-3, sth <= -1e-3)))
    x = env.real("x", 1e-3, 1)          # start, as a fraction of the way from the surface past the centre
    ctr = c + R * n
    start = ctr + R * (x * 1.5 - cth) * n + R * sth * t
    M = o.Mirror(c, shape="circular_concave_spherical", normal=n, f=fl, D=1.5 * R)
    ray = o.Ray(start, -n)
    ray.run(max_distance=1000 * fl, optic_list=[M], max_interactions=1)
    env.true(len(ray.point_history) == 2, "one reflection")
    env.observe("p", ray.position)
    env.eqv(ray.position, ctr - R * cth * n + R * sth * t, "turns on the sphere f*2 from its centre", tol=1e-4)
    # from there the point ctr - R/(2 cos) n lies along the ray
    u = ray.direction
    env.eq(env.norm2(u), 1, "unit length")
    k = R / (2 * cth)
    env.eqv(env.scale(k, u), env.sub(ctr - k * n, ray.position), "crosses the axis at R / (2 cos th) from the centre",
            tol=1e-3)


def centre(env):
    """a ray from the centre of curvature comes back on itself"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    fl = env.real("f", *env.p.get("f", (1, 200)))
    a, b, g = env.unit3("d")
    env.require(a <= -0.8)
    d = a * n + b * t + g * s
    M = o.Mirror(c, shape="circular_concave_spherical", normal=n, f=fl, D=20 * fl)
    ctr = c + 2 * fl * n
    ray = o.Ray(ctr, d)
    far = env.real("far", 0.1, 100)
    ray.run(max_distance=4 * fl, optic_list=[M], max_interactions=1)
    env.eqv(ray.position, ctr + 2 * fl * d, "turns on the sphere", tol=1e-4)
    env.eqv(ray.direction, env.scale(-1, d), "comes back on itself", tol=1e-5)


def goals(tier):
    b = "any orientation, radius 0.1..1000, |offsets|<=2000"
    return [Goal("concave hit", concave, bounds=b + ", aperture 0.01..1000, |cos to the axis|>=1e-3", weight=3),
            Goal("convex hit", convex, bounds=b, weight=2),
            Goal("concave focus", focus, bounds="f 1..200, heights up to 0.6 R, any orientation"),
            Goal("concave focus, small", focus, dict(f=(0.02, 1)), bounds="f 0.02..1, heights up to 0.6 R, any orientation"),
            Goal("concave focus, large", focus, dict(f=(200, 1e5)), bounds="f 200..1e5, heights up to 0.6 R, any orientation"),
            Goal("concave centre, small", centre, dict(f=(0.02, 1)), bounds="f 0.02..1, within 37 degrees of the axis"),
            Goal("concave centre, large", centre, dict(f=(200, 1e5)), bounds="f 200..1e5, within 37 degrees of the axis"),
            Goal("concave centre", centre, bounds="f 1..200, within 37 degrees of the axis")]
