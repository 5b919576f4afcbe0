"""Light through glass: ball lenses and solid lenses, entry to exit."""
from props.h import *
from props.C13 import sphere as c13_sphere, inside as inside_of, member

ASSUMES = ["hits at least 1e-3 (radians, or of the length unit) from grazing, edges and the start"]


def bend(env, name):
    """(cos, sin) of incidence and refraction angle, index N = ratio of the sines"""
    ci, si = env.circle(name + "i")
    ct, st = env.circle(name + "t")
    env.require(env.AND(ci >= 1e-2, ct >= 1e-2, si >= 1e-2, st >= 1e-2))
    lo, hi = (si, st) if env.p.get("thin") else (st, si)      # thin: an index below the surroundings'
    env.require(env.AND(hi >= lo, hi <= 4 * lo))
    return ci, si, ct, st, si / st


def ball(env):
    """from outside, through the ball, out again"""
    o = env.m.optics3d
    d, e, f = env.frame("F")
    ci, si, ct, st, N = bend(env, "a")
    if env.p.kind == "union":                 # not grazing the smaller sphere inside
        env.require(env.AND(env.OR(si <= 0.5 - 1e-6, si >= 0.5 + 1e-6), env.OR(st <= 0.5 - 1e-6, st >= 0.5 + 1e-6)))
    R = env.real("R", 0.1, 100)
    x = env.real("x", 1e-2, 500)
    P = env.vec3("P", -POS, POS)              # entry point
    m = ci * d + si * e                       # towards the centre there
    c = P + R * m
    L = make_ball(env, c, R, N)
    ray = o.Ray(P - x * d, env.real("d.len", 0.1, 10) * d)
    after = env.real("after", 1e-2, 500)
    ray.run(max_distance=x + 2 * R * ct + after, optic_list=[L])
    pts = ray.point_history
    env.true(len(pts) == 4, "in, out, and on")
    if len(pts) != 4:
        return
    env.observe("out", ray.direction)
    env.eqv(pts[1], P, "enters where it meets the ball")
    # refracted direction: at angle th_t to m, in the plane of d and m, on d's side
    per = env.sub(d, env.scale(ci, m))        # si * unit vector across m
    d1 = env.add(env.scale(ct, m), env.scale(st / si, per))
    Q = env.add(P, env.scale(2 * R * ct, d1))
    env.eqv(pts[2], Q, "crosses the ball along the refracted ray (sin(in) = N sin(out))", tol=1e-4)
    k = env.dot(d, m)
    q = env.sub(pts[2], c)
    d2 = ray.direction
    env.eqv(env.cross(q, d2), env.cross(env.sub(pts[1], c), d), "leaves with the impact parameter it came with",
            tol=1e-4)
    env.eq(env.dot(d2, q), R * ci, "leaves outwards at the angle it came in with", tol=1e-5)
    env.eqv(env.sub(pts[3], pts[2]), env.scale(after, d2), "flies on with what is left", tol=1e-3)


def make_ball(env, c, R, N):
    o = env.m.optics3d
    if env.p.kind == "lens":
        return o.Lens(c, shape="spherical", D=2 * R, index=N)
    g = env.m.general_optics
    tr = g.BinaryTree(env.p.kind)
    tr.insertLeft(env.m.shapes.Sphere(c, R=R))
    tr.insertRight(env.m.shapes.Sphere(c + env.A([0, 0, 5 * R]) if env.p.kind == "difference" else c,
                                       R=R if env.p.kind == "difference" else
                                       R / 2 if env.p.kind == "union" else 2 * R))
    return o.Compound(tr, surface_behavior="refract", index=N)


def inside(env):
    """from inside the ball: leaves by Snell's law, or is held by total internal reflection"""
    o = env.m.optics3d
    d, e, f = env.frame("F")
    R = env.real("R", 0.1, 100)
    Q = env.vec3("Q", -POS, POS)
    ct, st = env.circle("t")
    env.require(env.AND(ct >= 1e-2, st >= 1e-2))
    if env.p.kind == "union":                 # not grazing the smaller sphere inside
        env.require(env.OR(st <= 0.5 - 1e-6, st >= 0.5 + 1e-6))
    m = ct * d + st * e                      # outward normal at the hit
    c = Q - R * m
    x = env.real("x", 1e-2, 200)
    env.require(x <= 2 * R * ct - 1e-2)
    if env.p.tir:
        N = env.real("N", 1, 4)
        env.require(N * st >= 1 + 1e-6)
    else:
        ci, si = env.circle("i")
        lo, hi = (si, st) if env.p.get("thin") else (st, si)
        env.require(env.AND(ci >= 1e-2, si >= 1e-2, hi >= lo, hi <= 4 * lo))
        N = si / st
    L = make_ball(env, c, R, N)
    ray = o.Ray(Q - x * d, d)
    bounces = 2 if env.p.tir else 1
    ray.run(max_distance=5000, optic_list=[L], max_interactions=bounces)
    pts = ray.point_history
    env.true(len(pts) == 1 + bounces, "meets the surface from inside")
    env.observe("p", pts[-1])
    env.eqv(pts[1], Q, "where the ray reaches it", tol=1e-5)
    u = ray.direction
    if env.p.tir:
        d1 = env.sub(d, env.scale(2 * ct, m))
        env.eqv(pts[2], env.add(Q, env.scale(2 * R * ct, d1)), "reflected totally, to the next wall", tol=1e-3)
        m2 = env.scale(1 / R, env.sub(pts[2], c))
        k = env.dot(d1, m2)
        env.eqv(u, env.sub(d1, env.scale(2 * k, m2)), "and totally again there", tol=1e-4)
    else:
        env.eqv(env.cross(u, m), env.scale(N, env.cross(d, m)), "N sin(in) = sin(out)", tol=1e-5)
        env.lt(0, env.dot(u, m), "leaves outwards")
        env.eq(env.norm2(u), 1, "unit length")


def axial(env):
    """a ray through the centre goes straight on"""
    o = env.m.optics3d
    d, e, f = env.frame("F")
    R = env.real("R", 0.1, 100)
    c = env.vec3("c", -POS, POS)
    N = env.real("N", 1, 4)
    x = env.real("x", 1e-2, 200)
    L = make_ball(env, c, R, N)
    ray = o.Ray(c - (R + x) * d, d)
    far = env.real("far", 1, 200)
    ray.run(max_distance=x + 2 * R + far, optic_list=[L])
    env.true(len(ray.point_history) == 4, "in, out, and on")
    env.eqv(ray.position, c + (R + far) * d, "straight on", tol=1e-4)
    env.eqv(ray.direction, d, "same direction")


def repelled(env):
    """beyond the critical angle, a ball of lower index throws light back"""
    o = env.m.optics3d
    d, e, f = env.frame("F")
    ci, si = env.circle("i")
    N = env.real("N", 0.25, 1)
    env.require(env.AND(ci >= 1e-2, si >= N + 1e-6))
    if env.p.kind == "union":
        env.require(env.OR(si <= 0.5 - 1e-6, si >= 0.5 + 1e-6))
    R, x = env.real("R", 0.1, 100), env.real("x", 1e-2, 500)
    P = env.vec3("P", -POS, POS)
    m = ci * d + si * e
    L = make_ball(env, P + R * m, R, N)
    ray = o.Ray(P - x * d, d)
    after = env.real("after", 1e-2, 500)
    ray.run(max_distance=x + after, optic_list=[L])
    env.observe("p", ray.position)
    env.true(len(ray.point_history) == 3, "one reflection")
    u = env.sub(d, env.scale(2 * ci, m))
    env.eqv(ray.direction, u, "reflected totally", tol=1e-5)
    env.eqv(ray.position, env.add(P, env.scale(after, u)), "flies on with what is left", tol=1e-3)


def solid(env):
    """the first surface of a two-sphere solid, from outside or inside, refracts by its own normal and by the
    indices of the two sides"""
    o, g = env.m.optics3d, env.m.general_optics
    p = env.vec3("p", -100, 100)
    d, e, f = env.frame("F")
    on = env.p.get("on")
    prims = [c13_sphere(env, k, p, d, e, f, 1e-3, on=on and k == 0) for k in range(2)]
    ts = [t for pr in prims if pr[1] for t in pr[1]]
    if on:                                    # the start is one of the crossings itself
        ts = [t for t in ts if t is not prims[0][1][0 if prims[0][4] > 0 else 1]]
    for i, t in enumerate(ts):
        env.require(env.OR(t >= 1e-3, t <= -1e-3))
        for t2 in ts[:i]:
            env.require(env.OR(t - t2 >= 1e-3, t2 - t >= 1e-3))
    tr = g.BinaryTree(env.p.op)
    tr.insertLeft(prims[0][0])
    tr.insertRight(prims[1][0])
    N = env.real("N", 0.25, 4)
    C = o.Compound(tr, surface_behavior="refract", index=N)
    ray = o.Ray(p, d)
    ray.run(max_distance=3000, optic_list=[C], max_interactions=1)
    T = env.dot(env.sub(ray.position, p), d)
    env.true(T >= 1e-4, "not the surface it stands on")
    env.observe("u", ray.direction)
    u = ray.direction
    for sh, cr, c, R, _ in prims:
        for t in cr or ():
            if env.decide(env.AND(T - t <= 1e-6, t - T <= 1e-6)):
                m = member(env, env.p.op, inside_of(env, prims[0][1], T + 1e-4), inside_of(env, prims[1][1], T + 1e-4))
                going_in = env.decide(m)
                q = env.sub(ray.position, c)
                k = env.dot(d, q)
                e1, e2 = (1, N) if going_in else (N, 1)
                s2 = e1 * e1 * (R * R - k * k)
                env.require(env.OR(s2 - e2 * e2 * R * R >= 1e-6, e2 * e2 * R * R - s2 >= 1e-6))
                if env.decide(s2 > e2 * e2 * R * R):
                    env.eqv(u, [d[i] - 2 * k / (R * R) * q[i] for i in range(3)], "reflected totally", tol=1e-5)
                else:
                    env.eqv(env.scale(e2, env.cross(u, q)), env.scale(e1, env.cross(d, q)), "Snell's law", tol=1e-3)
                    env.le(0, k * env.dot(u, q), "to the far side")
                    env.eq(env.norm2(u), 1, "unit length")
                return
    env.eqv(u, d, "no surface met: straight on")


def goals(tier):
    b = "any orientation, radius 0.1..100, index 1..4, |coordinates|<=1000"
    kinds = ("lens", "union") if tier == "quick" else ("lens", "union", "intersect", "difference")
    out = []
    for k in kinds:
        out.append(Goal(f"through a ball ({k})", ball, dict(kind=k), bounds=b, weight=2))
        out.append(Goal(f"axial ray ({k})", axial, dict(kind=k), bounds=b))
        out.append(Goal(f"out of a ball ({k})", inside, dict(kind=k, tir=False), bounds=b))
        out.append(Goal(f"held in a ball ({k})", inside, dict(kind=k, tir=True), bounds=b))
        out += [Goal(f"through a ball of low index ({k})", ball, dict(kind=k, thin=True), bounds=b.replace("1..4", "1/4..1"), weight=2),
                Goal(f"out of a ball of low index ({k})", inside, dict(kind=k, tir=False, thin=True), bounds=b.replace("1..4", "1/4..1")),
                Goal(f"thrown back by a ball of low index ({k})", repelled, dict(kind=k), bounds=b.replace("1..4", "1/4..1"))]
    b2 = "two spheres anywhere with crossings within 1000 of the start, at least 1e-3 apart, index 0.25..4, any orientation"
    for op in ("union", "intersect", "difference"):
        out.append(Goal(f"solid: {op} of two spheres", solid, dict(op=op), bounds=b2, weight=3, tol=1e-5))
    for op in ("union", "intersect", "difference"):
        out.append(Goal(f"solid: {op} of two spheres, from a face", solid, dict(op=op, on=True), weight=3, tol=1e-5,
                        bounds=b2 + ", starting on the first sphere's surface"))
    return out
