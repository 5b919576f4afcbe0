"""The same optic described in two ways, or the same scene seen moved, scaled or mirrored, acts the same."""
from props.h import *

ASSUMES = ["crossings at least 1e-3 from each other, from outlines, from grazing and from the start"]


def same_run(env, A, B, p, d, far, label, tol=1e-6, K=3, order=0, turn=1):
    """both scenes do the same to the same light"""
    o = env.m.optics3d
    rays = []
    for ops in (A, B):
        r = o.Ray(p, d if ops is A else turn * d, order=order)
        r.run(max_distance=far, optic_list=ops, max_interactions=K)
        rays.append(r)
    a, b = rays
    env.observe("p", a.position)
    env.true(len(a.point_history) == len(b.point_history), label + ": as many points")
    for q, w in zip(a.point_history, b.point_history):
        env.eqv(q, w, label + ": same points", tol=tol)
    env.eqv(a.direction, b.direction, label + ": same direction", tol=tol)
    env.true(a.blocked == b.blocked, label + ": stopped alike")
    return a, b


def flat_at(env, fr, c, h, w, slopes=False):
    """light for a plane, clear of grazing and of the outline, by the point where its line meets it: (start, direction,
    its unit vector, distance ahead, distance of the point from the centre, that point's coordinates)"""
    n, t, s = fr
    r, ph = env.real("r", 0, 600), env.circle("ph")
    u, v = r * ph[0], r * ph[1]
    T = env.real("T", -500, 500)
    env.require(env.OR(T >= 1e-3, T <= -1e-3))
    if slopes:
        m, g = env.real("m", -3, 3), env.real("g", -3, 3)
        env.require(env.OR(m >= 1e-3, m <= -1e-3))
        d = env.pick([1, -1]) * (n + m * t + g * s)
    else:
        a, b, g = env.unit3("d")
        env.require(env.OR(a >= 1e-3, a <= -1e-3))
        d = comb((a, n), (b, t), (g, s))
    p = c + u * t + v * s - T * d
    if h is not None:
        for k, m in ((u, h / 2), (v, w / 2)):
            env.require(env.OR(k - m >= 1e-3, k - m <= -1e-3))
            env.require(env.OR(k + m >= 1e-3, k + m <= -1e-3))
    return p, (1 if slopes else env.real("d.len", 0.01, 100)) * d, d, T, r, (u, v)


def turned(env):
    """a rectangle turned by a quarter with height and width exchanged, or with normal and tangent reversed, is the
    same rectangle, whatever optic is built on it"""
    o = env.m.optics3d
    fr = n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    h, w = env.real("h", 0.1, 200), env.real("w", 0.1, 200)
    p, dL, d, T, r, uv = flat_at(env, fr, c, h, w)
    far = env.real("far", 1, 3000)
    env.require(env.OR(far - T >= 1e-3, T - far >= 1e-3))
    alt = env.pick([0, 1, 2])
    n2, t2, h2, w2 = [(-n, t, h, w), (n, -t, h, w), (n, s, w, h)][alt]
    k = env.p.kind
    if k == "mirror":
        mk = lambda n, t, h, w: o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w)
    elif k == "detector":
        mk = lambda n, t, h, w: o.Detector(c, n, t, h=h, w=w)
    elif k == "grating":
        mk = lambda n, t, h, w: o.Grating(c, n, t, h=h, w=w, G=1200)
    A, B = mk(n, t, h, w), mk(n2, t2, h2, w2)
    same_run(env, [A], [B], p, dL, far, "rectangle")
    if k == "detector":
        env.true(len(A.hit_data) == len(B.hit_data), "as many records")
        for x, y in zip(A.hit_data, B.hit_data):
            for i in range(3):
                env.eq(x[i], y[i], "same record")
            env.eq(x[3], y[3], "same wavelength")


def flat(env):
    """a grating in order 0, a DMD whose micromirrors lie flat, and a flat mirror are the same; a disc and a rectangle
    are the same where both or neither is hit"""
    o = env.m.optics3d
    fr = n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    h, w = env.real("h", 0.1, 200), env.real("w", 0.1, 200)
    p, dL, d, T, r, (u, v) = flat_at(env, fr, c, h, w)
    far = env.real("far", 1, 3000)
    env.require(env.OR(far - T >= 1e-3, T - far >= 1e-3))
    m = o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w)
    if env.p.kind == "grating":
        x = o.Grating(c, env.pick([1, -1]) * n, t, h=h, w=w, G=env.real("G", 1, 3000), order=env.pick([None, 1]))
    elif env.p.kind == "dmd":
        x = o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w, type="dmd",
                     dmd_normal=env.real("len", 0.01, 100) * env.pick([1, -1]) * n)
    elif env.p.kind == "disc":
        R = env.real("R", 0.1, 200)
        inr = env.decide(env.AND(u <= h / 2, u >= -h / 2, v <= w / 2, v >= -w / 2))
        env.require(R - r >= 1e-3 if inr else r - R >= 1e-3)
        x = o.Mirror(c, shape="circular_flat", normal=env.pick([1, -1]) * n, D=2 * R)
    same_run(env, [m], [x], p, dL, far, env.p.kind, K=2)


def lengths(env):
    """only the directions of normals and tangents count, not their lengths"""
    o = env.m.optics3d
    fr = n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    K = env.p.kind
    h, w = env.real("h", 0.1, 200), env.real("w", 0.1, 200)
    round_ = K in ("disc", "lens", "collimate", "focus")
    p, dL, d, T, r, uv = flat_at(env, fr, c, None if round_ else h, None if round_ else w, slopes=K == "lens")
    if round_:
        apart(env, [r], [h / 2])
    far = env.real("far", 1, 3000)
    T2 = T * env.sqrt(env.dot(d, d)) if K == "lens" else T
    env.require(env.OR(far - T2 >= 1e-3, T2 - far >= 1e-3))
    f = env.real("f", 1, 200) if K in ("lens", "collimate", "focus") else None
    mn = n
    if K == "dmd":
        cm, sm = env.circle("m")
        mn = cm * n + sm * s

    def make(k, q, j):
        if K == "mirror":
            return o.Mirror(c, shape="rectangular_flat", normal=k * n, tangent=q * t, h=h, w=w)
        if K == "dmd":
            return o.Mirror(c, shape="rectangular_flat", normal=k * n, tangent=q * t, h=h, w=w, type="dmd", dmd_normal=j * mn)
        if K == "disc":
            return o.Mirror(c, shape="circular_flat", normal=k * n, D=h)
        if K == "grating":
            return o.Grating(c, k * n, q * t, h=h, w=w, G=1200)
        if K == "detector":
            return o.Detector(c, k * n, q * t, h=h, w=w)
        return o.Lens(c, normal=k * n, D=h, f=f, type={"lens": "ideal"}.get(K, "ideal_" + K))
    A, B = make(1, 1, 1), make(*(env.real(x + ".len", 0.001, 1000) for x in "ntm"))
    order = env.pick([0, 1]) if K == "grating" else 0
    if order:
        env.require(env.AND(T >= 1e-3, far - T >= 1e-3))
        sa = env.dot(d, s)
        ray = o.Ray(p, d, order=1, wavelength=100)
        u1 = ray.direction
        env.require(env.AND(sa <= 0.5, sa >= -0.5, env.dot(d, n) <= -0.1, env.OR(sa >= 0.01, sa <= -0.01)))
    same_run(env, [A], [B], p, dL, far, K, K=1, order=order, tol=1e-4)
    if K == "detector":
        env.true(len(A.hit_data) == len(B.hit_data), "as many records")
        for x, y in zip(A.hit_data, B.hit_data):
            env.eqv(x[:3], y[:3], "same record")


def chord(env, name, p, d, e, u, v):
    """a ball at distance v from the ray's line, level with the point u along it, met between u - w and u + w or missed"""
    c = p + u * d + v * e
    if env.boolean(name + ".meets"):
        w = env.real(name + ".w", 1e-3, 300)
        return c, env.sqrt(v * v + w * w), w
    R = env.real(name + ".R", 1e-3, 300)
    env.require(v - R >= 1e-3)
    return c, R, None


def apart(env, xs, ys):
    for x in xs:
        for y in ys:
            env.require(env.OR(x - y >= 1e-3, y - x >= 1e-3))


def ball_at(env, kind="same"):
    """a ball, a ray by it, and how to say the ball as a solid"""
    g, S = env.m.general_optics, env.m.shapes.Sphere
    d, e, f = env.frame("F")
    p = env.vec3("p", -100, 100)
    u, v = env.real("u", -300, 300), env.real("v", 0, 300)
    c, R, w = chord(env, "A", p, d, e, u, v)
    hits = [u - w, u + w] if w is not None else []
    apart(env, hits, [0])
    op = kind
    if kind in ("same", "both", "itself"):
        op = {"same": "union", "both": "intersect"}.get(kind, "difference")
        other = S(c, D=2 * R)
    elif kind in ("union", "intersect"):              # with a smaller or larger ball about the same centre
        c2, R2, w2 = chord(env, "B", p, d, e, u, v)
        if kind == "union":
            env.require(w - w2 >= 1e-3 if w is not None and w2 is not None else w2 is None and R - R2 >= 1e-3)
        else:
            env.require(w2 - w >= 1e-3 if w is not None and w2 is not None else w is None and R2 - R >= 1e-3)
        if w2 is not None:
            apart(env, [u - w2, u + w2], [0] + hits)
        other = S(c2, R=R2)
    else:                                             # without a ball that is elsewhere
        u2, v2 = env.real("u2", -600, 600), env.real("v2", 0, 300)
        c2, R2, w2 = chord(env, "B", p, d, f, u2, v2)
        env.require(env.norm2(env.sub(c2, c)) >= (R + R2) * (R + R2) + 1)
        if w2 is not None:
            apart(env, [u2 - w2, u2 + w2], [0] + hits)
        other = S(c2, R=R2)

    def solid(**kw):
        tr = g.BinaryTree(op)
        tr.insertLeft(S(c, R=R))
        tr.insertRight(other)
        return env.m.optics3d.Compound(tr, **kw)
    return p, d, e, c, R, v, hits, solid


def reach(env, hits):
    far = env.real("far", 1, 1000)
    apart(env, hits, [far])
    return far


def uncritical(env, N, v, R, hits):
    """clear of the critical angle"""
    if hits:
        env.require(env.OR(N * v - R >= 1e-3, R - N * v >= 1e-3))


def convex(env):
    """a convex mirror is a reflecting ball, however the ball is put together"""
    p, d, e, c, R, v, hits, solid = ball_at(env, env.p.kind)
    m = env.m.optics3d.Mirror(c, shape="circular_convex_spherical", D=2 * R)
    same_run(env, [m], [solid(surface_behavior="reflect")], p, d, reach(env, hits), "ball mirror", K=1)


def ball(env):
    """a ball lens is a refracting ball, however the ball is put together: at the first face from either side"""
    p, d, e, c, R, v, hits, solid = ball_at(env, env.p.kind)
    N = env.real("N", 1, 4)
    uncritical(env, N, v, R, hits)
    L = env.m.optics3d.Lens(c, shape="spherical", D=2 * R, index=N)
    same_run(env, [L], [solid(surface_behavior="refract", index=N)], p, d, reach(env, hits), "ball lens", K=1)


def rod_at(env):
    """a cylinder and a ray by it: (axis, center, radius, start, direction, crossings)"""
    u, w, k = env.zframe("F", off=1e-3)
    p = env.vec3("p", -100, 100)
    rho, g = env.circle("t")
    env.require(rho >= 0.05)
    T, v, z = env.real("T", -300, 300), env.real("v", -300, 300), env.real("z", -100, 100)
    d = rho * u + g * k
    c = p + T * u + v * w + z * k
    if env.boolean("meets"):
        h = env.real("half", 0.05, 300)
        return k, c, env.sqrt(v * v + h * h), p, d, [(T - h) / rho, (T + h) / rho]
    R = env.real("R", 1e-2, 300)
    env.require(env.OR(v - R >= 1e-3, -v - R >= 1e-3))
    return k, c, R, p, d, []


def rod(env):
    """one cylinder: its axis given from any of its points, either way, at any length"""
    k, c, R, p, d, hits = rod_at(env)
    apart(env, hits, [0])
    far = reach(env, hits)
    o, C = env.m.optics3d, env.m.shapes.InfiniteCylinder
    c2, k2 = {"reversed": (c, -k), "slid": (c + env.real("slide", -300, 300) * k, k),
              "longer": (c, env.real("len", 0.01, 100) * k)}[env.p.kind]
    solid = lambda c, k: o.Compound(env.m.general_optics.BinaryTree(C(c, k, R=R)), surface_behavior="reflect")
    same_run(env, [solid(c, k)], [solid(c2, k2)], p, d, far, "rod", K=1, tol=1e-5)


def nothing(env):
    """what is left of a body taken away from itself is nothing: light passes"""
    p, d, e, c, R, v, hits, solid = ball_at(env, "itself")
    op = solid(surface_behavior=env.pick(["reflect", "refract"]))
    got, pt, nrm, flag = op.test_intersect(env.m.optics3d.Ray(p, d))
    env.observe("hit", bool(got))
    env.true(not got, "nothing is there to hit")
    env.true(op.get_index_at_point_if_inside(p) is None, "nor to be inside of")


def clear(env):
    """glass of the world's own index does nothing to the light"""
    o = env.m.optics3d
    p, d, e, c, R, v, hits, solid = ball_at(env, "same" if env.p.kind == "lens" else env.p.kind)
    far = reach(env, hits)
    op = o.Lens(c, shape="spherical", D=2 * R, index=1) if env.p.kind == "lens" else \
        solid(surface_behavior="refract", index=1)
    ray = o.Ray(p, d)
    ray.run(max_distance=far, optic_list=[op])
    env.observe("p", ray.position)
    env.eqv(ray.position, p + far * d, "arrives where it would have without the glass", tol=1e-5)
    env.eqv(ray.direction, d, "in its direction", tol=1e-6)


def ideal(env):
    """for light from the focus, an ideal lens is a collimating lens; for light along the axis, a focusing lens"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    f = env.real("f", 1, 500)
    y = env.real("y", -400, 400)
    env.require(env.OR(y >= 0.01 * f, y <= -0.01 * f, y == 0))
    side = env.pick([1, -1])
    x = env.real("x", 0.01, 100)
    P = c + y * t
    if env.p.kind == "collimate":
        p = c - f * n
        d = f * n + y * t
        reach = env.sqrt(f * f + y * y)
        types = "ideal", "ideal_collimate"
    else:
        p = P - x * n
        d = env.real("len", 0.01, 100) * n
        reach = x
        types = "ideal", "ideal_focus"
    more = env.real("more", 0.01, 1000)
    A, B = (o.Lens(c, normal=side * n, D=1000, f=f, type=k) for k in types)
    a, b = same_run(env, [A], [B], p, d, reach + more, env.p.kind, tol=1e-4)
    env.true(len(a.point_history) == 3, "the lens acts")


def subject(env):
    """an optic, as a function of scale and place, and light for it: (make, start, direction, its crossings, reach)"""
    o = env.m.optics3d
    K = env.p.kind
    if K in ("mirror", "lens", "grating", "detector"):
        fr = n, t, s = env.frame("F")
        c = env.vec3("c", -100, 100)
        h, w = (env.real("h", 0.5, 200), env.real("w", 0.5, 200)) if K != "lens" else (None, None)
        p, dL, d, T, r, uv = flat_at(env, fr, c, h, w, slopes=K == "lens")
        if K == "mirror":
            mk = lambda k, P, V: o.Mirror(P(c), shape="rectangular_flat", normal=V(n), tangent=V(t), h=k * h, w=k * w)
        elif K == "grating":
            mk = lambda k, P, V: o.Grating(P(c), V(n), V(t), h=k * h, w=k * w, G=1200)
        elif K == "detector":
            mk = lambda k, P, V: o.Detector(P(c), V(n), V(t), h=k * h, w=k * w)
        else:
            f, R = env.real("f", 1, 200), env.real("R", 0.5, 200)
            apart(env, [r], [R])
            far = env.real("far", 1, 2000)
            L = env.sqrt(env.dot(d, d))
            apart(env, [T * L], [far])
            return (lambda k, P, V: o.Lens(P(c), normal=V(n), D=2 * k * R, f=k * f, type="ideal")), p, dL, [T], far
        return mk, p, dL, [T], reach(env, [T])
    if K == "rod":
        ax, c, R, p, d, hits = rod_at(env)
        apart(env, hits, [0])
        g, C = env.m.general_optics, env.m.shapes.InfiniteCylinder
        return (lambda k, P, V: o.Compound(g.BinaryTree(C(P(c), V(ax), D=2 * k * R)), surface_behavior="reflect")), \
            p, d, hits, reach(env, hits)
    p, d, e, c, R, v, hits, solid = ball_at(env)
    N = env.real("N", 1, 4)
    uncritical(env, N, v, R, hits)
    g, S = env.m.general_optics, env.m.shapes.Sphere

    def mk(k, P, V):
        if K == "ball":
            return o.Lens(P(c), shape="spherical", D=2 * k * R, index=N)
        if K == "convex":
            return o.Mirror(P(c), shape="circular_convex_spherical", D=2 * k * R)
        tr = g.BinaryTree("union")
        tr.insertLeft(S(P(c), R=k * R))
        tr.insertRight(S(P(c), R=k * R))
        return o.Compound(tr, surface_behavior="refract", index=N)
    return mk, p, d, hits, reach(env, hits)


def covariant(env):
    """a scene moved elsewhere, k times as large, seen in a mirror, or all of that, turns the light alike there"""
    o = env.m.optics3d
    mk, p, d, hits, far = subject(env)
    k = env.real("k", 0.1, 10) if "scaled" in env.p.how else 1
    v = env.vec3("v", -1000, 1000) if "moved" in env.p.how else env.A([0, 0, 0])
    m = None
    if "mirrored" in env.p.how:                        # in any plane; lenses and rods: in a coordinate plane
        m = env.A([[1, 0, 0], [0, 1, 0], [0, 0, 1]][env.choose(3)]) if env.p.kind in ("lens", "rod") else env.frame("M")[0]

    def V(x):
        return x if m is None else x - 2 * env.dot(x, m) * m

    def P(x):
        return k * V(x) + v
    A, B = mk(1, lambda x: x, lambda x: x), mk(k, P, V)
    a, b = o.Ray(p, d), o.Ray(P(p), V(d))
    a.run(max_distance=far, optic_list=[A], max_interactions=1)
    b.run(max_distance=k * far, optic_list=[B], max_interactions=1)
    env.observe("p", a.position)
    env.true(len(a.point_history) == len(b.point_history), "as many points")
    for q, u in zip(a.point_history, b.point_history):
        env.eqv(P(q), u, "points go with the scene", tol=1e-4)
    env.eqv(V(a.direction), b.direction, "so does the direction", tol=1e-5)
    if env.p.kind == "detector":
        env.true(len(A.hit_data) == len(B.hit_data), "as many records")
        for x, y in zip(A.hit_data, B.hit_data):
            env.eqv(P(x[:3]), y[:3], "records go with the scene", tol=1e-4)


def whole(env):
    """an optic given in whole numbers (arrays of integers) is the one given in floats"""
    import numpy as np
    o, g, sh = env.m.optics3d, env.m.general_optics, env.m.shapes
    K = env.p.kind

    def make(V, f):
        c, n, t, dn = V([1, -2, 3]), V([0, 3, 4]), V([2, 0, 0]), V([0, 4, 3])
        if K == "mirror":
            return o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=f(31), w=f(17))
        if K == "dmd":
            return o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=f(31), w=f(17), type="dmd", dmd_normal=dn)
        if K == "disc":
            return o.Mirror(c, shape="circular_flat", normal=n, D=f(31))
        if K == "concave":
            return o.Mirror(c, shape="circular_concave_spherical", normal=n, D=f(11), f=f(40))
        if K == "convex":
            return o.Mirror(c, shape="circular_convex_spherical", D=f(31))
        if K == "grating":
            return o.Grating(c, n, t, h=f(31), w=f(17), G=f(1200))
        if K == "detector":
            return o.Detector(c, n, t, h=f(31), w=f(17))
        if K == "ball":
            return o.Lens(c, shape="spherical", D=f(31), index=f(2))
        if K == "solid":
            tr = g.BinaryTree("difference")
            tr.insertLeft(sh.Sphere(c, R=f(15)))
            tr.insertRight(sh.InfiniteCylinder(V([2, -1, 3]), V([0, 0, 1]), R=f(4)))
            return o.Compound(tr, surface_behavior="reflect")
        return o.Lens(c, normal=n, D=f(31), f=f(40), type=K)
    A, B = make(lambda v: np.array(v), int), make(lambda v: np.array([float(x) for x in v]), float)
    c = np.array([1.0, -2.0, 3.0])
    e = env.real("e", -1, 1), env.real("q", -1, 1)
    # light for the middle of the optic, from its front or its back
    d = env.A([0.0, 0.6, 0.8]) * env.pick([1, -1]) + env.A([e[0] / 4, 0, e[1] / 4])
    if K not in ("mirror", "dmd", "disc", "grating", "detector", "ideal_collimate"):
        d = env.A([0.0, 0.6, 0.8]) * env.pick([1, -1])
    aim = env.A(list(c)) + env.A([3 * e[0], 0, 0] if K in ("ball", "convex", "solid", "concave") else [4 * e[0], 0, 3 * e[1]])
    p = aim - env.real("T", 30, 50) * d
    same_run(env, [A], [B], p, d, 200, "in whole numbers", K=1, order=1 if K == "grating" else 0)
    if K == "detector":
        for i in range(3):
            env.eq(A.hit_data[0][i], B.hit_data[0][i], "same record")


def whole_ray(env):
    """light given in whole numbers is the light given in floats"""
    import numpy as np
    o = env.m.optics3d
    c, h = env.vec3("c", -1, 1), env.real("h", 20, 40)
    A, B = ([o.Mirror(c + env.A([0.0, 9.0, 0.0]), shape="rectangular_flat", normal=env.A([0.0, 1.0, 0.0]),
                      tangent=env.A([0.0, 0.0, 1.0]), h=h, w=h),
             o.Detector(c - env.A([0.0, 9.0, 0.0]), env.A([0.0, 1.0, 0.0]), env.A([0.0, 0.0, 1.0]), h=2 * h, w=2 * h)]
            for k in range(2))
    p, d = np.array([0, 1, 2]), np.array([0, 2, 1])
    keep = p.copy(), d.copy()
    rays = []
    far = env.real("far", 1, 100)
    env.require(env.OR(far >= 45, far <= 15))
    for P, D, ops in ((p, d, A), (env.A([0.0, 1.0, 2.0]), env.A([0.0, 2.0, 1.0]), B)):
        r = o.Ray(P, D)
        r.run(max_distance=far, optic_list=ops)
        r.fly(3)
        rays.append(r)
    a, b = rays
    env.true(len(a.point_history) == len(b.point_history), "as many points")
    for q, w in zip(a.point_history, b.point_history):
        env.eqv(q, w, "same points")
    env.eqv(a.direction, b.direction, "same direction")
    env.true(bool((p == keep[0]).all() and (d == keep[1]).all()), "the arrays given stay as they were")


def goals(tier):
    b = "any orientation, |c|<=100, "
    out = [Goal("rectangle, " + k, turned, dict(kind=k), bounds=b + "sizes 0.1..200, start within 500, path 1..3000")
           for k in ("mirror", "detector", "grating")]
    out += [Goal("flat mirror as " + k, flat, dict(kind=k), bounds=b + "sizes 0.1..200, path 1..3000")
            for k in ("grating", "dmd", "disc")]
    out += [Goal("lengths of the vectors, " + k, lengths, dict(kind=k), bounds=b + "lengths 0.001..1000, sizes 0.1..200")
            for k in ("mirror", "dmd", "disc", "grating", "detector", "lens", "collimate", "focus")]
    s = "centre within 300 along and across the ray, radii up to 424, path 1..1000"
    for k in ("same", "both", "union", "intersect", "difference"):
        out += [Goal("ball mirror as " + k, convex, dict(kind=k), bounds=b + s)]
        if k in ("same", "both") or tier != "quick" and k == "union":
            out.append(Goal("ball lens as " + k, ball, dict(kind=k), bounds=b + s + ", index 1..4, one face"))
    out += [Goal("rod " + k, rod, dict(kind=k), bounds=b + s) for k in ("reversed", "slid", "longer")]
    out += [Goal("whole numbers, " + k, whole, dict(kind=k), bounds="one optic given in integers and in floats; light for its "
                 "middle from either side") for k in ("mirror", "dmd", "disc", "concave", "convex", "grating", "detector",
                                                      "ball", "solid", "ideal", "ideal_collimate", "ideal_focus")]
    out.append(Goal("whole numbers, light", whole_ray, bounds="one ray given in integers and in floats, a mirror and a "
                    "detector anywhere within 1 of their places"))
    out.append(Goal("a body without itself", nothing, bounds=b + s))
    out += [Goal("index 1, " + k, clear, dict(kind=k), bounds=b + s) for k in ("lens", "same", "difference")]
    out += [Goal("ideal lens to " + k, ideal, dict(kind=k), bounds=b + "f 1..500, heights up to 400")
            for k in ("collimate", "focus")]
    for k in ("mirror", "grating", "detector", "lens", "ball", "convex", "solid", "rod"):
        for how in ("moved", "scaled", "mirrored") if tier == "quick" else \
                ("moved", "scaled", "mirrored", "moved, mirrored and scaled"):
            out.append(Goal(f"{how} {k}", covariant, dict(kind=k, how=how),
                            bounds=b + "scale 0.1..10, moved by up to 1000, one interaction"))
    return out
