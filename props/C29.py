"""Light paths are reversible: a ray sent back the way it came retraces its path."""
from props.h import *

ASSUMES = ["crossings at least 1e-3 from the start, incidence at |cos| >= 1e-2, apertures wide enough for the path"]


def back_again(env, n_opt, ops, ray, total, tol=1e-4, ang=1e-4, tb=None):
    """run `ray` through ops for `total`, turn round, run back: the same corner points, in reverse"""
    o = env.m.optics3d
    d0, p0 = ray.direction, ray.position
    ray.run(max_distance=total, optic_list=ops, max_interactions=n_opt + 1)
    pts = list(ray.point_history)
    env.true(len(pts) == n_opt + 2, "one corner per optic on the way out")
    if len(pts) != n_opt + 2:
        return
    env.observe("out", ray.direction)
    ret = o.Ray(pts[-1], -ray.direction, wavelength=ray.wavelength, order=ray.order)
    ret.run(max_distance=total if tb is None else tb, optic_list=ops, max_interactions=n_opt + 1)
    rp = list(ret.point_history)
    env.true(len(rp) == n_opt + 2, "one corner per optic on the way back")
    if len(rp) != n_opt + 2:
        return
    for k in range(1, n_opt + 2):
        env.eqv(rp[k], pts[n_opt + 1 - k], f"corner {k} on the way back", tol=tol)
    env.eqv(ret.direction, [-x for x in d0], "comes back along the direction it set out in", tol=ang)


def start(env):
    n, t, s = fr = env.frame("F")
    a, b, g = env.unit3("d")
    env.require(a >= 1e-2)
    d = a * n + b * t + g * s
    c = env.vec3("c", -100, 100)
    y, z = env.real("y", -40, 40), env.real("z", -40, 40)
    q = c + y * t + z * s
    x, w = env.real("x", 1e-3, 200), env.real("after", 1e-3, 200)
    return fr, (a, b, g), c, (y, z), q, d, x, w


def plane(env):
    o = env.m.optics3d
    (n, t, s), (a, b, g), c, (y, z), q, d, x, w = start(env)
    sg = env.pick([1, -1])
    k = env.p.kind
    if k == "round":
        M = o.Mirror(c, normal=sg * n, D=200)
    elif k == "rect":
        M = o.Mirror(c, shape="rectangular_flat", normal=sg * n, tangent=t, h=200, w=200)
    elif k == "dmd":                      # micromirrors tilted about the second axis
        ct, st = env.circle("tilt")
        env.require(ct >= 0.9)
        m = ct * n + st * t
        env.require(env.OR(a * ct + b * st >= 1e-2))
        # the ray must leave on the side it came from
        env.require(a - 2 * (a * ct + b * st) * ct <= -1e-3)
        M = o.Mirror(c, shape="rectangular_flat", normal=sg * n, tangent=s, h=200, w=200, type="dmd", dmd_normal=m)
    else:
        f = env.real("f", 5, 200)
        fs = f if k == "ideal" else -f
        # directions before and after are chosen, the height follows from them
        a2, b2, g2 = env.unit3("e")
        env.require(env.AND(a >= 0.1, a2 >= 0.1))
        y, z = fs * (b / a - b2 / a2), fs * (g / a - g2 / a2)
        q = c + y * t + z * s
        # along the axis exactly, or clear of it (the code has its own branch for the axis), before and after
        env.require(b * b + g * g >= 1e-6)
        env.require(b2 * b2 + g2 * g2 >= 1e-6)
        M = o.Lens(c, normal=sg * n, D=1e5, f=f if k == "ideal" else -f, type="ideal")
    ray = o.Ray(q - x * d, env.real("d.len", 0.1, 10) * d)
    back_again(env, 1, [M], ray, x + w)


def snell(env):
    """Ray.refract there and back with the indices exchanged"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c1, s1 = env.circle("in")
    n1, n2 = env.real("n1", 1, 4), env.real("n2", 1, 4)
    env.require(env.AND(c1 >= 1e-2, s1 >= 0))
    env.require(n1 * s1 <= n2 * (1 - 1e-6))
    d = c1 * n + s1 * t
    P = env.vec3("P", -POS, POS)
    k, k2 = env.pick([1, -1]), env.pick([1, -1])
    ray = o.Ray(P, d)
    ray.refract(refract_type="snells_law", normal=k * n, intersection_pt=P, eta1=n1, eta2=n2)
    ret = o.Ray(P, -ray.direction)
    ret.refract(refract_type="snells_law", normal=k2 * n, intersection_pt=P, eta1=n2, eta2=n1)
    env.observe("back", ret.direction)
    env.eqv(ret.direction, -d, "comes back along the direction it set out in")


def grating(env):
    """back at the diffracted angle, in the same order if that is on the incident side of the normal, else in the
    opposite order"""
    o = env.m.optics3d
    n, T, s = env.frame("F")
    ca, sa = env.circle("al")
    cb, sb = env.circle("be")            # sa > 0: incident side; sb of either sign
    cp, sp = env.circle("ph")
    m = env.p.order
    env.require(env.AND(ca >= 1e-2, cb >= 1e-2, cp >= 1e-2, sa >= 1e-3))
    same = env.boolean("same side")
    env.require(sb >= 1e-3 if same else sb <= -1e-3)
    lam = env.real("lam", 100, 2000)
    if m == 0:
        env.require(sb == -sa)
        G = env.real("G", 1, 3000)
    else:
        G = (sa + sb) / (m * lam * 1e-6)
        env.require(env.AND(G >= 1, G <= 3000))
    side = env.pick([1, -1])
    g = (-s if side > 0 else s)
    c = env.vec3("c", -POS, POS)
    d = -1 * (cp * (ca * n + sa * g)) + sp * T
    op = o.Grating(c, n, T, h=100, w=100, G=G)
    ray = o.Ray(c, d, wavelength=lam, order=m)
    op.do_intersect(ray, c, n, None)
    u = ray.direction
    env.eqv(u, cp * (cb * n + sb * g) + sp * T, "out at the diffracted angle")
    ret = o.Ray(c, -u, wavelength=lam, order=m if same else -m)
    op.do_intersect(ret, c, n, None)
    env.observe("back", ret.direction)
    env.eqv(ret.direction, -d, "comes back along the direction it set out in")


def ball(env):
    """in and out of a glass ball and back through it"""
    o = env.m.optics3d
    d, e, f = env.frame("F")
    ci, si = env.circle("i")
    ct, st = env.circle("t")
    env.require(env.AND(ci >= 1e-2, ct >= 1e-2, si >= 1e-2, st >= 1e-2, si >= st, si <= 4 * st))
    N = si / st
    R, x, w = env.real("R", 0.1, 100), env.real("x", 1e-2, 300), env.real("after", 1e-2, 300)
    P = env.vec3("P", -100, 100)
    c = P + R * (ci * d + si * e)
    L = o.Lens(c, shape="spherical", D=2 * R, index=N)
    back_again(env, 2, [L], o.Ray(P - x * d, d), x + 2 * R * ct + w, tol=1e-2, ang=1e-3)


def curved(env):
    """concave and convex mirrors, at the point with normal n"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    R = env.real("R", 1, 200)
    P = env.vec3("P", -100, 100)
    ci, si = env.circle("i")
    env.require(env.AND(ci >= 0.1, si >= 0))
    d = ci * n + si * t                  # towards the mirror, n outwards from the light
    if env.p.kind == "convex":
        x, w = env.real("x", 1e-2, 200), env.real("after", 1e-2, 200)
        M = o.Mirror(P + R * n, shape="circular_convex_spherical", D=2 * R)
    else:
        # vertex on the radius turned by a small angle in the plane of incidence
        cv, sv = env.circle("v")
        env.require(env.AND(cv >= 0.95))
        x, w = env.real("x", 1e-2, 1) * R * ci, env.real("after", 1e-2, 1) * R * ci
        ctr = P - R * n
        ax = cv * n + sv * s
        M = o.Mirror(ctr + R * ax, shape="circular_concave_spherical", normal=-ax, f=R / 2, D=1.9 * R)
    back_again(env, 1, [M], o.Ray(P - x * d, d), x + w, tol=1e-3, ang=1e-3)


def fold(env):
    """two mirrors in a row"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    P = env.vec3("P", -100, 100)
    ci, si = env.circle("i")
    env.require(env.AND(ci >= 0.1, env.OR(si >= 0, si <= 0)))
    d = ci * n + si * t
    u = -ci * n + si * t                 # after the first mirror
    x, L, w = env.real("x", 1e-2, 200), env.real("L", 1, 200), env.real("after", 1e-2, 200)
    M1 = o.Mirror(P, normal=n, D=1)
    a, b = env.circle("m")               # second mirror's normal
    env.require(a >= 0.1)
    m = a * u + b * s
    Q = P + L * u
    M2 = o.Mirror(Q, normal=m, D=1)
    # the second mirror's light must not meet the first again, nor the first leg the second
    w2 = env.real("keep", 1e-2, 0.4)
    back_again(env, 2, [M1, M2] if env.pick([0, 1]) else [M2, M1], o.Ray(P - w2 * d, d), w2 + L + w2)


def goals(tier):
    b = "any orientation, |c|<=100, crossing within 40 of the centre, legs 0.001..200, |cos| >= 1e-2"
    out = [Goal(f"{k}", plane, dict(kind=k), bounds=b) for k in ("round", "rect", "dmd", "ideal", "diverging")]
    out.append(Goal("refraction", snell, bounds="indices 1..4, both orientations of the normal, 1e-6 off critical"))
    out += [Goal(f"grating order {m}", grating, dict(order=m),
                 bounds="1..3000/mm, 100..2000 nm, cosines >= 1e-2, angles >= 1e-3 off the normal")
            for m in ((-1, 0, 1) if tier == "quick" else (-3, -2, -1, 0, 1, 2, 3))]
    out.append(Goal("ball lens", ball, bounds="R 0.1..100, index 1..4"))
    out += [Goal(f"{k} mirror", curved, dict(kind=k), bounds="R 1..200, cos(in) >= 0.1") for k in ("convex", "concave")]
    out.append(Goal("two mirrors", fold, bounds="|cos| >= 0.1, second mirror turning the light out of the first plane"))
    return out
