"""Optics combined in one scene do together what their geometry says: mirror pairs, corner cubes, lens pairs,
cat's eyes, spectrometers."""
from props.h import *

ASSUMES = ["crossings at least 1e-3 apart and from the start, incidence at |cos| >= 0.1, apertures wide enough for the path"]


def pair(env):
    """two mirrors turn the light by twice the angle between them, about their common line"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    P = env.vec3("P", -100, 100)
    ci, si = env.circle("i")
    env.require(ci >= 0.1)
    d = ci * n + si * t
    u = -ci * n + si * t                 # between the mirrors
    x, L, w = env.real("x", 0.01, 0.4), env.real("L", 1, 200), env.real("after", 0.01, 0.4)
    a, b = env.circle("m")
    env.require(a >= 0.1)
    m = a * u + b * s
    k1, k2 = env.pick([1, -1]), env.pick([1, -1])
    ops = [o.Mirror(P, normal=k1 * n, D=1), o.Mirror(P + L * u, normal=k2 * m, D=1)]
    if env.p.swap:
        ops = ops[::-1]
    ray = o.Ray(P - x * d, d)
    ray.run(max_distance=x + L + w, optic_list=ops)
    env.true(len(ray.point_history) == 4, "both mirrors act, once each")
    r = ray.direction
    env.observe("d", r)
    e = env.cross(n, m)
    c = env.dot(n, m)
    e2 = 1 - c * c
    env.eq(env.dot(r, e), env.dot(d, e), "the component along the common line is kept")
    de = env.dot(d, e)
    p2 = e2 - de * de                    # e2 * |d across|^2
    env.eq(e2 * env.dot(r, d) - de * de, (2 * c * c - 1) * p2, "turned by twice the angle between the mirrors")
    env.eq(env.dot(env.cross(d, r), e), 2 * c * p2, "in the sense from the first mirror to the second")
    env.eqv(ray.position, P + L * u + w * env.A(list(r)), "and flies on from the second", tol=1e-5)


def corner(env):
    """three mirrors at right angles send any light back where it came from, in whatever order it meets them"""
    o = env.m.optics3d
    fr = env.frame("F")
    c = env.vec3("c", -100, 100)
    dd = env.unit3("d")
    # path lengths to the three planes, in the order the light meets them
    T = [env.real("T1", 0.1, 100)]
    T += [T[0] + env.real("T2", 0.01, 100)]
    T += [T[1] + env.real("T3", 0.01, 100)]
    for k in range(3):
        env.require(dd[k] <= -0.01)
    ops = [o.Mirror(c, shape="rectangular_flat", normal=fr[k], tangent=fr[(k + 1) % 3], h=1e3, w=1e3)
           for k in env.p.order]
    d = comb(*zip(dd, fr))
    p = c - comb(*zip([T[k] * dd[k] for k in range(3)], fr))
    more = env.real("more", 1, 100)
    D = T[2] + more
    ray = o.Ray(p, d)
    ray.run(max_distance=D, optic_list=ops)
    env.true(len(ray.point_history) == 5, "each mirror acts once")
    env.observe("d", ray.direction)
    env.eqv(ray.direction, -d, "sent back parallel to itself")
    env.eqv(ray.position, 2 * c - p - D * d, "on the line opposite the corner", tol=1e-3)


def slope(env, name, lim=3):
    """clear of the axis, which has its own branch in the code"""
    m = env.real(name, -lim, lim)
    env.require(env.OR(m >= 1e-3, m <= -1e-3))
    return m


def lenses(env):
    """ideal lenses on one axis: heights and slopes follow the product of their ray matrices, so telescopes, relays and
    lenses in contact have the focal lengths and magnifications they should"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    N = len(env.p.signs)
    m1, m2 = slope(env, "m1"), slope(env, "m2")
    g1, g2 = (env.real("g1", -3, 3), env.real("g2", -3, 3)) if env.p.skew else (0, 0)
    f = [env.real(f"f{k}", 1, 200) * sg for k, sg in enumerate(env.p.signs)]
    L = [env.real(f"L{k}", 0.1, 200) for k in range(1, N)]
    # heights and slopes, by the ray matrices; the first height is the one that gives the second slope
    y, z = [f[0] * (m1 - m2)], [f[0] * (g1 - g2)]
    m, g = [m1, m2], [g1, g2]
    for k in range(1, N):
        y.append(y[-1] + L[k - 1] * m[-1])
        z.append(z[-1] + L[k - 1] * g[-1])
        m.append(m[-1] - y[-1] / f[k])
        g.append(g[-1] - z[-1] / f[k])
        env.require(env.OR(m[-1] >= 1e-3, m[-1] <= -1e-3))
    x = env.real("x", 0.01, 100)
    sg = env.pick([1, -1])
    cs = [c]
    for k in range(1, N):
        cs.append(cs[-1] + L[k - 1] * n)
    ops = [o.Lens(cs[k], normal=(sg if k == 0 else 1) * n, D=1e6, f=f[k], type="ideal") for k in env.p.order]
    d = n + m1 * t + g1 * s
    ray = o.Ray(c + y[0] * t + z[0] * s - x * d, d)
    ray.run(max_distance=1e6, optic_list=ops, max_interactions=N)
    env.true(len(ray.point_history) == N + 1, "every lens acts once")
    if len(ray.point_history) != N + 1:
        return
    r = ray.direction
    env.observe("d", r)
    env.eqv(ray.position, cs[-1] + y[-1] * t + z[-1] * s, "height at the last lens: y + L m", tol=1e-3)
    if N == 2:
        ms = m1 * (1 - L[0] / f[1]) - y[0] * (1 / f[0] + 1 / f[1] - L[0] / (f[0] * f[1]))
        gs = g1 * (1 - L[0] / f[1]) - z[0] * (1 / f[0] + 1 / f[1] - L[0] / (f[0] * f[1]))
    else:
        ms, gs = m[-1], g[-1]
    env.eq(env.dot(r, t), ms * env.dot(r, n), "slope after both: m (1 - L/f2) - y1 (1/f1 + 1/f2 - L/(f1 f2))", tol=1e-4)
    env.eq(env.dot(r, s), gs * env.dot(r, n), "slope after both, in the other plane", tol=1e-4)
    env.lt(0, env.dot(r, n), "goes on forwards")


def folded(env):
    """a flat mirror behind a lens folds the path: everything lands at the mirror image of where it would have"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    b1, b2 = slope(env, "b1"), slope(env, "b2")
    f = env.real("f", 1, 100) * env.p.sign
    y = f * (b1 - b2)
    d = n + b1 * t
    x, L = env.real("x", 0.01, 100), env.real("L", 1, 100)
    cm, sm = env.circle("m")             # mirror turning the light out of the plane
    env.require(env.AND(cm >= 0.5))
    mn = cm * n + sm * s
    P = c + y * t + L * (n + b2 * t)
    k = env.pick([1, -1])
    lens = o.Lens(c, normal=n, D=1e5, f=f, type="ideal")
    mir = o.Mirror(P, normal=k * mn, D=0.1)
    x2 = env.real("after", 0.01, 0.4)
    ends = []
    for ops in ([lens], [lens, mir]):
        ray = o.Ray(c + y * t - x * d, d)
        ray.run(max_distance=x * env.sqrt(1 + b1 * b1) + L * env.sqrt(1 + b2 * b2) + x2, optic_list=ops)
        ends.append(ray)
    A, B = ends
    env.true(len(A.point_history) == 3, "the lens acts")
    env.true(len(B.point_history) == 4, "lens and mirror act")
    if len(B.point_history) != 4:
        return
    env.observe("end", B.position)

    def image(v):
        q = env.dot(v, mn)
        return [v[i] - 2 * q * mn[i] for i in range(3)]
    env.eqv(B.direction, image(A.direction), "direction mirrored", tol=1e-5)
    env.eqv(env.sub(B.position, P), image(env.sub(A.position, P)), "lands at the mirror image", tol=1e-3)


def spectrometer(env):
    """a parallel beam on a grating, a camera lens behind it, a detector in its focal plane: the whole beam lands on one
    point, f tan(angle) off the camera's axis"""
    o = env.m.optics3d
    n, t, s = env.frame("F") if env.p.turn else [env.A(v) for v in ((0, 1, 0), (1, 0, 0), (0, 0, -1))]
    gc = env.vec3("c", -100, 100)
    f2 = env.real("f", 10, 100)
    y, z = env.real("y", -5, 5), (env.real("z", -5, 5) if env.p.skew else 0)
    ca, sa = env.circle("al")            # incidence on the grating
    cb, sb = env.circle("be")            # diffraction
    env.require(env.AND(ca >= 0.5, cb >= 0.5, sa >= 0.01, env.OR(sb >= 0.01, sb <= -0.01)))
    lam, m = env.real("lam", 200, 1500), env.p.order
    G = (sa + sb) / (m * lam * 1e-6)
    env.require(env.AND(G >= 1, G <= 3000))
    L2 = env.real("L2", 60, 200)
    # n: grating normal, t: along it, towards the incident light
    d = -ca * n - sa * t
    e = cb * n + sb * t
    ep = -sb * n + cb * t
    if env.p.axis:
        ax, ay, off = e, ep, 0
    else:
        ct, st = env.circle("ang")       # angle off the camera's axis
        env.require(env.AND(ct >= 0.9, env.OR(st >= 1e-3, st <= -1e-3)))
        ax, ay, off = ct * e - st * ep, st * e + ct * ep, st / ct
    gr = o.Grating(gc, n, s, h=1e4, w=1e4, G=G)
    c2 = gc + L2 * e
    l2 = o.Lens(c2, normal=-ax, D=1e4, f=f2, type="ideal")
    det = o.Detector(c2 + f2 * ax, -ax, s, h=1e4, w=1e4)
    x = env.real("x", 0.1, 50)
    ray = o.Ray(gc + y * t + z * s - x * d, d, wavelength=lam, order=m)
    ray.run(max_distance=1000, optic_list=[gr], max_interactions=1)
    env.eqv(ray.direction, e, "diffracted the same way for the whole beam", tol=1e-5)
    ray.run(max_distance=1e5, optic_list=[l2, det])
    env.true(len(det.hit_data) == 1, "reaches the detector")
    if len(det.hit_data) != 1:
        return
    h = det.hit_data[0]
    env.observe("hit", h)
    env.eqv(h[:3], c2 + f2 * ax + f2 * off * ay, "lands f tan(angle) off the axis", tol=1e-3)
    env.eq(h[3], lam, "with its wavelength")


def catseye(env):
    """a lens with a flat mirror in its focal plane sends all light back parallel to itself"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    b1, b2 = slope(env, "b1"), slope(env, "b2")
    g1, g2 = env.real("g1", -3, 3), env.real("g2", -3, 3)
    f = env.real("f", 1, 100)
    y, z = f * (b1 - b2), f * (g1 - g2)
    q = c + y * t + z * s
    d = n + b1 * t + g1 * s
    x = env.real("x", 0.01, 100)
    k1, k2 = env.pick([1, -1]), env.pick([1, -1])
    ops = [o.Lens(c, normal=k1 * n, D=1e5, f=f, type="ideal"),
           o.Mirror(c + f * n, normal=k2 * n, D=1e5)]
    ray = o.Ray(q - x * d, d)
    ray.run(max_distance=1e4, optic_list=ops)
    pts = ray.point_history
    env.true(len(pts) == 5, "lens, mirror, lens, and out")
    if len(pts) != 5:
        return
    env.observe("d", ray.direction)
    r = ray.direction
    env.eqv(env.cross(r, d), [0, 0, 0], "sent back parallel to itself", tol=1e-5)
    env.lt(env.dot(r, d), 0, "and the other way")
    env.eqv(pts[2], c + f * n + f * b1 * t + f * g1 * s, "focused on the mirror at f tan(angle)", tol=1e-3)


def goals(tier):
    out = [Goal("two mirrors" + (", reversed list" if v else ""), pair, dict(swap=v),
                bounds="any orientation, mirrors 1..200 apart, |cos| >= 0.1") for v in (False, True)]
    orders = ((0, 1, 2), (2, 1, 0)) if tier == "quick" else ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
    out += [Goal(f"corner cube, list order {v}", corner, dict(order=v), tol=1e-5,
                 bounds="any orientation, mirrors met 0.1..100 and then 0.01..100 apart, direction components >= 0.01")
            for v in orders]
    lb = "|f| 1..200, 0.1..200 apart, slopes up to 3"
    out += [Goal(f"lens pair {'+' if a > 0 else '-'}{'+' if b > 0 else '-'}", lenses,
                 dict(signs=(a, b), order=(1, 0) if a == b else (0, 1), skew=False), bounds=lb)
            for a in (1, -1) for b in (1, -1)]
    out += [Goal(f"folded path, {'converging' if q > 0 else 'diverging'}", folded, dict(sign=q),
                 bounds="|f| 1..100, slopes up to 3") for q in (1, -1)]
    out += [Goal(f"spectrometer, order {q}", spectrometer, dict(order=q, turn=True, axis=True, skew=False),
                 bounds="camera looking along the diffracted beam, f 10..100, 1..3000/mm, 200..1500 nm, beam 10 wide",
                 weight=5) for q in ((1,) if tier == "quick" else (-2, -1, 1, 2))]
    out.append(Goal("cat's eye", catseye, bounds="f 1..100, directions up to 72 degrees off axis"))
    return out
