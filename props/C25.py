"""Construction: sizes and orientations are checked and stored consistently."""
import numpy as np

from props.h import *


def refused(env, f, label, exc=(ValueError,)):
    try:
        f()
    except exc:
        env.true(True, label)
        return
    env.fail(label)


def frame_len(env):
    """a position, a perpendicular pair of vectors of any lengths and their unit frame"""
    c = env.vec3("c", -POS, POS)
    n, t, s = env.frame("F")
    return c, n, t, s, env.real("ln", 0.01, 100), env.real("lt", 0.01, 100)


def make_round(env, kind, c, n, **kw):
    sh = env.m.shapes
    if kind == "circle":
        return sh.Circle(c, n, **kw)
    if kind == "sphere":
        return sh.Sphere(c, **kw)
    if kind == "infinite cylinder":
        return sh.InfiniteCylinder(c, env.A([0, 0, 1]), **kw)
    return sh.Cylinder(c, h=1, **kw)


ROUND = ["circle", "sphere", "infinite cylinder", "cylinder"]


def round_sizes(env):
    kind = env.pick(ROUND)
    c, n, t, s, ln, lt = frame_len(env)
    R = env.real("R", 0.001, 1000)
    how = env.choose(3, "given")
    kw = [dict(R=R), dict(D=2 * R), dict(R=R, D=2 * R)][how]
    ob = make_round(env, kind, c, ln * n, **kw)
    env.eq(ob.R, R, "radius")
    env.eq(ob.D, 2 * R, "diameter is twice the radius")
    env.eqv(ob.center, c, "centre")
    if kind == "circle":
        env.eqv(ob.normal, n, "unit normal")


def round_whole(env):
    """sizes given as whole numbers, odd ones too"""
    kind = env.pick(ROUND)
    c, n, t, s, ln, lt = frame_len(env)
    k = env.pick([1, 2, 3, 7, 10])
    how = env.choose(3, "given")
    ob = make_round(env, kind, c, ln * n, **[dict(R=k), dict(D=k), dict(R=k, D=2 * k)][how])
    R = k / 2 if how == 1 else k
    env.eq(ob.R, R, "radius")
    env.eq(ob.D, 2 * R, "diameter is twice the radius")


def round_refused(env):
    kind = env.pick(ROUND)
    c, n, t, s, ln, lt = frame_len(env)
    if env.boolean("neither"):
        refused(env, lambda: make_round(env, kind, c, n), "neither radius nor diameter is refused")
        return
    R, D = env.real("R", 0.001, 1000), env.real("D", 0.001, 2000)
    gap = D - 2 * R
    env.require(env.OR(gap >= 1e-4, gap <= -1e-4))
    refused(env, lambda: make_round(env, kind, c, n, R=R, D=D), "conflicting radius and diameter are refused")


def make_rect(env, kind, c, n, t, **kw):
    o, sh = env.m.optics3d, env.m.shapes
    if kind == "rectangle":
        return sh.Rectangle(c, n, t, **kw)
    if kind == "mirror":
        return o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, **kw)
    if kind == "dmd":
        return o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, type="dmd", dmd_normal=n, **kw)
    if kind == "grating":
        return o.Grating(c, n, t, G=600, **kw)
    return o.Detector(c, n, t, **kw)


RECT = ["rectangle", "mirror", "dmd", "grating", "detector"]


def rect_sizes(env):
    """stored as given; the four corners go round the outline"""
    kind = env.pick(RECT)
    c, n, t, s, ln, lt = frame_len(env)
    h, w = env.real("h", 0.001, 1000), env.real("w", 0.001, 1000)
    ob = make_rect(env, kind, c, ln * n, lt * t, h=h, w=w)
    for r in ([ob] if kind == "rectangle" else [ob, ob.surfaces[0]]):
        env.eq(r.h, h, "height")
        env.eq(r.w, w, "width")
        env.eqv(r.normal, n, "unit normal")
        if hasattr(r, "tangent"):
            env.eqv(r.tangent, t, "unit tangent")
    env.eqv(ob.center if kind == "rectangle" else ob.position, c, "place")
    r = ob if kind == "rectangle" else ob.surfaces[0]
    b = r.bounds
    env.true(len(b) == 4, "four corners")
    env.observe("b", [x for k in range(4) for x in b[k]])
    seen = set()
    last = None
    for k in range(4):
        d = [b[k][i] - c[i] for i in range(3)]
        env.eq(env.dot(d, n), 0, "corners lie in the plane")
        a, e = env.dot(d, t), env.dot(d, s)
        q = (1 if env.decide(a > 0) else -1, 1 if env.decide(e > 0) else -1)
        env.eq(a, q[0] * h / 2, "corners are half the height along the tangent")
        env.eq(e, q[1] * w / 2, "corners are half the width across")
        seen.add(q)
        if last is not None:
            env.true((q[0] != last[0]) + (q[1] != last[1]) == 1, "corners go round the outline")
        last = q
    env.true(len(seen) == 4, "four different corners")


def rect_refused(env):
    kind = env.pick(RECT)
    c, n, t, s, ln, lt = frame_len(env)
    h, w = env.real("h", 0.001, 1000), env.real("w", 0.001, 1000)
    case = env.choose(5, "case")
    label = ["missing height is refused", "missing width is refused", "negative height is refused",
             "negative width is refused", "a tangent not perpendicular to the normal is refused"][case]
    kw = [dict(w=w), dict(h=h), dict(h=-h, w=w), dict(h=h, w=-w), dict(h=h, w=w)][case]
    if case == 4:
        k, sn = env.circle("tilt")
        env.require(env.OR(k >= 1e-6, k <= -1e-6))
        t = k * n + sn * t
    refused(env, lambda: make_rect(env, kind, c, ln * n, lt * t, **kw), label)


def kept(env):
    """optics and rays keep what they are given, and have the documented defaults"""
    o, g, sh = env.m.optics3d, env.m.general_optics, env.m.shapes
    c, n, t, s, ln, lt = frame_len(env)
    D, f, N, w = env.real("D", 0.001, 1000), env.real("f", 1, 1000), env.real("N", 1, 4), env.real("w", 0.001, 1000)
    case = env.choose(6, "case")
    if case == 0:
        L = o.Lens(c, ln * n, D=D, f=f, type="ideal", index=N, h=w, w=2 * w)
        env.eq(L.h, w, "lens height")
        env.eq(L.w, 2 * w, "lens width")
        env.eq(L.D, D, "lens diameter")
        env.eq(L.f, f, "lens focal length")
        env.eq(L.index, N, "lens index")
        env.true(L.type == "ideal", "lens type")
        env.eqv(L.position, c, "lens place")
        env.eqv(L.normal, n, "lens axis")
        env.eq(o.Lens(c, ln * n, D=D, f=f, type="ideal").index, 1.5, "glass has index 1.5 by default")
    elif case == 1:
        B = o.Lens(c, shape="spherical", D=D, index=N)
        env.eq(B.index, N, "ball index")
        env.eq(B.surfaces[0].R, D / 2, "ball radius")
        env.eq(o.Lens(c, shape="spherical", D=D).index, 1.5, "glass has index 1.5 by default")
    elif case == 2:
        T = g.BinaryTree(sh.Sphere(c, R=D))
        C = o.Compound(T, surface_behavior="refract", index=N)
        env.eq(C.index, N, "solid's index")
        env.true(C.surface_behavior == "refract", "solid's behaviour")
        env.true(C.tree is T, "solid's tree")
        C = o.Compound(T)
        env.eq(C.index, 1.5, "glass has index 1.5 by default")
        env.true(C.surface_behavior == "reflect", "solids reflect by default")
    elif case == 3:
        r = o.Ray(c, ln * n, wavelength=w, order=env.pick([-2, 0, 3]), type="faerie_fire")
        env.eq(r.wavelength, w, "ray's wavelength")
        env.true(r.type == "faerie_fire", "ray's kind")
        env.eqv(r.position, c, "ray's start")
        env.eqv(r.direction, n, "ray's unit direction")
        env.true(len(r.point_history) == 1 and not r.blocked, "a new ray has only its start, and is free")
    elif case == 4:
        r = o.Ray(c, ln * n)
        env.eq(r.wavelength, 532, "532 nm by default")
        env.true(r.order == 0 and r.type == "normal" and not r.print_trajectory, "an ordinary quiet ray in order 0 by default")
    else:
        M = o.Mirror(c, normal=ln * n, D=D)
        env.true(M.type == "normal", "an ordinary mirror by default")
        env.eq(M.D, D, "mirror diameter")
        K = o.Mirror(c, shape="circular_concave_spherical", normal=ln * n, D=D, f=f)
        env.eq(K.rc, 2 * f, "radius of curvature is twice the focal length")
        env.eqv(K.p_rc, c + 2 * f * n, "centre of curvature in front of the mirror")
        G = o.Grating(c, ln * n, lt * t, h=D, w=w, G=N)
        env.eq(G.G, N, "groove density")


def names(env):
    """unknown shapes, behaviours and kinds are refused, not guessed"""
    o, g, sh = env.m.optics3d, env.m.general_optics, env.m.shapes
    c, n, t, s, ln, lt = frame_len(env)
    case = env.choose(9, "case")
    if case == 0:
        refused(env, lambda: o.Mirror(c, shape="triangular", normal=n, D=1), "unknown mirror shape")
    elif case == 1:
        refused(env, lambda: o.Lens(c, n, shape="triangular", D=1), "unknown lens shape")
    elif case == 2:
        refused(env, lambda: o.Grating(c, n, t, shape="triangular", h=1, w=1), "unknown grating shape")
    elif case == 3:
        refused(env, lambda: o.Detector(c, n, t, shape="triangular", h=1, w=1), "unknown detector shape")
    elif case == 4:
        refused(env, lambda: o.Ray(c, n).fly(), "flying nowhere in particular")
    elif case == 5:
        refused(env, lambda: o.Ray(c, n).reflect(reflect_type="other", normal=n, intersection_pt=c), "unknown reflection")
    elif case == 6:
        refused(env, lambda: o.Ray(c, n).refract(refract_type="other", normal=n, intersection_pt=c), "unknown refraction")
    elif case == 7:
        C = o.Compound(g.BinaryTree(sh.Sphere(c, R=ln)), surface_behavior="other")
        refused(env, lambda: C.do_intersect(o.Ray(c, n), c + ln * n, n, False), "unknown surface behaviour")
    else:
        refused(env, lambda: o.Mirror(c, shape="circular_flat", normal=n), "round mirror without a diameter")


def goals(tier):
    b = "any place, orientation and vector lengths, sizes 0.001..1000"
    return [Goal("round sizes", round_sizes, bounds=b), Goal("round whole sizes", round_whole, bounds="sizes 1, 2, 3, 7, 10"),
            Goal("round refused", round_refused, bounds=b + ", gap at least 1e-4"),
            Goal("rectangle sizes", rect_sizes, bounds=b), Goal("rectangle refused", rect_refused,
                                                                 bounds=b + ", cosine of the angle at least 1e-6"),
            Goal("unknown names", names, bounds=b), Goal("kept and default values", kept, bounds=b)]
