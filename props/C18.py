"""Tracing changes nothing but the ray (and detector logs): scene and arguments stay as they were, and a
ray's path does not depend on the rays traced before it."""
import numpy as np

from props.h import *

ASSUMES = ["one interaction per optic and run (two runs over the same scene, another ray in between)"]


def tree(env, op, *leaves):
    t = env.m.general_optics.BinaryTree(op)
    t.insertLeft(leaves[0])
    t.insertRight(leaves[1])
    return t


def build(env, kind, c, n, t, s, f):
    """an optic of the given kind whose surface passes through c with normal n"""
    o, sh = env.m.optics3d, env.m.shapes
    kn, kt = env.real("n.len", 0.5, 2), env.real("t.len", 0.5, 2)
    N, T = kn * n, kt * t
    args = [c, N, T]
    if kind == "flat":
        op = o.Mirror(c, normal=N, D=10)
    elif kind == "rect":
        op = o.Mirror(c, shape="rectangular_flat", normal=N, tangent=T, h=10, w=10)
    elif kind == "dmd":
        dn = n + 0.2 * t
        args.append(dn)
        op = o.Mirror(c, shape="rectangular_flat", normal=N, tangent=T, h=10, w=10, type="dmd", dmd_normal=dn)
    elif kind in ("ideal", "ideal_collimate", "ideal_focus"):
        op = o.Lens(c, normal=N, D=10, f=f, type=kind)
    elif kind == "grating":
        op = o.Grating(c, N, T, h=10, w=10, G=600)
    elif kind == "detector":
        op = o.Detector(c, N, T, h=10, w=10)
    elif kind == "concave":
        op = o.Mirror(c, shape="circular_concave_spherical", normal=N, D=10, f=20)
    elif kind == "convex":
        op = o.Mirror(c, shape="circular_convex_spherical", D=10)
    elif kind == "ball":
        op = o.Lens(c, shape="spherical", D=10, index=1.5)
    elif kind in ("reflect", "refract"):
        args.append(c + 2 * n)
        op = o.Compound(tree(env, env.p.op, sh.Sphere(c, R=5), sh.Sphere(args[-1], R=5)), surface_behavior=kind)
    return op, args


def state(x, depth=0):
    """values reachable from an optic (not its hit log), as a flat list of (path, number/None/str)"""
    out = []

    def rec(path, v, d):
        if d > 4 or callable(v):
            return
        if isinstance(v, np.ndarray):
            for i, e in enumerate(v.flat):
                out.append((f"{path}[{i}]", e))
        elif isinstance(v, (list, tuple)):
            out.append((path + ".len", len(v)))
            for i, e in enumerate(v):
                rec(f"{path}[{i}]", e, d + 1)
        elif v is None or isinstance(v, (str, bool)):
            out.append((path, v))
        elif hasattr(v, "__dict__") and not type(v).__name__ == "SymReal":
            for k in sorted(vars(v)):
                if k.startswith("_"):
                    continue        # private caches are the code's own business
                if k != "hit_data":
                    rec(f"{path}.{k}", vars(v)[k], d + 1)
        else:
            out.append((path, v))
    rec("optic", x, depth)
    return out


def same_state(env, a, b):
    b = dict(b)
    for k, x in a:
        if k not in b:
            env.fail(f"the optic keeps its parts ({k})")
            continue
        y = b[k]
        if x is None or isinstance(x, (str, bool)):
            env.true(x is y or x == y, f"the optic is unchanged ({k})")
        else:
            env.eq(y, x, f"the optic is unchanged ({k})")


def trace(env):
    o = env.m.optics3d
    kind = env.p.kind
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    f = env.real("f", 10, 100)
    op, args = build(env, kind, c, n, t, s, f)
    y = env.real("y", 0.01, 3)
    wl, order = env.real("wavelength", 300, 900), env.p.get("order", 0)
    p = c + 8 * n + y * t                 # arrives against the normal
    d = -1 * n
    if not env.p.get("straight"):
        ca, sa = env.circle("a")
        env.require(env.AND(ca >= 0.95, sa >= 1e-3))
        d = -ca * n + sa * s
        p = c + y * t - 8 * d
    L = env.real("d.len", 0.5, 2)
    D = L * d
    args += [p, D]
    keep = [list(a) for a in args]
    before = state(op)
    M, K = 12, env.p.get("K", 1)

    def go(order, pos, dr):
        r = o.Ray(pos, dr, wavelength=wl, order=order)
        r.run(M, [op], max_interactions=K)
        return r
    a = go(order, p, D)
    pa = [list(q) for q in a.point_history]
    da = list(a.direction)
    env.observe("end", a.position)
    for x, k in zip(args, keep):
        env.eqv(x, k, "the caller's arrays are unchanged")
    same_state(env, before, state(op))
    env.eq(a.wavelength, wl, "the wavelength is unchanged")
    env.eq(a.order, order, "the order is unchanged")
    env.eqv(pa[0], keep[-2], "the history starts at the start")
    # another ray in between, then the first one again
    b = go(0, env.A([x for x in p]) - 0.005 * t, env.A(list(D)))
    e = go(order, env.A(keep[-2]), env.A(keep[-1]))
    env.true(len(e.point_history) == len(pa), "same number of points again")
    for q, w in zip(e.point_history, pa):
        env.eqv(q, w, "same path again")
    env.eqv(e.direction, da, "same direction again")
    env.true(len(a.point_history) == len(pa), "the first ray is not touched by later ones")
    for q, w in zip(a.point_history, pa):
        env.eqv(q, w, "the first ray's history is not touched by later ones")
    for x, k in zip(args, keep):
        env.eqv(x, k, "the caller's arrays are still unchanged")
    same_state(env, before, state(op))


def goals(tier):
    b = "any orientation, position within 100; incidence up to 18 degrees, offset 0.01..3"
    out = []
    for k in ("flat", "rect", "dmd", "ideal", "ideal_collimate", "ideal_focus", "grating", "detector", "concave",
              "convex", "ball"):
        out.append(Goal(k, trace, dict(kind=k, straight=k in ("concave", "convex", "ball")), bounds=b))
    out.append(Goal("grating, first order", trace, dict(kind="grating", order=1), bounds=b))
    for k in ("reflect", "refract"):
        for op in ("union", "intersect", "difference"):
            out.append(Goal(f"solid {k} {op}", trace, dict(kind=k, op=op, straight=True), bounds=b))
    return out
