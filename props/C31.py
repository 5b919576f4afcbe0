"""A ray stays the ray it is: whatever it meets, wavelength, order, kind and unit direction stay; and whether its
trajectory is printed makes no difference to it."""
import contextlib
import io

from props.h import *
from props.C18 import build, tree

ASSUMES = ["one ray through one or two optics of each kind (C10 covers arbitrary histories of turns and stops)"]

KINDS = ["flat", "rect", "dmd", "ideal", "ideal_collimate", "ideal_focus", "grating", "detector", "concave", "convex",
         "ball", "reflect", "refract"]


def scene(env, kind):
    o = env.m.optics3d
    lam = env.real("lam", 400, 700)
    order = env.p.order
    if kind in ("convex", "ball", "reflect", "refract", "concave"):
        # met at P, at the angle of (ci, si)
        d, e, f = env.frame("F")
        ci, si = env.circle("i")
        ct, st = env.circle("t")
        env.require(env.AND(ci >= 0.1, ct >= 0.1, si >= 1e-2, st >= 1e-2, si <= 4 * st, si - st >= 1e-3))
        env.require(env.AND(env.OR(si <= 0.5 - 1e-3, si >= 0.5 + 1e-3), env.OR(st <= 0.5 - 1e-3, st >= 0.5 + 1e-3)))
        R = env.real("R", 1, 50)
        P = env.vec3("P", -100, 100)
        m = ci * d + si * e
        c = P + R * m
        x = env.real("x", 0.1, 50)
        if kind == "ball":
            op = o.Lens(c, shape="spherical", D=2 * R, index=si / st)
        elif kind == "convex":
            op = o.Mirror(c, shape="circular_convex_spherical", D=2 * R)
        elif kind == "concave":
            x = x / 50 * R * ci
            ax = m
            op = o.Mirror(P, shape="circular_concave_spherical", normal=-ax, D=R, f=R / 2)
        else:
            op = o.Compound(tree(env, "union", env.m.shapes.Sphere(c, R=R), env.m.shapes.Sphere(c, R=R / 2)),
                            surface_behavior=kind, index=si / st)
        q = P
    else:
        n, t, s = env.frame("F")
        c = env.vec3("c", -100, 100)
        op, args = build(env, kind, c, n, t, s, env.real("f", 5, 50))
        b = env.real("slope", 0.05, 0.3)
        q = c + env.real("y", 0.1, 1) * t
        x = env.real("x", 1, 4)
        d = -n + b * t
    if env.p.get("own") is not None:                # gratings can have an order of their own; the ray's counts
        op.order = env.p.own
    make = lambda v: o.Ray(q - x * d, d, wavelength=lam, order=order, type=env.p.type, print_trajectory=v)
    return op, make, (lam, order)


def keep(env):
    op, make, (lam, order) = scene(env, env.p.kind)
    ray = make(False)
    d0 = [v for v in ray.direction]
    p0 = [v for v in ray.position]
    ray.run(max_distance=100, optic_list=[op], max_interactions=1)
    env.observe("p", ray.position)
    env.eq(ray.wavelength, lam, "wavelength kept")
    env.true(ray.order == order, "diffraction order kept")
    env.true(ray.type == env.p.type, "kind of ray kept")
    env.true(ray.print_trajectory is False, "print setting kept")
    env.eq(env.norm2(ray.direction), 1, "unit direction")
    env.eqv(ray.point_history[0], p0, "the history still starts at the start")
    env.eqv(ray.point_history[-1], ray.position, "and ends where the ray is")
    met = len(ray.point_history) == 2 and env.p.type == "faerie_fire"
    stops = env.p.kind == "detector" or env.p.type == "faerie_fire"
    env.true(bool(ray.blocked) == stops, "stopped exactly by detectors and as a probe")
    if stops:
        env.eqv(ray.direction, d0, "a stopped ray still points the way it came")


def verbose(env):
    op, make, (lam, order) = scene(env, env.p.kind)
    A, B = make(False), make(True)
    texts = []
    for r in (A, B):
        with contextlib.redirect_stdout(io.StringIO()) as f:
            r.run(max_distance=100, optic_list=[op], max_interactions=1)
            r.fly(1)
        texts.append(f.getvalue())
    env.true(texts[0] == "", "a quiet ray prints nothing")
    env.true(len(texts[1]) >= 3, "a printing ray prints its run and flight")
    env.true(len(A.point_history) == len(B.point_history), "same number of points")
    env.observe("p", B.position)
    env.eqv(A.position, B.position, "same end point")
    env.eqv(A.direction, B.direction, "same direction")
    env.true(bool(A.blocked) == bool(B.blocked), "same state")


def goals(tier):
    b = "any orientation, |c|<=100, f 5..50, slope 0.05..0.3, R 1..50, index up to 4"
    out = []
    for k in KINDS:
        pr = dict(kind=k, order=1 if k == "grating" else -2, op="union", type="normal")
        out.append(Goal(k, keep, pr, bounds=b))
        out.append(Goal(k + ", printing", verbose, pr, bounds=b))
    for k in ("flat", "grating", "ball", "ideal") if tier == "quick" else KINDS:
        out.append(Goal(k + ", probe", keep, dict(kind=k, order=3, op="union", type="faerie_fire"), bounds=b))
    for w, m in ((1, 0), (2, 1)):
        out.append(Goal(f"grating of order {w}, ray of order {m}", keep, dict(kind="grating", order=m, op="union",
                        type="normal", own=w), bounds=b))
    return out
