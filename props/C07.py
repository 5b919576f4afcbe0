"""Collimating and focusing lenses."""
from props.h import *
from props.C06 import setup


def collimate(env):
    fr, (a, b, g), c, (y, z), p, d, K = setup(env, 1e-6)
    n, t, s = fr
    L = env.m.optics3d.Lens(c, K * n, type="ideal_collimate", D=1000, f=env.real("f", *env.p.f))
    ray = env.m.optics3d.Ray(p, d)
    L.do_intersect(ray, p, n, True)
    env.observe("d", ray.direction)
    fwd = env.decide(a > 0)
    env.eqv(ray.direction, n if fwd else -n, "leaves along the axis, in the sense it was going")
    env.eqv(ray.position, p, "position unchanged")


def focus(env):
    fr, (a, b, g), c, (y, z), p, d, K = setup(env, 1e-6)
    n, t, s = fr
    f = env.real("f", *env.p.f)
    L = env.m.optics3d.Lens(c, K * n, type="ideal_focus", D=1000, f=f)
    ray = env.m.optics3d.Ray(p, d)
    L.do_intersect(ray, p, n, True)
    u = ray.direction
    env.observe("d", u)
    fwd = env.decide(a > 0)
    un = env.dot(u, n) * (1 if fwd else -1)
    env.eq(env.norm2(u), 1, "unit length")
    env.lt(0, un, "goes on through the lens")
    env.eq(f * env.dot(u, t), -y * un, "aims at the focal point (t)", tol=1e-5)
    env.eq(f * env.dot(u, s), -z * un, "aims at the focal point (s)", tol=1e-5)
    env.eqv(ray.position, p, "position unchanged")


def focus_run(env):
    """a collimated, tilted or diverging beam is brought to one point by a focusing lens, and a
    collimating lens makes rays from one point parallel (through the run loop)"""
    n, t, s = env.frame("F")
    c = env.vec3("c", -POS, POS)
    f = env.real("f", 1, 100)
    x = env.real("x", 1, 200)
    y, z = env.real("y", -40, 40), env.real("z", -40, 40)
    b, g = env.real("b", -0.5, 0.5), env.real("g", -0.5, 0.5)
    side = env.pick([1, -1])
    start = c - side * x * n + (y - b * x) * t + (z - g * x) * s
    kind = env.p.kind
    L = env.m.optics3d.Lens(c, n, type=kind, D=200, f=f)
    ray = env.m.optics3d.Ray(start, side * n + b * t + g * s)
    after = env.real("after", 1, 100)
    ray.run(max_distance=1000, optic_list=[L], max_interactions=1)
    env.eqv(ray.position, c + y * t + z * s, "meets the lens where aimed", tol=1e-4)
    if kind == "ideal_collimate":
        env.eqv(ray.direction, side * n, "leaves along the axis")
    else:
        u = ray.direction
        un = side * env.dot(u, n)
        env.lt(0, un, "goes on through the lens")
        env.eq(f * env.dot(u, t), -y * un, "aims at the focal point (t)", tol=1e-5)
        env.eq(f * env.dot(u, s), -z * un, "aims at the focal point (s)", tol=1e-5)


def goals(tier):
    b = "any orientation, |c|<=1000, crossing within 200 of the centre, 1<=f<=1000, |cos|>=1e-6, both travel senses"
    b2 = "start 1..200 before the lens, slopes up to 0.5, aperture 40, 1<=f<=100"
    return [Goal("collimate", collimate, dict(f=(1, 1000)), bounds=b), Goal("focus", focus, dict(f=(1, 1000)), bounds=b),
            Goal("collimate, other lengths", collimate, dict(f=(0.01, 1e5)), bounds=b.replace("1<=f<=1000", "0.01<=f<=1e5")),
            Goal("focus, short", focus, dict(f=(0.01, 1)), bounds=b.replace("1<=f<=1000", "0.01<=f<=1")),
            Goal("focus, long", focus, dict(f=(1000, 1e5)), bounds=b.replace("1<=f<=1000", "1000<=f<=1e5")),
            Goal("run collimate", focus_run, dict(kind="ideal_collimate"), bounds=b2),
            Goal("run focus", focus_run, dict(kind="ideal_focus"), bounds=b2)]
