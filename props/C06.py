"""Ideal lens: the thin-lens equation holds exactly, off axis too."""
from props.h import *

ASSUMES = ["the ray meets the lens plane at |cos| >= 1e-3 (the code passes grazing rays, |cos| <= 1e-8, straight through)"]


def setup(env, amin=1e-3):
    n, t, s = fr = env.frame("F")
    a, b, g = env.unit3("d")
    env.require(env.OR(a >= amin, a <= -amin))
    c = env.vec3("c", -POS, POS)
    y, z = env.real("y", -200, 200), env.real("z", -200, 200)
    p = c + y * t + z * s
    d = a * n + b * t + g * s
    K = env.real("n.len", 0.01, 100)
    return fr, (a, b, g), c, (y, z), p, d, K


def one(env):
    fr, (a, b, g), c, (y, z), p, d, K = setup(env)
    n, t, s = fr
    fl = env.real("f", *env.p.get("f", (1, 1000)))
    if env.p.sign < 0:
        fl = -fl
    o = env.m.optics3d
    L = o.Lens(c, K * n, type="ideal", D=1000, f=fl)
    ray = o.Ray(p, d, type=env.pick(["normal", "probe"]))
    L.do_intersect(ray, p, n, True)
    u = ray.direction
    env.observe("d", u)
    fwd = env.decide(a > 0)
    av = a if fwd else -a
    un = env.dot(u, n) * (1 if fwd else -1)
    env.eq(env.norm2(u), 1, "unit length")
    env.lt(0, un, "goes on through the lens")
    env.eq(av * env.dot(u, t), un * (b - y / fl * av), "transverse slope changes by -y/f", tol=1e-5)
    env.eq(av * env.dot(u, s), un * (g - z / fl * av), "transverse slope changes by -z/f", tol=1e-5)
    env.eqv(ray.position, p, "position unchanged")


def near(env):
    """light almost along the axis: its slope still counts"""
    n, t, s = env.frame("F")
    c = env.vec3("c", -POS, POS)
    y, z = env.real("y", -10, 10), env.real("z", -10, 10)
    e = env.real("slope", 1e-6, 0.02)
    k, l = env.circle("azimuth")
    fl = env.real("f", 10, 1000) * env.pick([1, -1])
    back = env.pick([1, -1])
    L = env.m.optics3d.Lens(c, n, type="ideal", D=1000, f=fl)
    p = c + y * t + z * s
    ray = env.m.optics3d.Ray(p, back * n + e * k * t + e * l * s)
    L.do_intersect(ray, p, n, True)
    u = ray.direction
    un = env.dot(u, n) * back
    env.lt(0, un, "goes on through the lens")
    env.eq(env.dot(u, t), un * (e * k - y / fl), "transverse slope changes by -y/f", tol=2e-7)
    env.eq(env.dot(u, s), un * (e * l - z / fl), "transverse slope changes by -z/f", tol=2e-7)


def image(env):
    """object point at distance so, through the real intersection and run loop: every ray
    goes through the conjugate point 1/so + 1/si = 1/f, magnified by -si/so"""
    n, t, s = env.frame("F")
    c = env.vec3("c", -POS, POS)
    fl = env.real("f", 1, 100)
    so = env.real("so", 1, 400)
    env.require(env.OR(so >= fl + 1, so <= fl - 1))
    y, z = env.real("y", -40, 40), env.real("z", -40, 40)
    m, g = env.real("m", -2, 2), env.real("g", -2, 2)      # the ray's slopes
    aim = c + y * t + z * s
    d = n + m * t + g * s
    h, k = y - so * m, z - so * g                           # where the object point is
    env.require(env.AND(h <= 50, h >= -50, k <= 50, k >= -50))
    sg = env.pick([1, -1])
    L = env.m.optics3d.Lens(c, sg * n, type="ideal", D=1000, f=fl)
    ray = env.m.optics3d.Ray(aim - so * d, d)
    ray.run(max_distance=10000, optic_list=[L], max_interactions=1)
    env.eqv(ray.position, aim, "meets the lens where aimed", tol=1e-4)
    u = ray.direction
    env.observe("d", u)
    si = so * fl / (so - fl)
    # the image is at si and at -(h, k) si / so; (image - aim) is parallel to u
    un, ut, us = env.dot(u, n), env.dot(u, t), env.dot(u, s)
    env.eq(si * ut, (-h * si / so - y) * un, "passes through the conjugate point (meridional)", tol=2e-2)
    env.eq(si * us, (-k * si / so - z) * un, "passes through the conjugate point (sagittal)", tol=2e-2)


def goals(tier):
    b = "any orientation, |c|<=1000, crossing within 200 of the centre, 1<=|f|<=1000, |cos|>=1e-3"
    return [Goal("converging", one, dict(sign=1), bounds=b),
            Goal("diverging", one, dict(sign=-1), bounds=b),
            Goal("strong lenses", one, dict(sign=1, f=(0.05, 1)), bounds=b.replace("1<=|f|<=1000", "0.05<=f<=1")),
            Goal("strong diverging lenses", one, dict(sign=-1, f=(0.05, 1)), bounds=b.replace("1<=|f|<=1000", "0.05<=-f<=1")),
            Goal("weak lenses", one, dict(sign=1, f=(1000, 1e6)), bounds=b.replace("1<=|f|<=1000", "1000<=f<=1e6")),
            Goal("weak diverging lenses", one, dict(sign=-1, f=(1000, 1e6)), bounds=b.replace("1<=|f|<=1000", "1000<=-f<=1e6")),
            Goal("near the axis", near, bounds="any orientation, slopes 1e-6..0.02 to the axis, crossing within 10 of the "
                 "centre, 10<=|f|<=1000, to 2e-7"),
            Goal("conjugate points", image, bounds="1<=f<=100, 1<=so<=400, |so-f|>=1, object point within 50 of the axis, crossing within 40, "
                 "slopes up to 2")]
