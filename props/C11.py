"""Detector: one record (x, y, z, wavelength) per arriving ray, in order; the ray stops."""
from props.h import *


def det(env):
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -POS, POS)
    h, w = env.real("h", 0.1, 100), env.real("w", 0.1, 100)
    D = o.Detector(c, env.real("nl", 0.1, 10) * n, env.real("tl", 0.1, 10) * t, h=h, w=w)
    env.true(len(D.hit_data) == 0, "a new detector has recorded nothing")
    want = []
    for k in range(env.p.rays):
        x = env.real(f"x{k}", 0.01, 200)
        sg = env.pick([1, -1]) if k == 0 else -1
        y, z = env.real(f"y{k}", -200, 200), env.real(f"z{k}", -200, 200)
        b, g = env.real(f"b{k}", -2, 2), env.real(f"g{k}", -2, 2)
        lam = env.real(f"lam{k}", 200, 2000)
        p = c + sg * x * n + (y - b * x) * t + (z - g * x) * s
        far = env.real(f"far{k}", 0.1, 1000)
        ray = o.Ray(p, -sg * n + b * t + g * s, wavelength=lam)
        path = x * env.sqrt(1 + b * b + g * g)
        for q in (y - h / 2, y + h / 2, z - w / 2, z + w / 2, far - path):
            env.require(env.OR(q >= 1e-6, q <= -1e-6))
        ray.run(max_distance=far, optic_list=[D])
        inside = env.AND(y <= h / 2, y >= -h / 2, z <= w / 2, z >= -w / 2, path <= far)
        before = len(want)
        if len(D.hit_data) > before:
            env.true(inside, "only rays that reach the sensitive area are recorded")
            want.append((c + y * t + z * s, lam))
            env.true(ray.blocked, "a detected ray stops")
            env.eqv(ray.position, want[-1][0], "it stops on the detector", tol=1e-5)
            env.true(len(ray.point_history) == 2, "no flight after detection")
        else:
            env.true(env.NOT(inside), "every ray that reaches the sensitive area is recorded")
            env.true(not ray.blocked, "a ray that misses is not stopped")
    env.true(len(D.hit_data) == len(want), "one record per detected ray, in order")
    for rec, (pt, lam) in zip(D.hit_data, want):
        env.observe("rec", rec)
        env.true(len(rec) == 4, "a record has four entries")
        env.eqv(rec[:3], pt, "record: crossing point", tol=1e-5)
        env.eq(rec[3], lam, "record: wavelength")


def after(env):
    """a ray that has met something else (and may have been run before) is recorded where it arrives"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    x, y, z = env.real("x", 1, 50), env.real("y", -20, 20), env.real("z", -20, 20)
    b, g = env.real("b", -0.5, 0.5), env.real("g", -0.5, 0.5)
    back, lam = env.real("back", 1, 50), env.real("lam", 200, 2000)
    if env.p.what == "mirror":
        op = o.Mirror(c, shape="rectangular_flat", normal=-n, tangent=t, h=400, w=400)
        sg = -1
    else:
        op = o.Lens(c, normal=n, D=400, f=50, type="ideal_collimate")
        sg = 1
    D = o.Detector(c + sg * back * n, n, t, h=400, w=400)
    p = c - x * n + (y - b * x) * t + (z - g * x) * s
    if sg < 0:
        env.require(env.OR(back - x >= 1e-6))            # the ray starts between mirror and detector
    ray = o.Ray(p, n + b * t + g * s, wavelength=lam)
    scene = [op, D] if env.boolean("order") else [D, op]
    if env.boolean("in two runs"):
        ray.run(max_distance=500, optic_list=scene, max_interactions=1)
        ray.run(max_distance=500, optic_list=scene)
    else:
        ray.run(max_distance=500, optic_list=scene)
    env.true(len(D.hit_data) == 1, "one record")
    if len(D.hit_data) == 1:
        k = back if sg < 0 else 0
        env.eqv(D.hit_data[0][:3], c + sg * back * n + (y + b * k) * t + (z + g * k) * s, "record: crossing point", tol=1e-5)
        env.eq(D.hit_data[0][3], lam, "record: wavelength")
        env.eqv(ray.position, D.hit_data[0][:3], "the ray stops there", tol=1e-5)
    D2 = o.Detector(c + sg * back * n, n, t, h=1, w=1)
    env.true(len(D2.hit_data) == 0, "a new detector has recorded nothing")


def drawing_aid(env):
    """faerie-fire rays are no light: they stop and leave no record"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    x, b, g = env.real("x", 1, 50), env.real("b", -0.5, 0.5), env.real("g", -0.5, 0.5)
    D = o.Detector(c, n, t, h=200, w=200)
    sg = env.pick([1, -1])
    ray = o.Ray(c - x * sg * n, sg * n + b * t + g * s, type="faerie_fire")
    ray.run(max_distance=500, optic_list=[D])
    env.true(len(D.hit_data) == 0, "faerie fire is not recorded")
    env.true(ray.blocked, "and stops")
    env.eqv(ray.position, c + x * b * t + x * g * s, "on the detector", tol=1e-5)


def again(env):
    """the same light again is recorded again, and light of another colour at the same place too"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    x, b, g = env.real("x", 1, 50), env.real("b", -0.5, 0.5), env.real("g", -0.5, 0.5)
    lam = [env.real("lam", 200, 2000)]
    lam += [lam[0], env.real("lam2", 200, 2000)]
    D = o.Detector(c, n, t, h=200, w=200)
    for L in lam:
        o.Ray(c - x * n, n + b * t + g * s, wavelength=L).run(max_distance=500, optic_list=[D])
    env.true(len(D.hit_data) == 3, "a record for every ray")
    for rec, L in zip(D.hit_data, lam):
        env.eqv(rec[:3], c + x * b * t + x * g * s, "record: crossing point", tol=1e-5)
        env.eq(rec[3], L, "record: wavelength, in order of arrival")


def many(env):
    """a long series of rays, some of them missing: every arriving one recorded, in order"""
    o = env.m.optics3d
    n, t, s = env.A([1, 0, 0]), env.A([0, 1, 0]), env.A([0, 0, 1])
    c, x = env.vec3("c", -100, 100), env.real("x", 1, 50)
    a, b = env.real("a", -0.01, 0.01), env.real("b", -0.01, 0.01)
    D, want = o.Detector(c, n, t, h=20, w=20), []
    for k in range(env.p.n):
        y, z, L = (k * 7) % 19 - 9, (k * 5) % 19 - 9, 300 + 2 * k + a
        if k % 11 == 5:
            y = y + 30                         # beside the detector
        sg = 1 if k % 3 else -1
        r = o.Ray(c + sg * x * n + (y + a) * t + (z + b) * s, -sg * n, wavelength=L)
        r.run(max_distance=100, optic_list=[D])
        if k % 11 != 5:
            want.append((c + (y + a) * t + (z + b) * s, L))
        env.true(len(D.hit_data) == len(want), "one more record for every arriving ray, none for the others")
        env.true(bool(r.blocked) == (k % 11 != 5), "arriving rays stop")
    for rec, (q, L) in zip(D.hit_data, want):
        env.eqv(rec[:3], q, "record: crossing point", tol=1e-5)
        env.eq(rec[3], L, "record: wavelength, in order of arrival")


def separate(env):
    """two detectors keep separate logs"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    x1, x2 = env.real("x1", 0.01, 50), env.real("x2", 0.01, 50)
    D1 = o.Detector(c + x1 * n, n, t, h=10, w=10)
    D2 = o.Detector(c - x2 * n, n, t, h=10, w=10)
    lam = [env.real(f"lam{k}", 200, 2000) for k in range(2)]
    scene = [D1, D2] if env.boolean("order") else [D2, D1]
    for L, sg in zip(lam, (1, -1)):
        o.Ray(c, sg * n, wavelength=L).run(max_distance=100, optic_list=scene)
    for D, L, pt in ((D1, lam[0], c + x1 * n), (D2, lam[1], c - x2 * n)):
        env.true(len(D.hit_data) == 1, "one record each")
        env.eqv(D.hit_data[0][:3], pt, "own record: point", tol=1e-5)
        env.eq(D.hit_data[0][3], L, "own record: wavelength")


def goals(tier):
    b = ("any orientation, |c|<=1000, sides 0.1..100, from 0.01..200 before or behind the detector, slopes up to 2, "
         "crossings at least 1e-6 from the edge")
    n = 2 if tier == "quick" else 3
    return [Goal(f"{k} rays", det, dict(rays=k), bounds=b, weight=k, tol=1e-5) for k in range(1, n + 1)] + \
        [Goal(f"after a {w}", after, dict(what=w), bounds="|c|<=100, distances 1..50, slopes up to 0.5", tol=1e-5)
         for w in ("mirror", "lens")] + \
        [Goal("faerie fire", drawing_aid, bounds="|c|<=100, distances 1..50, slopes up to 0.5"),
         Goal("the same light again", again, bounds="|c|<=100, start 1..50 off, slopes up to 0.5"),
         Goal("a long series", many, dict(n=300 if tier == "quick" else 1500),
              bounds="300 (thorough 1500) rays on a fixed pattern, any place within 100, shifted by up to 0.01"),
         Goal("two detectors", separate, bounds="|c|<=100, 0.01..50 apart")]
