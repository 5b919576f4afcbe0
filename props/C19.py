"""Ray bundles: the imaging bundle and the faerie fire."""
import math

import numpy as np

from props.h import *

ASSUMES = ["bundle resolutions up to the stated ones; the random numbers behind faerie fire are any reals "
           "(numpy.random.normal replaced by free inputs)"]


def bundle(env):
    g = env.m.general_optics
    nx, nz, na = (env.pick(list(env.p.res)) for _ in range(3))
    y = env.real("y", -POS, POS)
    size = env.real("size", 0.01, 100)
    ang = env.angle("angle", 0.001, 1.5)
    pd = env.real("d", 0.01, 100)
    O, D, W = g.image_rays(y, size=size, angle=ang, x_res=nx, z_res=nz, angle_res=na, pattern="circle", pattern_d=pd)
    env.true(len(O) == len(D) == len(W) == nx * nz * na, "one origin, direction and wavelength per grid point and angle")
    grid = lambda n: [0] if n == 1 else [size * (2 * i - (n - 1)) / (2 * (n - 1)) for i in range(n)]
    fans = [0] if na == 1 else [ang * (2 * i - (na - 1)) / (na - 1) for i in range(na)]
    k = 0
    cs = [(1, 0) if na == 1 or 2 * i == na - 1 else env.cossin(fans[i]) for i in range(na)]
    for x in grid(nx):
        for z in grid(nz):
            inside = None
            for c, s in cs:
                env.eqv(O[k], [x, y, z], "origins on an even grid over the square in the plane y = y_center")
                env.eqv(D[k], [0, c, s], "unit directions fanned evenly in the yz plane from -angle to angle")
                if inside is None:
                    r2, q = x * x + z * z, pd * pd / 4
                    env.require(env.OR(r2 - q >= 1e-6, q - r2 >= 1e-6))
                    inside = env.decide(r2 <= q)
                env.eq(W[k], 680 if inside else 450, "red inside the pattern's circle, blue outside")
                k += 1
    if nx * nz * na:
        env.observe("O", O[-1])
        env.observe("D", D[0])


def large(env):
    """many points and angles"""
    g = env.m.general_optics
    nx, nz, na = env.p.res
    y, step = env.real("y", -POS, POS), env.angle("step", 0.001, 0.1)
    ang = (na - 1) * step
    k = env.real("k", 0.5, 2)
    size, pd = 10 * k, 5.3 * k
    O, D, W = g.image_rays(y, size=size, angle=ang, x_res=nx, z_res=nz, angle_res=na, pattern="circle", pattern_d=pd)
    env.true(len(O) == len(D) == len(W) == nx * nz * na, "one origin, direction and wavelength per grid point and angle")
    cs = [env.cossin((2 * i - (na - 1)) * step) for i in range(na)]
    grid = lambda n: [10 * (2 * i - (n - 1)) / (2 * (n - 1)) for i in range(n)]
    i = 0
    for x in grid(nx):
        for z in grid(nz):
            for c, s in cs:
                env.eqv(O[i], [k * x, y, k * z], "origins on an even grid over the square in the plane y = y_center")
                env.eqv(D[i], [0, c, s], "unit directions fanned evenly in the yz plane from -angle to angle")
                env.eq(W[i], 680 if x * x + z * z < 5.3 ** 2 / 4 else 450, "red inside the pattern's circle, blue outside")
                i += 1


def defaults(env):
    """without further arguments: 11 by 11 points over 10 mm, three angles to 0.2 rad, a red circle of 5 mm"""
    g = env.m.general_optics
    y = env.real("y", -POS, POS)
    kw = dict(size=10, angle=0.2, x_res=11, z_res=11, angle_res=3, pattern="circle", pattern_d=5)
    leave = env.pick(sorted(kw))
    del kw[leave]
    small = {k: v for k, v in dict(x_res=2, z_res=2, angle_res=2).items() if k != leave}
    kw.update(small)
    full = dict(size=10, angle=0.2, x_res=11, z_res=11, angle_res=3, pattern="circle", pattern_d=5)
    A, B = g.image_rays(y, **kw), g.image_rays(y, **dict(full, **small))
    for a, b, what in zip(A, B, ("origins", "directions", "wavelengths")):
        env.true(len(a) == len(b), "default number of rays")
        for u, v in zip(a, b):
            env.eqv(u, v, what) if what != "wavelengths" else env.eq(u, v, what)


def reject(env):
    g = env.m.general_optics
    kw = dict(x_res=1, z_res=1, angle_res=1)
    kw[env.pick(["x_res", "z_res", "angle_res"])] = env.pick([0, -1, -5])
    try:
        g.image_rays(env.real("y", -POS, POS), size=env.real("size", 0.01, 100), **kw)
    except ValueError:
        return
    env.fail("a resolution below 1 is rejected")


class Rng:
    """numpy.random with free inputs instead of random numbers"""

    def __init__(self, env):
        self.env, self.n, self.used, self.zeros = env, 0, [], 0

    def one(self, *a, **k):
        self.n += 1
        v = self.env.real(f"g{self.n}", -5, 5)
        self.used.append(v)
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self.one()
        return self.env.A([loc + scale * self.one() for _ in range(int(np.prod(size)))])

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size or None)

    def default_rng(self, *a):
        return self

    def __getattr__(self, name):
        raise Unsupported("numpy.random." + name)


class patched:
    def __init__(self, env, rng):
        self.np, self.rng = env.m.np, rng
        self.names = ("normal", "standard_normal", "randn", "default_rng")

    def __enter__(self):
        if hasattr(self.np, "_real"):
            self.old = self.np.__dict__.get("random")
            self.np.__dict__["random"] = self.rng
        else:
            self.old = {k: getattr(np.random, k) for k in self.names}
            for k in self.names:
                setattr(np.random, k, getattr(self.rng, k))

    def __exit__(self, *a):
        if hasattr(self.np, "_real"):
            if self.old is None:
                self.np.__dict__.pop("random")
            else:
                self.np.__dict__["random"] = self.old
        else:
            for k, v in self.old.items():
                setattr(np.random, k, v)


def fire(env):
    """N rays on a sphere, each aimed at its centre"""
    o = env.m.optics3d
    c = env.vec3("c", -POS, POS)
    keep = list(c)
    R = env.real("R", 0.01, 1000)
    N = env.p.n
    old = [o.Ray(env.A([0, 0, 0]), env.A([0, 0, 1])) for _ in range(env.p.old)]
    lst = list(old)
    rng = Rng(env)
    with patched(env, rng):
        # every draw is well away from the zero vector
        real_one = rng.one

        def one(*a, **k):
            if env.p.get("zero") and rng.zeros < 3:
                rng.zeros += 1
                return 0.0
            v = real_one(*a, **k)
            if len(rng.used) % 3 == 0:
                x, y, z = rng.used[-3:]
                env.require(x * x + y * y + z * z >= 1e-4)
            return v
        rng.one = one
        out = o.add_faerie_fire_rays(lst, R, c, N=N)
    env.true(out is lst, "the given list is extended and returned")
    env.true(len(out) == len(old) + N, "N rays are added")
    env.true(all(a is b for a, b in zip(out, old)), "the rays already there stay first")
    for i, r in enumerate(out[len(old):]):
        env.observe(f"pos{i}", r.position)
        env.eqv(r.position, c - R * r.direction, "starts on the sphere, aimed at its centre", tol=1e-5)
        env.eq(env.norm2(r.direction), 1, "unit direction")
        g = rng.used[3 * i:3 * i + 3]
        env.true(len(g) == 3, "directions are drawn at random")
        env.eq(r.wavelength, 532, "green")
        env.true(r.print_trajectory is False, "not printing")
        k2 = env.norm2(g)
        env.eq(env.dot(g, r.direction) * env.dot(g, r.direction), k2, "the drawn direction decides where")
        env.true(r.type == "faerie_fire", "marked as faerie fire")
        env.eqv(r.point_history[0], r.position, "its history starts there")
    env.eqv(c, keep, "the centre is unchanged")


def goals(tier):
    b = "size and pattern 0.01..100, angle 0.001..1.5 rad, |y| <= 1000"
    q = tier == "quick"
    res = (1, 2, 3) if q else (1, 2, 3, 4, 5)
    out = [Goal("imaging bundle", bundle, dict(res=res), bounds=b + f", resolutions {res}", weight=3),
           Goal("large bundle", large, dict(res=(13, 12, 8) if q else (21, 24, 12)),
                bounds="13 by 12 points, 8 angles (thorough 21 by 24, 12), |y| <= 1000, angle 0.007..0.7 (0.011..1.1), size 5..20, circle in proportion"),
           Goal("default bundle", defaults, bounds="|y| <= 1000, one argument left out at a time"),
           Goal("bad resolutions", reject, bounds="resolutions 0, -1, -5"),
           Goal("faerie fire", fire, dict(n=1, old=0), bounds="any centre, radius 0.01..1000, one ray"),
           Goal("faerie fire, a zero draw", fire, dict(n=1, old=0, zero=True), bounds="first draw exactly zero"),
           Goal("faerie fire, appended", fire, dict(n=2 if q else 4, old=2), bounds="any centre, radius; 2 (thorough 4) rays")]
    k = 40 if q else 120
    out.append(Goal("faerie fire, many", fire, dict(n=k, old=3), bounds=f"any centre, radius 0.01..1000, {k} rays"))
    return out
