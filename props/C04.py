"""Specular reflection: angle of incidence equals angle of reflection."""
from props.h import *


def fr_dir(env):
    fr = env.frame("F")
    a, b, g = env.unit3("d")
    d = a * fr[0] + b * fr[1] + g * fr[2]
    return fr, (a, b, g), d


def want(fr, v):
    a, b, g = v
    return -a * fr[0] + b * fr[1] + g * fr[2]


def direct(env):
    """Ray.reflect with an arbitrary (unnormalised) normal of either orientation"""
    fr, v, d = fr_dir(env)
    K = env.real("n.len", 0.001, 1000)
    sg = env.pick([1, -1])
    p = env.vec3("p", -POS, POS)
    ray = env.m.optics3d.Ray(p, env.real("d.len", 0.01, 100) * d)
    n = sg * K * fr[0]
    ray.reflect(reflect_type="specular_flat", normal=n, intersection_pt=p)
    env.observe("d", ray.direction)
    env.eqv(ray.direction, want(fr, v), "mirrored about the normal")
    env.eq(env.norm2(ray.direction), 1, "unit length")
    env.eqv(ray.position, p, "position unchanged")


def optic(env):
    """what the optics do with a ray standing on their surface"""
    o = env.m.optics3d
    fr, v, d = fr_dir(env)
    n, t, s = fr
    c = env.vec3("c", -POS, POS)
    y, z = env.real("y", -500, 500), env.real("z", -500, 500)
    p = c + y * t + z * s
    ray = o.Ray(p, d)
    K = env.real("n.len", 0.01, 100)
    kind = env.p.kind
    if kind == "round":
        op, N = o.Mirror(c, shape="circular_flat", normal=K * n, D=1000), n
    elif kind == "rectangular":
        op, N = o.Mirror(c, shape="rectangular_flat", normal=K * n, tangent=t, h=1000, w=1000), n
    elif kind == "concave":
        op, N = o.Mirror(c, shape="circular_concave_spherical", normal=K * n, f=500, D=1000), n
    elif kind == "convex":
        op, N = o.Mirror(c, shape="circular_convex_spherical", D=1000), n
    elif kind == "dmd":
        # the micromirror normal rules, not the surface's
        u = env.unit3("surf")
        N = u[0] * n + u[1] * t + u[2] * s
        W = env.circle("w")
        tang = env.cross(N, n)
        ln = env.dot(tang, tang)
        env.require(ln >= 0.01)
        op = o.Mirror(c, shape="rectangular_flat", normal=N, tangent=env.A(tang), h=1000, w=1000,
                      type="dmd", dmd_normal=K * n)
    elif kind == "compound":
        tr = env.m.general_optics.BinaryTree("union")
        tr.insertLeft(env.m.shapes.Sphere(c, R=1))
        tr.insertRight(env.m.shapes.Sphere(c, R=2))
        op, N = o.Compound(tr, surface_behavior="reflect"), K * n
    elif kind == "grating order 0":
        op, N = o.Grating(c, K * n, t, h=1000, w=1000, G=600), n
        ray.order = 0
    op.do_intersect(ray, p, N, env.pick([True, False]))
    env.observe("d", ray.direction)
    env.eqv(ray.direction, want(fr, v), "mirrored about the normal")
    env.eqv(ray.position, p, "position unchanged")
    env.true(not ray.blocked, "a mirror does not stop the ray")


def run(env):
    """through Ray.run: the reflected ray leaves the crossing point by the law"""
    o = env.m.optics3d
    fr, v, d = fr_dir(env)
    n, t, s = fr
    c = env.vec3("c", -POS, POS)
    x, y, z = (env.real(k, -200, 200) for k in "xyz")
    p = c + x * n + y * t + z * s
    if env.p.kind == "dmd":
        m = env.circle("tilt")
        mm = m[0] * n + m[1] * s
        op = o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=100, w=100, type="dmd", dmd_normal=mm)
    else:
        mm = n
        op = o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=100, w=100)
    far = env.real("far", 1, 5000)
    ray = o.Ray(p, d)
    ray.run(max_distance=far, optic_list=[op])
    pts = ray.point_history
    env.true(len(pts) in (2, 3), "one or two segments")
    env.observe("last", pts[-1])
    if len(pts) == 3:
        q = env.sub(pts[1], c)
        env.eq(env.dot(q, n), 0, "turned on the mirror plane")
        k = env.dot(env.sub(pts[1], p), d)
        env.eqv(pts[1], p + k * d, "first segment straight")
        a, b, g = v
        if env.p.kind == "dmd":
            dm = a * m[0] + g * m[1]
            out = d - 2 * dm * mm
        else:
            out = want(fr, v)
        env.eqv(ray.direction, out, "mirrored about the normal")
        rest = far - k
        env.eqv(env.sub(pts[2], pts[1]), env.scale(rest, out), "second segment along the mirrored direction")
    else:
        env.eqv(pts[1], p + far * d, "missing rays go straight on")


def goals(tier):
    b = "any orientation, |coordinates|<=1000, normal length 0.001..1000"
    return ([Goal("reflect", direct, bounds=b)] +
            [Goal("optic " + k, optic, dict(kind=k), bounds=b) for k in
             ("round", "rectangular", "concave", "convex", "dmd", "compound", "grating order 0")] +
            [Goal("run " + k, run, dict(kind=k), bounds=b + ", mirror 100 x 100, start within 200 of it, path 1..5000",
                  weight=3) for k in ("plain", "dmd")])
