"""Drawing: what is drawn lies where the optic is."""
import numpy as np

from props.h import *

ASSUMES = ["matplotlib's axes replaced by a recorder; outlines are followed at points on the curve (8 on a circle)"]


class Axes:
    """records what is drawn"""

    def __init__(self):
        self.patches, self.polys, self.meshes, self.points = [], [], [], []

    def add_patch(self, p):
        self.patches.append(p)
        return p

    add_artist = add_patch

    def add_collection3d(self, c, *a, **k):
        self.polys.append(c)
        return c

    add_collection = add_collection3d

    def plot_surface(self, x, y, z, *a, **k):
        self.meshes.append((x, y, z))

    plot_wireframe = plot_surface

    def plot(self, *a, **k):
        self.points.append([x for x in a if not isinstance(x, str)])
        return [object()]

    def scatter(self, *a, **k):
        self.points.append([x for x in a if not isinstance(x, str)])
        return object()

    plot3D, scatter3D = plot, scatter

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("axes." + n)


def outline(env, p):
    """points on a drawn patch's curve, in order"""
    vs = getattr(p, "_segment3d", None)
    codes = getattr(p, "_code3d", None)
    if vs is None:
        env.fail("patches are turned into 3D patches")
        env.stop()
    out = []
    n = 0
    for i, v in enumerate(vs):
        c = int(codes[i]) if codes is not None else 2
        if c == 79:
            continue
        if c == 4:
            n += 1
            if n % 3:
                continue
        elif c == 3:
            raise Unsupported("quadratic splines")
        out.append([v[0], v[1], v[2]])
    return out


def polygons(env, c):
    """vertices of the faces of a drawn collection"""
    if env.symbolic:
        vs = c.verts
    else:
        vs = c._faces if hasattr(c, "_faces") else None
        if vs is None:
            v, vs = c._vec, []
            for s in c._segslices:
                vs.append([v[:3, i] for i in range(s.start, s.stop)])
    return [[[p[0], p[1], p[2]] for p in f] for f in vs]


def same_ring(env, pts, corners, label):
    """pts are the corners in cyclic order, from any start, either way round, perhaps closed"""
    if len(pts) == 5:
        env.eqv(pts[4], pts[0], label + ": closed")
        pts = pts[:4]
    env.true(len(pts) == 4, label + ": four corners")
    if len(pts) != 4:
        env.stop()
    alts = []
    for start in range(4):
        for step in (1, -1):
            cs = []
            for k in range(4):
                for i in range(3):
                    d = pts[k][i] - corners[(start + step * k) % 4][i]
                    cs.append(env.AND(d <= 1e-6, d >= -1e-6))
            alts.append(env.AND(*cs))
    env.true(env.OR(*alts), label)


def rect(env):
    o = env.m.optics3d
    c = env.vec3("c", -POS, POS)
    n, t, s = env.frame("F")
    h, w = env.real("h", 0.01, 100), env.real("w", 0.01, 100)
    ln, lt = env.real("ln", 0.01, 100), env.real("lt", 0.01, 100)
    k = env.p.kind
    if k == "mirror":
        ob = o.Mirror(c, shape="rectangular_flat", normal=ln * n, tangent=lt * t, h=h, w=w)
    elif k == "grating":
        ob = o.Grating(c, ln * n, lt * t, h=h, w=w, G=600)
    else:
        ob = o.Detector(c, ln * n, lt * t, h=h, w=w)
    ax = Axes()
    ob.draw(ax, view=env.pick(["3d", "xyz"]))
    rings = [outline(env, p) for p in ax.patches] + [f for q in ax.polys for f in polygons(env, q)]
    env.true(len(rings) == 1, "one outline is drawn")
    if len(rings) != 1:
        env.stop()
    corners = [c + x * h / 2 * t + y * w / 2 * s for x, y in ((1, -1), (1, 1), (-1, 1), (-1, -1))]
    same_ring(env, rings[0], corners, "the drawn outline is the one that can be hit")


def disc(env):
    o = env.m.optics3d
    c = env.vec3("c", -POS, POS)
    case = env.p.case
    if case == "general":
        s, t, n = env.zframe("F", lim=30, off=0.05)
    else:
        n = env.A([0, 0, 1.0 if case == "up" else -1.0])
        s, t = env.A([1.0, 0, 0]), env.A([0, 1.0, 0])
    D, ln = env.real("D", 0.01, 1000), env.real("ln", 0.01, 100)
    k = env.p.kind
    if k == "mirror":
        ob = o.Mirror(c, normal=ln * n, D=D)
    elif k == "concave":
        ob = o.Mirror(c, shape="circular_concave_spherical", normal=ln * n, D=D, f=env.real("f", 1, 100))
    else:
        ob = o.Lens(c, normal=ln * n, D=D, f=5, type="ideal")
    ax = Axes()
    ob.draw(ax, view=env.pick(["3d", "xyz"]))
    env.true(len(ax.patches) == 1 and not ax.polys and not ax.meshes, "one disc is drawn")
    if len(ax.patches) != 1:
        env.stop()
    pts = outline(env, ax.patches[0])
    env.true(len(pts) >= 8, "the disc is round")
    for p in pts:
        d = env.sub(p, c)
        x = env.dot(d, n)
        env.true(env.AND(x <= 1e-6, x >= -1e-6), "the disc lies in the optic's plane")
        r = env.norm2(d) / (D * D) * 4
        env.true(env.AND(r <= 1 + 1e-6, r >= 1 - 1e-6), "the disc's edge is half the diameter from the centre")


def ball(env):
    o = env.m.optics3d
    c = env.vec3("c", -POS, POS)
    D = env.real("D", 0.01, 1000)
    if env.p.kind == "lens":
        ob = o.Lens(c, shape="spherical", D=D)
    else:
        ob = o.Mirror(c, shape="circular_convex_spherical", D=D)
    ax = Axes()
    ob.draw(ax, view=env.pick(["3d", "xyz"]))
    env.true(len(ax.meshes) == 1, "one surface is drawn")
    if len(ax.meshes) != 1:
        env.stop()
    x, y, z = (np.asarray(m, dtype=object) if env.symbolic else np.asarray(m) for m in ax.meshes[0])
    env.true(x.shape == y.shape == z.shape and x.ndim == 2 and min(x.shape) >= 10, "a mesh")
    n, m = x.shape
    reach = []
    for i in range(n):
        for j in range(m):
            u = [2 * (q[i, j] - c[a]) / D for a, q in enumerate((x, y, z))]
            r = env.norm2(u)
            env.true(env.AND(r <= 1 + 1e-6, r >= 1 - 1e-6), "the surface is half the diameter from the centre")
            reach.append(u)
    for a in range(3):
        env.true(env.OR(*[u[a] >= 0.98 for u in reach]), "the surface reaches all sides")
        env.true(env.OR(*[u[a] <= -0.98 for u in reach]), "the surface reaches all sides")


def flat_views(env):
    o = env.m.optics3d
    c = env.vec3("c", -POS, POS)
    ob = o.Mirror(c, normal=env.A([0, 1, 0]), D=env.real("D", 0.01, 1000))
    v = env.pick(["xy", "tangential", "xz", "sagittal"])
    ax = Axes()
    ob.draw(ax, view=v)
    env.true(len(ax.points) == 1 and len(ax.points[0]) == 2, "one point is drawn")
    got = [p[0] if isinstance(p, (list, tuple)) or getattr(p, "ndim", 0) else p for p in ax.points[0]]
    env.eqv(got, [c[0], c[1] if v in ("xy", "tangential") else c[2]], "at the optic's place in that view")


def patch(env):
    """the general transform: a flat outline, lifted by z, onto any plane, then moved"""
    g = env.m.general_optics
    pts = [[env.real(f"x{i}", -POS, POS), env.real(f"y{i}", -POS, POS)] for i in range(3)]
    z = env.real("z", -POS, POS)
    d = env.vec3("d", -POS, POS)
    case = env.p.case
    if case == "named":
        k = env.choose(3, "axis")
        nm = "xyz"[k]
        n = [1.0 if i == k else 0.0 for i in range(3)]
    else:
        s, t, n = env.zframe("F", lim=30, off=0.05)
        nm = env.real("ln", 0.01, 100) * n
    if env.symbolic:
        P = env.m.space._import("matplotlib.patches", fromlist=("Polygon",)).Polygon
    else:
        from matplotlib.patches import Polygon as P
    p = P(pts)
    g.pathpatch_2d_to_3d(p, z=z, normal=nm)
    vs = p._segment3d
    env.true(len(vs) >= 3, "all corners")
    q = [[v[0], v[1], v[2] - z] for v in vs[:3]]
    for i in range(3):
        env.eq(env.dot(q[i], n), 0, "in the plane of the normal (before the lift along z)", tol=1e-5)
        env.eq(env.norm2(q[i]), pts[i][0] * pts[i][0] + pts[i][1] * pts[i][1], "lengths are kept", tol=1e-3)
        j = (i + 1) % 3
        env.eq(env.dot(q[i], q[j]), pts[i][0] * pts[j][0] + pts[i][1] * pts[j][1], "angles are kept", tol=1e-3)
    before = [[v[0], v[1], v[2]] for v in vs]
    g.pathpatch_translate(p, tuple(d))
    for a, b in zip(before, p._segment3d):
        env.eqv(b, [x + y for x, y in zip(a, d)], "moved by the given amount")


def goals(tier):
    b = "any place, orientation, vector lengths, sizes 0.01..1000"
    out = [Goal("rectangle: " + k, rect, dict(kind=k), bounds=b) for k in ("mirror", "grating", "detector")]
    for k in ("mirror", "concave", "lens"):
        for case in ("general", "up", "down"):
            out.append(Goal(f"disc: {k}, {case}", disc, dict(kind=k, case=case),
                            bounds=b + ("; normal at least 0.05 from the z axis" if case == "general" else "; normal +-z")))
    out += [Goal("ball: " + k, ball, dict(kind=k), bounds=b) for k in ("lens", "mirror")]
    out.append(Goal("flat views", flat_views, bounds="any place"))
    out += [Goal("patch, general", patch, dict(case="general"), bounds="any triangle, lift, shift within 1000, any normal"),
            Goal("patch, named axis", patch, dict(case="named"), bounds="normals x, y, z by name")]
    return out
