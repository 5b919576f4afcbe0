"""Ray / CSG solid: the reported hit is the first place where the ray enters or leaves the solid."""
from props.h import *

ASSUMES = ["no tangential crossings, crossings at least 1e-4 apart and from the ray's start, rays not parallel to a "
           "cylinder's axis"]
OPS = ("union", "intersect", "difference")


def sphere(env, k, p, d, e, f, vmin=0, on=False):
    """sphere crossing the ray's line at u - w, u + w (or passing it by); with on, the ray starts on it"""
    if on:
        v, w = env.real(f"v{k}", vmin, 500), env.real(f"w{k}", 0.05, 500)
        env.require(v <= 19 * w)              # not near grazing, where rounding takes it farther off
        off = env.real("off", -HERE, HERE)
        ph = env.circle(f"ph{k}")
        sg = env.pick([1, -1])                # going in or out there
        c = p + (sg * w + off) * d + v * ph[0] * e + v * ph[1] * f
        R = env.sqrt(v * v + w * w)
        return env.m.shapes.Sphere(c, R=R), ((off, 2 * w + off) if sg > 0 else (-2 * w + off, off)), c, R, sg
    u = env.real(f"u{k}", -500, 500)
    v = env.real(f"v{k}", vmin, 500)
    ph = env.circle(f"ph{k}")
    c = p + u * d + v * ph[0] * e + v * ph[1] * f
    if env.boolean(f"meets{k}"):
        w = env.real(f"w{k}", 1e-3, 500)
        R = env.sqrt(v * v + w * w)
        return env.m.shapes.Sphere(c, R=R), (u - w, u + w), c, R, None
    R = env.real(f"R{k}", 1e-3, 500)
    env.require(v - R >= 1e-3)
    return env.m.shapes.Sphere(c, R=R), None, c, R, None


def cylinder(env, k, p, rho, g, uu, ww, kk):
    """cylinder about an axis kk: direction d = rho uu + g kk"""
    m = env.real(f"u{k}", -500, 500)
    y = env.real(f"v{k}", -500, 500)
    z = env.real(f"z{k}", -500, 500)
    c = p + m * rho * uu + y * ww + z * kk
    if env.boolean(f"meets{k}"):
        w = env.real(f"w{k}", 1e-3, 500)
        R = env.sqrt(y * y + w * w * rho * rho)
        return env.m.shapes.InfiniteCylinder(c, kk, R=R), (m - w, m + w), c, R, kk
    R = env.real(f"R{k}", 1e-3, 500)
    env.require(env.OR(y - R >= 1e-3, -y - R >= 1e-3))
    return env.m.shapes.InfiniteCylinder(c, kk, R=R), None, c, R, kk


def inside(env, cr, s):
    return False if cr is None else env.AND(s > cr[0], s < cr[1])


def member(env, op, a, b):
    if op == "union":
        return env.OR(a, b)
    if op == "intersect":
        return env.AND(a, b)
    return env.AND(a, env.NOT(b))


def same(env, a, b):
    return env.OR(env.AND(a, b), env.AND(env.NOT(a), env.NOT(b)))


def hit(env):
    gm, o = env.m.general_optics, env.m.optics3d
    p = env.vec3("p", -100, 100)
    kinds = env.p.kinds
    if "cyl" in kinds:
        fr = env.zframe("K", off=1e-4) if env.p.get("axis", "z") == "any" else \
            [env.A([1, 0, 0]), env.A([0, 1, 0]), env.A([0, 0, 1])]
        ca, sa = env.circle("h")
        rho, g = env.circle("t")
        env.require(rho >= 1e-2)
        uu, ww, kk = ca * fr[0] + sa * fr[1], ca * fr[1] - sa * fr[0], fr[2]
        d, e, f = rho * uu + g * kk, ww, g * uu - rho * kk
    else:
        d, e, f = env.frame("F")
    on, prims = env.p.get("on"), []
    for k, kind in enumerate(kinds):
        prims.append(sphere(env, k, p, d, e, f, on=on and k == 0) if kind == "sphere" else
                     cylinder(env, k, p, rho, g, uu, ww, kk))
    eps = 0
    if on:
        prims[0], sg = prims[0][:4] + (None,), prims[0][4]
        eps = 1e-5                                     # just past the surface it starts on
    ts = [t for i, pr in enumerate(prims) if pr[1] for j, t in enumerate(pr[1])
          if not (on and i == 0 and j == (0 if sg > 0 else 1))]
    for i, t in enumerate(ts):
        env.require(env.OR(t >= 1e-4, t <= -1e-4))
        for t2 in ts[:i]:
            env.require(env.OR(t - t2 >= 1e-4, t2 - t >= 1e-4))
    spec = env.p.spec
    leaf = iter(prims)

    def build(sp):
        if sp is None:
            pr = next(leaf)
            return pr[0], (lambda s: inside(env, pr[1], s))
        t = gm.BinaryTree(sp[0])
        (l, lm), (r, rm) = build(sp[1]), build(sp[2])
        for node, ins, get in ((l, t.insertLeft, t.getLeftChild), (r, t.insertRight, t.getRightChild)):
            if isinstance(node, gm.BinaryTree):
                ins(node.getRootVal())
                get().leftChild, get().rightChild = node.leftChild, node.rightChild
            else:
                ins(node)
        return t, (lambda s: member(env, sp[0], lm(s), rm(s)))
    tree, memb = build(spec)
    if spec is None:                                   # a solid of one primitive
        tree = gm.BinaryTree(tree)
    op = o.Compound(tree)
    L = env.real("d.len", 0.1, 10)
    ray = o.Ray(p, L * d)
    got, pt, nrm, flag = op.test_intersect(ray)
    env.observe("hit", bool(got))
    m0 = memb(eps)
    if env.p.get("outside"):
        env.require(env.NOT(m0))
    s = env.real("s", eps, 1500)
    if got:
        env.observe("pt", pt)
        ts_ = env.dot(env.sub(pt, p), d)
        env.eqv(pt, p + ts_ * d, "the hit lies on the ray's line", tol=1e-4)
        env.lt(0, ts_, "the hit lies ahead")
        # nothing changes before the hit ...
        env.true(env.OR(s >= ts_ - 1e-5, same(env, memb(s), m0)),
                 "nothing is entered or left before the hit")
        # ... and the solid is entered or left there
        env.true(env.NOT(same(env, memb(ts_ + 1e-5), m0)), "the solid is entered or left at the hit")
        alts = []
        for sh, cr, c, R, kk in prims:
            if cr is None:
                continue
            for t in cr:
                q = env.sub(c, pt)
                if kk is not None:
                    q = env.sub(q, env.scale(env.dot(q, kk), kk))
                df = env.sub(env.scale(R, nrm), q)
                e2 = t - ts_
                alts.append(env.AND(e2 <= 1e-5, e2 >= -1e-5, env.norm2(df) <= 1e-6 * R * R))
        env.true(env.OR(*alts), "the normal is that of the surface crossed there")
    else:
        near = [env.AND(s - t <= 1e-5, t - s <= 1e-5) for t in ts]
        env.true(env.OR(same(env, memb(s), m0), *near), "a miss means nothing is entered or left ahead")


def twice(env):
    """a part combined with itself, or with its like: united or intersected it stays what it is, less itself it is nothing"""
    gm, o = env.m.general_optics, env.m.optics3d
    p = env.vec3("p", -100, 100)
    if env.p.kind == "cyl":
        ca, sa = env.circle("h")
        rho, g = env.circle("t")
        env.require(rho >= 1e-2)
        x, y, kk = env.A([1, 0, 0]), env.A([0, 1, 0]), env.A([0, 0, 1])
        uu, ww = ca * x + sa * y, ca * y - sa * x
        d = rho * uu + g * kk
        sh, cr, c, R, _ = cylinder(env, 0, p, rho, g, uu, ww, kk)
        like = lambda: env.m.shapes.InfiniteCylinder(c, kk, R=R)
    else:
        d, e, f = env.frame("F")
        sh, cr, c, R, _ = sphere(env, 0, p, d, e, f)
        like = lambda: env.m.shapes.Sphere(c, R=R)
    for t in cr or ():
        env.require(env.OR(t >= 1e-4, t <= -1e-4))
    tree = gm.BinaryTree(env.p.op)
    tree.insertLeft(sh)
    tree.insertRight(sh if env.boolean("itself") else like())
    ray = o.Ray(p, d)
    got, pt, nrm, flag = o.Compound(tree).test_intersect(ray)
    first = None
    for t in cr or ():
        if first is None and env.decide(t > 0):
            first = t
    if env.p.op == "difference" or first is None:
        env.true(not got, "nothing there to be met")
    else:
        env.true(bool(got), "met")
        if got:
            env.eqv(pt, p + first * d, "where the part is", tol=1e-4)
            q = env.sub(c, pt)
            if env.p.kind == "cyl":
                q = env.sub(q, env.scale(env.dot(q, kk), kk))
            env.eqv(env.scale(R, nrm), q, "with its normal", tol=1e-3)


def goals(tier):
    b = "any centres and radii with crossings within 1500 of the start, |start|<=100, any direction, "
    out = []
    one = lambda a: (a, None, None)
    for a in OPS:
        out.append(Goal(f"{a} sphere sphere", hit, dict(kinds=("sphere", "sphere"), spec=one(a)), bounds=b, weight=2))
        out.append(Goal(f"{a} sphere cylinder", hit, dict(kinds=("sphere", "cyl"), spec=one(a)),
                        bounds=b + "cylinder along z", weight=2))
    out.append(Goal("difference cylinder sphere", hit, dict(kinds=("cyl", "sphere"), spec=one("difference")),
                    bounds=b + "cylinder along z", weight=2))
    out.append(Goal("union of three, from outside", hit,
                    dict(kinds=("sphere",) * 3, spec=("union", None, one("union")), outside=True), bounds=b, weight=3))
    out.append(Goal("nested solids", hit,
                    dict(kinds=("sphere",) * 3, spec=("intersect", None, one("union")), outside=True), bounds=b, weight=1))
    for k in ("sphere", "cyl"):
        out.append(Goal(f"a solid of one {k}", hit, dict(kinds=(k,), spec=None), bounds=b))
    for a in OPS:
        out.append(Goal(f"{a} sphere sphere, from a face", hit, dict(kinds=("sphere", "sphere"), spec=one(a), on=True),
                        bounds=b + "starting on the first sphere's surface", weight=1))
    for k in ("sphere", "cyl"):
        for a in OPS:
            out.append(Goal(f"{a} of a {k} with itself", twice, dict(kind=k, op=a), bounds=b + "cylinders along z"))
    if tier != "quick":
        out.append(Goal("union of three (left), from outside", hit,
                        dict(kinds=("sphere",) * 3, spec=("union", one("union"), None), outside=True), bounds=b, weight=3))
        for a in OPS:
            out.append(Goal(f"{a} sphere cylinder, any axis", hit,
                            dict(kinds=("sphere", "cyl"), spec=one(a), axis="any"), bounds=b + "any axis", weight=2))
            out.append(Goal(f"{a} cylinder cylinder", hit, dict(kinds=("cyl", "cyl"), spec=one(a)),
                            bounds=b + "parallel axes", weight=2))
    return out
