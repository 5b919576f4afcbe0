"""Solid membership: CSG trees are the Boolean combination of their primitives."""
from props.h import *


def leaf(env, k, p):
    """sphere of radius R whose centre is at distance r (any direction) from the point"""
    u = env.unit3(f"u{k}")
    R = env.real(f"R{k}", 0.01, 1000)
    r = env.real(f"r{k}", 0, 2000)
    env.require(env.OR(r - R >= 1e-6, R - r >= 1e-6))
    return env.m.shapes.Sphere(p + r * u, R=R), r < R


OPS = ("union", "intersect", "difference")


def comb2(env, op, a, b):
    if op == "union":
        return env.OR(a, b)
    if op == "intersect":
        return env.AND(a, b)
    return env.AND(a, env.NOT(b))


def build(env, spec, p, k=None):
    """spec: nested tuples (op, left, right) / None = leaf"""
    g = env.m.general_optics
    k = k if k is not None else [0]
    if spec is None:
        k[0] += 1
        if env.p.get("cyl") and k[0] == env.p.get("at", 2):
            R = env.real("Rc", 0.01, 1000)
            x, y, z = env.real("cx", -2000, 2000), env.real("cy", -2000, 2000), env.real("cz", -2000, 2000)
            q = x * x + y * y - R * R
            env.require(env.OR(q >= 1e-6, q <= -1e-6))
            sg = env.p.cyl
            if sg == "any":
                e1, e2, e3 = env.zframe("K", off=1e-4)
                return env.m.shapes.InfiniteCylinder(p + x * e1 + y * e2 + z * e3, env.real("K.len", 0.1, 10) * e3, R=R), q < 0
            return env.m.shapes.InfiniteCylinder(p + env.A([x, y, z]), env.A([0, 0, sg]), R=R), q < 0
        return leaf(env, k[0], p)
    op, l, r = spec
    ln, lm = build(env, l, p, k)
    rn, rm = build(env, r, p, k)
    t = g.BinaryTree(op)
    for node, ins, get in ((ln, t.insertLeft, t.getLeftChild), (rn, t.insertRight, t.getRightChild)):
        if isinstance(node, g.BinaryTree):
            ins(node.getRootVal())
            c = get()
            c.leftChild, c.rightChild = node.leftChild, node.rightChild
        else:
            ins(node)
    return t, comb2(env, op, lm, rm)


def member(env):
    g, o = env.m.general_optics, env.m.optics3d
    p = env.vec3("p", -POS, POS)
    tree, want = build(env, env.p.spec, p)
    if env.p.spec is None:                             # a body of one piece
        tree = g.BinaryTree(tree)
    got = bool(g.test_tree_point(tree, p))
    env.observe("in", got)
    env.true(want if got else env.NOT(want), "inside exactly when the Boolean combination says so")
    N = env.real("N", 0.2, 5)
    op = o.Compound(tree, surface_behavior="refract", index=N)
    i = op.get_index_at_point_if_inside(p)
    if got:
        env.eq(i, N, "index of the solid inside it")
    else:
        env.true(i is None, "no index outside it")
    w = o.get_index_at_point([op], p)
    env.eq(w, N if got else 1, "index of the world elsewhere")


def world(env):
    """first optic containing the point decides; optics without an inside never do"""
    g, o = env.m.general_optics, env.m.optics3d
    p = env.vec3("p", -POS, POS)
    ops, ins, N = [], [], []
    for k in range(2):
        t = g.BinaryTree("union")
        s, m = leaf(env, f"{k}", p)
        t.insertLeft(s)
        t.insertRight(s)
        N.append(env.real(f"N{k}", 0.2, 5))
        ops.append(o.Compound(t, index=N[-1]))
        ins.append(m)
    flat = o.Mirror(p, shape="circular_flat", normal=env.A([0, 0, 1]), D=1)
    got = o.get_index_at_point([flat, ops[0], ops[1]], p)
    env.observe("n", got)
    if env.decide(ins[0]):
        env.eq(got, N[0], "the first containing optic's index")
    elif env.decide(ins[1]):
        env.eq(got, N[1], "the second one's, when only it contains the point")
    else:
        env.eq(got, 1, "world index outside everything")


def chain(env):
    """a body of many parts, strung together to one side or the other"""
    g = env.m.general_optics
    p = env.vec3("p", -POS, POS)
    n, left = env.p.n, env.boolean("grows to the left")
    x = env.real("x", -50, 50)                     # the point is on the line of the centres
    want, tree = None, None
    for k in range(n):
        R = 3 + k % 5
        u = x - 6 * k + 20
        env.require(env.AND(env.OR(u - R >= 1e-6, R - u >= 1e-6), env.OR(u + R >= 1e-6, -R - u >= 1e-6)))
        part, m = env.m.shapes.Sphere(p - u * env.A([0, 0, 1]), R=R), env.AND(u < R, u > -R)
        if tree is None:
            tree, want = part, m
            continue
        t = g.BinaryTree(op := OPS[(k * 2) % 3] if k % 4 else "union")
        ins, far = (t.insertLeft, t.insertRight) if left else (t.insertRight, t.insertLeft)
        get = t.getLeftChild if left else t.getRightChild
        if isinstance(tree, g.BinaryTree):
            ins(tree.getRootVal())
            get().leftChild, get().rightChild = tree.leftChild, tree.rightChild
        else:
            ins(tree)
        far(part)
        want = comb2(env, op, want, m) if left else comb2(env, op, m, want)
        tree = t
    got = bool(g.test_tree_point(tree, p))
    env.observe("in", got)
    env.true(want if got else env.NOT(want), "inside exactly when the Boolean combination says so")


def goals(tier):
    b = "any centres and radii 0.01..1000, point at least 1e-6 from every surface"
    out = []
    for a in OPS:
        out.append(Goal(a, member, dict(spec=(a, None, None)), bounds=b))
        for k in (1, 2):
            out.append(Goal(f"{a} of sphere and cylinder {k}", member, dict(spec=(a, None, None), cyl="any", at=k),
                            bounds=b + ", any axis direction but within 2.3 degrees of -z"))
        for k in (1, -1):
            out.append(Goal(f"{a} sphere/cylinder {'+-'[k < 0]}z", member, dict(spec=(a, None, None), cyl=k), bounds=b))
        for c in OPS:
            out.append(Goal(f"{a}({c}, .)", member, dict(spec=(a, (c, None, None), None)), bounds=b))
            out.append(Goal(f"{a}(., {c})", member, dict(spec=(a, None, (c, None, None))), bounds=b))
            for e in OPS:
                if tier == "quick" and (a, c, e) not in (("difference", "intersect", "union"),
                                                         ("intersect", "difference", "union"),
                                                         ("union", "difference", "difference")):
                    continue
                out.append(Goal(f"{a}({c}, {e})", member, dict(spec=(a, (c, None, None), (e, None, None))), bounds=b))
    out.append(Goal("one sphere", member, dict(spec=None), bounds=b))
    out.append(Goal("one cylinder", member, dict(spec=None, cyl="any", at=1), bounds=b))
    for x in (("union", ("difference", ("intersect", None, None), None), None),
              ("difference", None, ("union", None, ("intersect", None, None))),
              ("difference", ("difference", ("difference", None, None), None), None)):
        out.append(Goal(f"four deep {x[0]} {x[1] and x[1][0]}", member, dict(spec=x), bounds=b))
    k = 10 if tier == "quick" else 14
    out.append(Goal(f"{k} parts in a chain", chain, dict(n=k),
                    bounds=f"{k} spheres of radius 3..7 in a row 6 apart, the point anywhere on their line, mixed operations"))
    out.append(Goal("world", world, bounds=b))
    return out
