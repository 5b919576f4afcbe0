"""Solid trees: what is inserted where, what a tree prints as, and what it contains agree."""
import re

from props.h import *
from props.C12 import OPS, comb2

ASSUMES = ["trees of up to three parts built by insertion (also below existing children), every operation; points at "
           "least 1e-6 from every surface; parts are spheres with a name of their own"]
SIGN = {"u": "union", "n": "intersect", "\\": "difference"}


def parse(env, text, inside):
    """value of a printed formula"""
    toks = re.findall(r"[()un\\A-Z]", text)
    pos = [0]

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1] if pos[0] <= len(toks) else ""

    def term():
        x = nxt()
        if x in inside:
            return inside[x]
        if x != "(":
            raise KeyError(x)
        a = term()
        op = nxt()
        b = term()
        if nxt() != ")":
            raise KeyError(op)
        return comb2(env, SIGN[op], a, b)
    v = term()
    if pos[0] != len(toks):
        raise KeyError("rest")
    return v


def parts(env, p, names):
    class Part(env.m.shapes.Sphere):
        def __repr__(self):
            return self.letter
        __str__ = __repr__
    out, ins = {}, {}
    for k in names:
        u = env.unit3("u" + k)
        R, r = env.real("R" + k, 0.01, 1000), env.real("r" + k, 0, 2000)
        env.require(env.OR(r - R >= 1e-6, R - r >= 1e-6))
        out[k] = Part(p + r * u, R=R)
        out[k].letter = k
        ins[k] = r < R
    return out, ins


def tree(env):
    g = env.m.general_optics
    p = env.vec3("p", -POS, POS)
    L, ins = parts(env, p, "ABC")
    a, b = env.pick(OPS), env.pick(OPS)
    T = g.BinaryTree(env.pick(OPS) if env.p.set else a)
    if env.p.build == "left":            # A goes in first and is pushed down by the inner operation
        T.insertLeft(L["A"])
        T.insertLeft(b)
        T.getLeftChild().insertRight(L["B"])
        T.insertRight(L["C"])
        want = comb2(env, a, comb2(env, b, ins["A"], ins["B"]), ins["C"])
    elif env.p.build == "right":
        T.insertRight(L["A"])
        T.insertRight(b)
        T.getRightChild().insertLeft(L["B"])
        T.insertLeft(L["C"])
        want = comb2(env, a, ins["C"], comb2(env, b, ins["B"], ins["A"]))
    else:                                # top down
        T.insertLeft(b)
        T.getLeftChild().insertLeft(L["A"])
        T.getLeftChild().insertRight(L["B"])
        T.insertRight(L["C"])
        want = comb2(env, a, comb2(env, b, ins["A"], ins["B"]), ins["C"])
    if env.p.set:                        # the operation can be changed afterwards
        T.setRootVal(a)
        env.true(T.getRootVal() == a, "the new operation is in place")
    got = bool(g.test_tree_point(T, p))
    env.observe("in", got)
    env.true(want if got else env.NOT(want), "the tree contains what its parts and operations say")
    text = g.postOrderEval(T)
    env.true(isinstance(text, str), "prints as text")
    try:
        v = parse(env, text, ins)
    except KeyError:
        env.fail("prints as a bracketed formula")
        return
    env.true(v if got else env.NOT(v), "the printed formula is true exactly at the points inside")


def deep(env):
    """a tree of many parts, every insertion on one side"""
    g = env.m.general_optics
    p = env.vec3("p", -POS, POS)
    names = "ABCDEFGHIJKLMNOPQRST"[:env.p.n]
    class Part(env.m.shapes.Sphere):
        def __repr__(self):
            return self.letter
        __str__ = __repr__
    # concentric balls around a point at any distance from p: inside those that are larger
    u, r = env.unit3("u"), env.real("r", 0.01, 100)
    L, ins = {}, {}
    for i, k in enumerate(names):
        R = 2 + (i * 7) % len(names)
        env.require(env.OR(r - R >= 1e-6, R - r >= 1e-6))
        L[k] = Part(p + r * u, R=R)
        L[k].letter, ins[k] = k, r < R
    left = env.boolean("left")
    want = ins[names[-1]]
    ops = [OPS[(i * i) % 3] for i in range(len(names))]
    top = at = g.BinaryTree(ops[0])
    for i, k in enumerate(names[:-1]):
        if i:
            (at.insertLeft if left else at.insertRight)(ops[i])
            at = at.getLeftChild() if left else at.getRightChild()
        (at.insertRight if left else at.insertLeft)(L[k])
    (at.insertLeft if left else at.insertRight)(L[names[-1]])
    for i in reversed(range(len(names) - 1)):
        k = names[i]
        want = comb2(env, ops[i], want, ins[k]) if left else comb2(env, ops[i], ins[k], want)
    got = bool(g.test_tree_point(top, p))
    env.true(want if got else env.NOT(want), "the tree contains what its parts and operations say")
    text = g.postOrderEval(top)
    try:
        v = parse(env, text, ins)
    except KeyError:
        env.fail("prints as a bracketed formula")
        return
    env.true(v if got else env.NOT(v), "the printed formula is true exactly at the points inside")
    env.true([c for c in text if c in L] == list(names if not left else names[-1] + names[-2::-1]),
             "every part is printed, in its place")


def leaf(env):
    g = env.m.general_optics
    p = env.vec3("p", -POS, POS)
    L, ins = parts(env, p, "A")
    T = g.BinaryTree(L["A"])
    env.true(T.getLeftChild() is None and T.getRightChild() is None, "a new tree has no children")
    env.true(T.getRootVal() is L["A"], "and holds its part")
    got = bool(g.test_tree_point(T, p))
    env.true(ins["A"] if got else env.NOT(ins["A"]), "a single part is itself")
    env.true(str(g.postOrderEval(T)) == "A", "and prints as itself")


def goals(tier):
    b = "any centres and radii 0.01..1000, point at least 1e-6 from every surface"
    return [Goal(f"{k} insertion{', operation changed' if s else ''}", tree, dict(build=k, set=s), bounds=b)
            for k in ("top-down", "left", "right") for s in (False, True)] + [
                Goal("single part", leaf, bounds=b),
                Goal("many parts", deep, dict(n=10 if tier == "quick" else 20),
                     bounds="10 (thorough 20) balls of fixed radii about a common centre 0.01..100 off, inserted one below another")]
