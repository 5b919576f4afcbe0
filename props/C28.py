"""Printing: every object can be shown, and shows where it is."""
import re

import numpy as np

from props.C21 import digits
from props.h import *

ASSUMES = ["one coordinate of the position or normal is free at a time, the others are fixed numbers"]

NUM = re.compile(r"[-+]?[0-9\ue000-\uf8ff.]+(?:e[-+]?[0-9]+)?|NaN|nan")


def objects(env, kind, c, n):
    o, sh, g = env.m.optics3d, env.m.shapes, env.m.general_optics
    t = env.A([0, 0, 1]) if kind in ("grating", "detector", "rect") else None
    if kind == "flat":
        return o.Mirror(c, normal=n, D=10)
    if kind == "rect":
        return o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=1, w=2)
    if kind == "concave":
        return o.Mirror(c, shape="circular_concave_spherical", normal=n, D=10, f=20)
    if kind == "convex":
        return o.Mirror(c, shape="circular_convex_spherical", D=10)
    if kind == "lens":
        return o.Lens(c, normal=n, D=10, f=5, type="ideal")
    if kind == "ball":
        return o.Lens(c, shape="spherical", D=10)
    if kind == "grating":
        return o.Grating(c, n, t, h=1, w=1, G=600)
    if kind == "detector":
        return o.Detector(c, n, t, h=1, w=1)
    if kind in ("Optic", "Annotation", "Filter", "Window", "Block"):
        return getattr(o, kind)(c, n, "flat")
    if kind == "ray":
        return o.Ray(c, n)
    raise KeyError(kind)


def close(env, s, x, label):
    """s shows x to 5 significant digits"""
    v = env.number(s, label + ": a number")
    d = v - x
    h = abs(x) * 6e-5 + 1e-12 if not env.symbolic else None
    if env.symbolic:
        env.true(env.AND(d * d <= x * x * 3.6e-9 + 1e-24), label)
    else:
        env.true(abs(d) <= h, label)


def show(env):
    kind, which = env.p.kind, env.choose(3, "coordinate")
    has_n = kind not in ("convex", "ball")
    c, n = [1.25, -20.0, 0.0031], [0.6, -0.8, 0.0]
    x = env.real("x", 10.0 ** env.p.lo, 10.0 ** env.p.hi)
    if env.boolean("negative"):
        x = -x
    c[which] = x
    ob = objects(env, kind, env.A(c), env.A(n))
    s = repr(ob)
    env.true(isinstance(s, str) and s, "a string")
    env.true(str(ob) == s, "str gives the same")
    nums = NUM.findall(s[s.index("("):])
    env.true(len(nums) == 6, "three coordinates and three direction components")
    if len(nums) != 6:
        return
    want = c + (n if has_n else [None] * 3)
    for k in range(6):
        if want[k] is None:
            env.true(nums[k].lower() == "nan", "spheres have no normal")
        elif isinstance(want[k], float) and want[k] == 0.0:
            env.eq(env.number(nums[k], "zero"), 0, "zero components are shown")
        else:
            close(env, nums[k], want[k], "shows its position and direction to five digits")
            env.true(len(digits(nums[k])[0]) == 5, "five significant digits")


def shapes(env):
    """surfaces and rays of every kind can be printed whatever their place"""
    sh, o = env.m.shapes, env.m.optics3d
    c = env.vec3("c", -POS, POS)
    u, v, w = env.frame("F")
    R = env.real("R", 0.001, 1000)
    k = env.choose(7, "shape")
    ob = [lambda: sh.Shape(c), lambda: sh.Plane(c, u), lambda: sh.Circle(c, u, R=R), lambda: sh.Sphere(c, D=R),
          lambda: sh.InfiniteCylinder(c, env.A([0, 1, 0]), R=R), lambda: sh.Rectangle(c, u, v, h=R, w=R),
          lambda: o.Compound(env.m.general_optics.BinaryTree(sh.Sphere(c, R=R)))][k]()
    env.true(isinstance(repr(ob), str) and len(repr(ob)) > 0, "a string")


def goals(tier):
    q = tier == "quick"
    r = (-4, 3) if q else (-6, 7)
    kinds = ["flat", "rect", "concave", "convex", "lens", "ball", "grating", "detector", "ray",
             "Optic", "Annotation", "Filter", "Window", "Block"]
    return [Goal("print " + k, show, dict(kind=k, lo=r[0], hi=r[1]),
                 bounds=f"one free coordinate, 1e{r[0]}..1e{r[1]} in size, either sign") for k in kinds] + \
        [Goal("print shapes", shapes, bounds="any place, orientation and size")]
