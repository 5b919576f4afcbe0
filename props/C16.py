"""Rotation, scaling and translation matrices."""
import numpy as np

from props.h import *


def mv(env, M, v):
    return [sum((M[i][j] * v[j] for j in range(1, len(v))), M[i][0] * v[0]) for i in range(len(v))]


def is_rotation(env, M, label, n=3):
    """M maps an orthonormal frame to one of the same handedness"""
    rows = [[M[i][j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i, n):
            env.eq(env.dot(rows[i], rows[j]), 1 if i == j else 0, f"{label}: orthogonal")
    env.eq(env.dot(env.cross(rows[0], rows[1]), rows[2]), 1, f"{label}: no reflection")


def axis_angle(env):
    g = env.m.general_optics
    u, v, w = env.frame("F")
    th = env.angle("theta", -7, 7)
    L = env.real("len", 0.001, 1000)
    ax = L * u
    keep = [x for x in ax]
    M = g.rotation_matrix_axis_angle(list(ax) if env.p.aslist else ax, th)
    c, s = env.cossin(th)
    env.observe("M", M)
    env.eqv(mv(env, M, u), u, "the axis stays")
    env.eqv(mv(env, M, v), c * v + s * w, "turns counterclockwise by theta")
    env.eqv(mv(env, M, w), c * w - s * v, "turns counterclockwise by theta")
    env.eqv(ax, keep, "axis argument unchanged")


def pair(env):
    case = env.p.case
    if case == "opposite":
        u = env.unit3("u")
        v = w = None
    else:
        u, v, w = env.frame("F")
    if case == "general":
        c, s = env.circle("ang")
        env.require(s >= 1e-8)
        b = c * u + s * v
    else:
        c, s = (1, 0) if case == "parallel" else (-1, 0)
        b = c * u
    k1, k2 = env.real("len1", 0.001, 1000), env.real("len2", 0.001, 1000)
    return u, v, w, c, s, b, k1 * u, k2 * b


def onto(env):
    """rotation_matrix2(a, b) a = b"""
    g = env.m.general_optics
    u, v, w, c, s, b, a0, b0 = pair(env)
    ka, kb = [x for x in a0], [x for x in b0]
    M = g.rotation_matrix2(a0, b0)
    env.observe("M", M) if env.p.case == "general" else None
    env.eqv(mv(env, M, u), b, "takes the first direction to the second")
    if env.p.case == "opposite":
        is_rotation(env, M, "half a turn")
    else:
        env.eqv(mv(env, M, v), c * v - s * u, "in the plane of the two")
        env.eqv(mv(env, M, w), w, "about their common normal")
    env.eqv(a0, ka, "first argument unchanged")
    env.eqv(b0, kb, "second argument unchanged")


def patch_rot(env):
    """rotation_matrix(a, b): applied to column vectors it takes b back to a, as pathpatch_2d_to_3d uses it"""
    g = env.m.general_optics
    u, v, w, c, s, b, a0, b0 = pair(env)
    ka, kb = [x for x in a0], [x for x in b0]
    M = g.rotation_matrix(a0, b0)
    env.observe("M", M) if env.p.case == "general" else None
    env.eqv(mv(env, M, b), u, "takes the second direction to the first (columns)")
    if env.p.case == "opposite":
        is_rotation(env, M, "half a turn")
    else:
        env.eqv(mv(env, M, c * v - s * u), v, "in the plane of the two")
        env.eqv(mv(env, M, w), w, "about their common normal")
    env.eqv(a0, ka, "first argument unchanged")
    env.eqv(b0, kb, "second argument unchanged")


def mat4(env):
    g = env.m.general_optics
    u, v, w, c, s, b, a0, b0 = pair(env)
    p = env.vec3("p", -POS, POS)
    T, S = env.vec3("T", -POS, POS), env.vec3("S", -100, 100)
    MT, MS = g.translation_matrix4(T), g.scaling_matrix4(S)
    pt, dr = list(p) + [1], list(p) + [0]
    env.eqv(mv(env, MT, pt), [p[i] + T[i] for i in range(3)] + [1], "translation moves points")
    env.eqv(mv(env, MT, dr), dr, "translation leaves directions alone")
    env.eqv(mv(env, MS, pt), [p[i] * S[i] for i in range(3)] + [1], "scaling scales each coordinate of points")
    env.eqv(mv(env, MS, dr), [p[i] * S[i] for i in range(3)] + [0], "scaling scales each coordinate of directions")
    x, y, z = (env.real("c" + k, -POS, POS) for k in "uvw")
    q = comb((x, u), (y, v), (z, w))
    MR = g.rotation_matrix4(a0, b0)
    want = comb((x, b), (y, c * v - s * u), (z, w))
    for h in (0, 1):
        r = mv(env, MR, list(q) + [h])
        env.eqv(r, list(want) + [h], "rotation turns the first direction into the second")


def whole(env):
    """vectors given as lists that mix whole numbers with others, or as whole-number arrays"""
    g = env.m.general_optics
    k, i = env.pick([0, 3, -2]), env.choose(3, "place")
    T, S, A = ([env.real(f"{n}.{c}", 0.125, 100) for c in "xyz"] for n in "TSA")
    T[i] = S[i] = A[i] = k
    p = list(env.vec3("p", -POS, POS))
    env.eqv(mv(env, g.translation_matrix4(T), p + [1]), [p[j] + T[j] for j in range(3)] + [1], "translation moves points")
    env.eqv(mv(env, g.scaling_matrix4(S), p + [1]), [p[j] * S[j] for j in range(3)] + [1], "scaling scales points")
    th = env.angle("theta", -7, 7)
    c, s = env.cossin(th)
    M = g.rotation_matrix_axis_angle(A, th)
    env.eqv(mv(env, M, A), A, "the axis stays", tol=1e-4)
    env.eq(M[0][0] + M[1][1] + M[2][2], 1 + 2 * c, "turns by theta")
    w = np.array([k, 1, 2])
    M = g.rotation_matrix_axis_angle(w, th)
    env.eqv(mv(env, M, [float(x) for x in w]), [float(x) for x in w], "the axis stays")
    env.eqv(mv(env, g.translation_matrix4(w), p + [1]), [p[j] + float(w[j]) for j in range(3)] + [1],
            "translation by a whole-number array")
    env.eqv(mv(env, g.scaling_matrix4(w), p + [1]), [p[j] * float(w[j]) for j in range(3)] + [1],
            "scaling by a whole-number array")


def goals(tier):
    b = "any axis / directions, vector lengths 0.001..1000"
    out = [Goal("axis and angle", axis_angle, dict(aslist=False), bounds=b + ", angle -7..7"),
           Goal("axis given as a list", axis_angle, dict(aslist=True), bounds=b + ", angle -7..7")]
    for case in ("general", "parallel", "opposite"):
        d = dict(case=case)
        bb = b + (", at least 1e-8 from (anti)parallel" if case == "general" else f", exactly {case}")
        out += [Goal("onto: " + case, onto, d, bounds=bb), Goal("patch rotation: " + case, patch_rot, d, bounds=bb)]
    out.append(Goal("4x4 matrices", mat4, dict(case="general"), bounds=b))
    out.append(Goal("whole numbers", whole, bounds="one component of 0, 3 or -2, the others 0.125..100; whole-number arrays"))
    return out
