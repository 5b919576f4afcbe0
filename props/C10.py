"""Ray.run: path length, straight segments, history, stopping."""
from props.h import *

ASSUMES = ["optics are arbitrary: each interaction may turn the ray any way, stop it, or leave it (stub optics), "
           "hits lie at distances up to 2e-11 or at least 1e-9"]


def world(env, K, cap):
    """one arbitrary optic: at each test it hits at a fresh distance or misses, and each
    interaction turns the ray to a fresh direction or blocks it"""
    o = env.m.optics3d
    log = []

    class Stub(o.Optic):
        def __init__(self):
            self.n, self.cap = 0, cap

        def test_intersect(self, ray):
            k = self.n
            self.n += 1
            if k >= self.cap or not env.boolean(f"hit{k}"):
                return False, None, None, None
            t = env.real(f"t{k}", 0, 100)
            if env.p.touch:
                env.require(env.OR(t >= 1e-9, t <= HERE))
            else:
                env.require(t >= 1e-9)
            self.t = t
            return True, ray.position + t * ray.direction, env.A([0, 0, 1]), True

        def do_intersect(self, ray, pt, nrm, flag):
            k = len(log)
            kind = env.choose(3)
            log.append((self.t, ray.direction, pt, kind))
            env.eqv(ray.position, pt, "interactions happen where the ray stands")
            if kind == 1:
                ray.blocked = True
            elif kind == 2:
                fr = env.frame(f"F{k + 1}")
                ray.direction = fr[0]
    return Stub(), log


def check(env, ray, hist, start, d0, log, M, K, blocked, label=""):
    """hist: points added by one run() call, starting where it started"""
    dirs = [d0]
    used = 0
    pos = start
    for (t, d, pt, kind), q in zip(log, hist[1:]):
        env.eqv(d, dirs[-1], label + "flies along its current direction")
        env.eqv(q, pos + t * d, label + "history records every interaction point")
        env.true(t >= 5e-10, label + "nothing acts where the ray stands already")
        used = used + t
        pos = q
        dirs.append(None)
        dirs[-1] = log_dir(log, len(dirs) - 2, ray)
    env.true(len(log) <= K, label + "at most max_interactions interactions")
    extra = len(hist) - 1 - len(log)
    env.true(extra in (0, 1), label + "at most one free segment, at the end")
    if extra == 1:
        env.eqv(hist[-1], pos + (M - used) * ray.direction, label + "unused distance is flown straight on")
        env.true(not blocked, label + "a stopped ray does not fly on")
    else:
        env.le(used, M, label + "never flies farther than max_distance")
        env.true(blocked or len(log) >= K or used >= M - 1e-9, label + "stops only when stopped or used up")
    for (t, d, pt, kind) in log[:-1]:
        env.true(kind != 1, label + "nothing happens after the ray is stopped")
    env.eqv(hist[-1], ray.position, label + "history ends at the ray's position")


def long(env):
    """many interactions in one run: every leg counts in full"""
    o = env.m.optics3d
    N = env.p.n
    pos = env.vec3("p", -POS, POS)
    fr = [env.frame("F0")]
    for k in range(1, 3):
        fr.append(env.frame(f"F{k}"))
    dirs = [fr[k % 3][k // 3 % 3] for k in range(N + 1)]
    ts = [env.real(f"t{k}", 1e-3, 100) for k in range(N)]
    log = []

    class Stub(o.Optic):
        def __init__(self):
            pass

        def test_intersect(self, ray):
            k = len(log)
            if k == N:
                return False, None, None, None
            return True, ray.position + ts[k] * ray.direction, env.A([0, 0, 1]), True

        def do_intersect(self, ray, pt, nrm, flag):
            log.append(ray.position)
            ray.direction = dirs[len(log)]
    ray = o.Ray(pos, dirs[0])
    within = env.choose(N + 1) if env.p.cut else N          # how many of the crossings lie within the distance
    w = env.real("w", 1e-3, 100)
    M = sum(ts[:within], 0) + w
    if within < N:
        env.require(ts[within] - w >= 1e-3)
    ray.run(max_distance=M, optic_list=[Stub()], **({"max_interactions": 50} if env.p.get("limit") else {}))
    env.observe("p", ray.position)
    env.true(len(log) == within, "acts once for every crossing within the distance")
    env.true(len(ray.point_history) == within + 2, "every leg recorded, the rest flown")
    if len(ray.point_history) != within + 2 or len(log) != within:
        return
    q = pos
    for k in range(within + 1):
        env.eqv(ray.point_history[k], q, "every leg in full")
        q = q + (ts[k] if k < within else w) * dirs[k]
    env.eqv(ray.position, q, "ends after the whole distance")
    env.eqv(ray.direction, dirs[within], "in the last direction")


def series(env):
    """a very long run of legs of fixed lengths in fixed directions"""
    o = env.m.optics3d
    N, pos, a = env.p.n, env.vec3("p", -POS, POS), env.real("a", 0.01, 1)
    ds = [(1, 0, 0), (0, 0.6, 0.8), (0, 0, -1), (-0.8, 0, 0.6), (0, -1, 0)]
    ds = [env.A(list(x)) for x in ds]
    ts = [a * (1 + k % 7) for k in range(N)]
    log = []

    class Stub(o.Optic):
        def __init__(self):
            pass

        def test_intersect(self, ray):
            if len(log) == N:
                return False, None, None, None
            return True, ray.position + ts[len(log)] * ray.direction, env.A([0, 0, 1]), True

        def do_intersect(self, ray, pt, nrm, flag):
            log.append(None)
            ray.direction = ds[len(log) % 5]
    ray = o.Ray(pos, ds[0])
    ray.run(max_distance=sum(ts, 0) + a, optic_list=[Stub()])
    env.true(len(log) == N, "acts once for every crossing within the distance")
    h = ray.point_history
    env.true(len(h) == N + 2 and len(ray.get_plot_repr()) == N + 2, "every leg recorded, the rest flown")
    if len(h) != N + 2:
        return
    q = pos
    for k in range(N + 1):
        env.eqv(h[k], q, "every leg in full")
        q = q + (ts[k] if k < N else a) * ds[k % 5]
    env.eqv(ray.position, q, "ends after the whole distance")


def log_dir(log, k, ray):
    return log[k + 1][1] if k + 1 < len(log) else ray.direction


def run(env):
    o = env.m.optics3d
    d = env.frame("F0")[0]
    pos = env.vec3("p", -POS, POS)
    ray = o.Ray(pos, d)
    K = env.p.K
    op, log = world(env, K, env.p.cap)
    M = env.real("far", 0.001, 250)
    env.eqv(ray.point_history[0], pos, "history starts at the start")
    env.true(len(ray.point_history) == 1, "history starts with one point")
    ray.run(max_distance=M, optic_list=[op], max_interactions=K)
    check(env, ray, ray.point_history, pos, d, log, M, K, ray.blocked)
    pr = ray.get_plot_repr()
    env.true(len(pr) == len(ray.point_history), "plotted path has every point")
    for a, b in zip(pr, ray.point_history):
        env.eqv(a, b, "plotted path is the history")
    if env.p.again:
        h0 = len(ray.point_history)
        was = ray.blocked
        p1, d1 = ray.position, ray.direction
        del log[:]
        op.n = 10
        M2 = env.real("far2", 0.001, 250)
        ray.run(max_distance=M2, optic_list=[op])
        if was:
            env.true(len(ray.point_history) == h0, "a stopped ray stays stopped on later runs")
            env.eqv(ray.position, p1, "a stopped ray does not move on later runs")
        else:
            env.true(len(ray.point_history) == h0 + 1, "a later run appends to the history")
            env.eqv(ray.point_history[-1], p1 + M2 * d1, "a later run continues where the first stopped")


def twice(env):
    """two runs, each with at most one interaction, are one history"""
    o = env.m.optics3d
    d = env.frame("F0")[0]
    pos = env.vec3("p", -POS, POS)
    ray = o.Ray(pos, d)
    op, log = world(env, 1, 1)
    for i in range(env.p.runs):
        M = env.real(f"far{i}", 0.001, 250)
        h0, p0, d0, was = len(ray.point_history), ray.position, ray.direction, ray.blocked
        done = len(log)
        op.n, op.cap = i, i + 1                        # one fresh chance to hit per run
        ray.run(max_distance=M, optic_list=[op], max_interactions=env.p.K)
        env.eqv(ray.point_history[h0 - 1], p0, "a later run keeps the history")
        if was:
            env.true(len(ray.point_history) == h0 and len(log) == done, "a stopped ray stays stopped on later runs")
            env.eqv(ray.position, p0, "a stopped ray does not move on later runs")
        else:
            check(env, ray, ray.point_history[h0 - 1:], p0, d0, log[done:], M, env.p.K, ray.blocked, f"run {i + 1}: ")


def split(env):
    """a run in two parts goes where one run of the whole length goes, among real mirrors"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    P = env.vec3("P", -100, 100)
    ci, si = env.circle("i")
    env.require(env.AND(ci >= 0.1, si >= 0.01))
    d = ci * n + si * t
    u = -ci * n + si * t
    x, L = env.real("x", 0.1, 100), env.real("L", 0.1, 100)
    env.require(L * si >= 0.2)                        # the mirrors do not face each other along the ray
    w = env.real("w", 0.1, 50)
    def scene():                                      # two facing mirrors, met at P and L on from it
        q = P + L * u
        return [o.Mirror(P, shape="rectangular_flat", normal=n, tangent=t, h=0.1, w=0.1),
                o.Mirror(q, shape="rectangular_flat", normal=-n, tangent=t, h=0.1, w=0.1)][::env.p.order]
    M = x + L + w
    k = env.p.cut
    cut = {0: x, 1: x + L, 2: M}[k] - env.real("cut", 0.01, 50)
    env.require(cut >= [0.01, x + 0.01, x + L + 0.01][k])
    whole, parts = o.Ray(P - x * d, d), o.Ray(P - x * d, d)
    whole.run(max_distance=M, optic_list=scene())
    parts.run(max_distance=cut, optic_list=scene())
    env.observe("mid", parts.position)
    env.true(len(parts.point_history) == k + 2, "the first part ends within its length")
    parts.run(max_distance=M - cut, optic_list=scene())
    env.true(len(whole.point_history) == 4, "the whole run meets both")
    env.true(len(parts.point_history) == 5, "the parts meet both, and stop between")
    if len(whole.point_history) == 4 and len(parts.point_history) == 5:
        env.eqv(parts.position, whole.position, "ends where the whole run ends", tol=1e-6)
        env.eqv(parts.direction, whole.direction, "in its direction")
        rest = [q for j, q in enumerate(parts.point_history) if j != k + 1]
        for a, b in zip(rest, whole.point_history):
            env.eqv(a, b, "by the same points", tol=1e-6)


def faerie(env):
    """faerie-fire rays stop at the first thing they touch, without interacting"""
    o = env.m.optics3d
    d = env.frame("F0")[0]
    pos = env.vec3("p", -POS, POS)
    ray = o.Ray(pos, d, type="faerie_fire")
    op, log = world(env, 5, 1)
    M = env.real("far", 1, 250)
    ray.run(max_distance=M, optic_list=[op])
    env.true(not log, "optics do not act on it")
    env.true(len(ray.point_history) == 2, "one segment")
    if ray.blocked:
        env.eqv(ray.position, pos + op.t * d, "it stands on what it touched")
        env.le(op.t, M, "within reach")
    else:
        env.eqv(ray.position, pos + M * d, "nothing touched: flies on")
    ray.run(max_distance=M, optic_list=[op])
    env.true(len(ray.point_history) == (2 if ray.blocked else 3), "stays stopped")


def fly(env):
    o = env.m.optics3d
    d = env.frame("F0")[0]
    pos = env.vec3("p", -POS, POS)
    ray = o.Ray(pos, env.real("len", 0.01, 100) * d)
    a, b = env.real("a", -100, 100), env.real("b", -100, 100)
    env.eqv(ray.direction, d, "direction is normalised")
    ray.fly(a)
    env.eqv(ray.position, pos + a * d, "flies straight")
    ray.fly(distance=b)
    env.eqv(ray.position, pos + (a + b) * d, "flies straight on")
    env.true(len(ray.point_history) == 3, "every point recorded")
    for q, k in zip(ray.point_history, (0, a, a + b)):
        env.eqv(q, pos + k * d, "history keeps all earlier points")
    try:
        ray.fly()
        env.fail("flying no distance is refused")
    except ValueError:
        pass
    env.true(len(ray.point_history) == 3, "a refused flight records nothing")


def empty(env):
    """nothing to hit, or nothing left to fly"""
    o = env.m.optics3d
    d = env.frame("F0")[0]
    pos = env.vec3("p", -POS, POS)
    M = env.real("far", 0.001, 1000)
    ray = o.Ray(pos, d)
    ray.run(max_distance=M)
    env.eqv(ray.position, pos + M * d, "flies max_distance in an empty world")
    env.true(len(ray.point_history) == 2, "one segment")
    ray = o.Ray(pos, d)
    ray.run(max_distance=env.pick([0, -1]) * M, optic_list=[])
    env.true(len(ray.point_history) == 1, "no distance, no flight")
    ray = o.Ray(pos, d)
    ray.run(max_distance=M, optic_list=[], max_interactions=0)
    env.true(len(ray.point_history) == 1, "no interactions allowed, no flight")


def block(env):
    """a Block stops the rays that meet it"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    h = env.real("h", 1, 100)
    x = env.real("x", 1, 100)
    op = o.Block(c, n, env.m.shapes.Rectangle(c, n, t, h=h, w=h))
    ray = o.Ray(c - x * n, n)
    ray.run(max_distance=1000, optic_list=[op])
    env.true(ray.blocked, "the ray is stopped")
    env.eqv(ray.position, c, "on the block")


def goals(tier):
    b = "any start, directions, distances 0..100, path length 0.001..250, "
    K = 2 if tier == "quick" else 3
    out = [Goal(f"up to {k} interactions", run, dict(K=k, cap=k + 1, again=k == 1, touch=k == 1),
                bounds=b + f"max_interactions {k}", weight=k) for k in range(1, K + 1)]
    out.append(Goal("no interaction limit", run, dict(K=10, cap=2, again=True, touch=True),
                    bounds=b + "at most 2 hits", weight=2))
    out.append(Goal("two runs, one interaction each", twice, dict(K=1, touch=False, runs=2), bounds=b + "two runs", weight=2))
    out.append(Goal("two runs, one hit each", twice, dict(K=5, touch=False, runs=2), bounds=b + "two runs", weight=2))
    if tier != "quick":
        out.append(Goal("three runs, one hit each", twice, dict(K=5, touch=False, runs=3), bounds=b + "three runs", weight=3))
    n = 6 if tier == "quick" else 12
    out += [Goal(f"{n} interactions", long, dict(n=n, cut=True), bounds=f"any start and three frames of directions, {n} "
                 "crossings 0.001..100 apart of which the distance allows any number"),
            Goal(f"{4 * n} interactions", long, dict(n=4 * n, cut=False, limit=True), bounds=f"as above, {4 * n} crossings, all within")]
    k = 1200 if tier == "quick" else 6000
    out.append(Goal("a very long run", series, dict(n=k), bounds=f"any start, {k} legs of fixed directions and proportions, 0.01..7 long"))
    out += [Goal(f"in two parts, cut {k}", split, dict(cut=k, order=1 if k % 2 else -1),
                 bounds="any orientation, |P|<=100, two mirrors 0.1..100 apart, cut before, between or after them")
            for k in range(3)]
    out += [Goal("faerie fire", faerie, dict(touch=False), bounds=b), Goal("fly", fly, bounds=b),
            Goal("empty", empty, bounds=b), Goal("block", block, bounds="any orientation, |c|<=100")]
    return out
