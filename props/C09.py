"""The nearest optic along the ray is the one that acts, whatever the list order."""
from props.h import *

ASSUMES = ["optics in the 'stub' goals are arbitrary: each may hit or miss at any distance ahead, with its own point, "
           "normal and side flag (what a real optic's test_intersect returns is decided by C01-C03, C13-C15)"]


def stubs(env, n, pos, d, lo=0):
    o = env.m.optics3d
    log = []

    class Stub(o.Optic):
        def __init__(self, k):
            self.k = k
            self.t = env.real(f"t{k}", lo, 1000)
            self.hits = env.boolean(f"hit{k}")
            self.nrm = env.A([0, 0, k + 1])
            self.flag = ("flag", k)
            self.pt = pos + self.t * d

        def test_intersect(self, ray):
            if not self.hits:
                return False, None, None, None
            return True, self.pt, self.nrm, self.flag

        def do_intersect(self, ray, pt, nrm, flag):
            log.append((self, pt, nrm, flag))

    return [Stub(k) for k in range(n)], log


def stub(env):
    o = env.m.optics3d
    f = env.frame("F")
    d = f[0]
    pos = env.vec3("p", -POS, POS)
    ops, log = stubs(env, env.p.n, pos, d)
    M = env.real("far", 1, 1500)
    eps = 1e-9
    for s in ops:   # distances clear of the limits and of each other
        env.require(env.OR(s.t >= eps, s.t <= HERE))
        env.require(env.OR(s.t - M >= eps, M - s.t >= eps))
        for r in ops[:s.k]:
            env.require(env.OR(s.t - r.t >= eps, r.t - s.t >= eps, s.t <= HERE))
    scene = list(ops)
    if env.p.decoys:
        pl = lambda C: C(pos + d, d, None)
        a, b, z = [(o.Annotation, o.Filter, o.Window), (o.Filter, o.Window, o.Annotation),
                   (o.Window, o.Annotation, o.Filter)][env.choose(3)]
        scene = [pl(a), ops[0], pl(b)] + ops[1:] + [pl(z)]
    ray = o.Ray(pos, d)
    ray.run(max_distance=M, optic_list=scene, max_interactions=1)
    env.true(len(log) <= 1, "one optic acts per interaction")
    env.true(len(ray.point_history) == 2, "one segment")
    env.observe("end", ray.position)
    valid = [env.AND(s.t >= eps, s.t <= M) if s.hits else False for s in ops]
    if log:
        s, pt, nrm, flag = log[0]
        env.true(valid[s.k], "the acting optic is hit within the remaining distance")
        for r in ops:
            if r is not s and r.hits:
                env.true(env.OR(s.t <= r.t, env.NOT(valid[r.k])), "the acting optic is the nearest one")
        env.eqv(pt, s.pt, "it gets its own crossing point")
        env.true(nrm is s.nrm, "it gets its own normal")
        env.true(flag is s.flag, "it gets its own inside/outside flag")
        env.eqv(ray.position, s.pt, "the ray stands on the crossing point")
    else:
        for v in valid:
            env.true(env.NOT(v), "nothing acts only when nothing is hit")
        env.eqv(ray.position, pos + M * d, "a ray that hits nothing flies on straight")


def many(env):
    """a long list: optics at fixed distances, one of them anywhere"""
    o = env.m.optics3d
    d = env.frame("F")[0]
    pos, n = env.vec3("p", -POS, POS), env.p.n
    at = env.pick(list(env.p.at))
    t = env.real("t", 0.1, 500)
    env.require(env.AND(*[env.OR(t - 10 - k >= 1e-6, 10 + k - t >= 1e-6) for k in range(n)]))
    log = []

    class Stub(o.Optic):
        def __init__(self, k):
            self.k, self.t = k, t if k == at else 10 + (k * 17) % n
            self.hits = k == at or k % 4 != 3

        def test_intersect(self, ray):
            return (True, pos + self.t * d, d, True) if self.hits else (False, None, None, None)

        def do_intersect(self, ray, pt, nrm, flag):
            log.append(self.k)
    ops = [Stub(k) for k in range(n)]
    ray = o.Ray(pos, d)
    ray.run(max_distance=1000, optic_list=ops, max_interactions=1)
    env.true(len(log) == 1, "exactly one optic acts")
    best = min((s for s in ops if s.hits and s.k != at), key=lambda s: s.t)
    won = ops[log[0]]
    env.true(won is best or won.k == at, "the nearest optic acts, wherever it is in the list")
    env.true(t < best.t if won.k == at else best.t < t, "the nearest optic acts, wherever it is in the list")
    env.eqv(ray.position, pos + won.t * d, "the ray stands there")


def real(env):
    """parallel real optics at symbolic depths, in both list orders"""
    o = env.m.optics3d
    n, t, s = env.frame("F")
    c = env.vec3("c", -100, 100)
    x = [env.real(f"x{i}", 0.001, 100) for i in range(2)]
    env.require(env.OR(x[0] - x[1] >= 1e-3, x[1] - x[0] >= 1e-3))
    b, g = env.real("b", -0.5, 0.5), env.real("g", -0.5, 0.5)

    def make(kind, depth):
        q = c + depth * n
        if kind == "mirror":
            return o.Mirror(q, shape="rectangular_flat", normal=n, tangent=t, h=400, w=400)
        if kind == "detector":
            return o.Detector(q, -n, t, h=400, w=400)
        if kind == "lens":
            return o.Lens(q, n, D=400, f=50, type="ideal_collimate")
        if kind == "grating":
            return o.Grating(q, -n, t, h=400, w=400, G=600)
        if kind == "round":
            return o.Mirror(q, shape="circular_flat", normal=-n, D=400)
    ks = env.p.kinds
    a, z = make(ks[0], x[0]), make(ks[1], x[1])
    who = []

    def spy(op, k):
        orig = op.do_intersect

        def f(*args):
            who.append((k, args[1]))
        op.do_intersect = f
    spy(a, 0)
    spy(z, 1)
    order = [a, z] if env.pick([0, 1]) == 0 else [z, a]
    if env.p.bounce:    # the light comes off a mirror first
        h = env.real("h", 1e-3, 50)
        env.require(x[0] - h >= 1e-3)
        env.require(x[1] - h >= 1e-3)
        ray = o.Ray(c + h * (n - b * t - g * s), -n + b * t + g * s)
        order.insert(env.choose(3, "place"), o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=400, w=400))
        ray.run(max_distance=1000, optic_list=order, max_interactions=2)
    else:
        ray = o.Ray(c, n + b * t + g * s)
        ray.run(max_distance=1000, optic_list=order, max_interactions=1)
    env.true(len(who) == 1, "exactly one optic acts")
    k, pt = who[0]
    env.le(x[k], x[1 - k], "the nearer optic acts")
    env.eqv(pt, c + x[k] * n + x[k] * b * t + x[k] * g * s, "at its own crossing", tol=1e-5)
    env.eqv(ray.position, pt, "the ray stands on the crossing point")


def legs(env):
    """the same on every leg: at each stop some optic turns the ray (or not) and may change place; the nearest acts again"""
    o = env.m.optics3d
    f, pos = env.frame("F"), env.vec3("p", -POS, POS)
    eps, n = 1e-9, env.p.n
    M = env.real("far", 1, 1500)
    t = [[env.real(f"t{leg}{k}", eps, 1000) for k in range(n)] for leg in range(env.p.legs)]
    hits = [[env.boolean(f"hit{leg}{k}") for k in range(n)] for leg in range(env.p.legs)]
    for leg in t:
        for a in range(n):
            for b in range(a):
                env.require(env.OR(leg[a] - leg[b] >= eps, leg[b] - leg[a] >= eps))
    log = []

    class Stub(o.Optic):
        def __init__(self, k):
            self.k = k

        def test_intersect(self, ray):
            leg = len(log)
            if leg >= len(t) or not hits[leg][self.k]:
                return False, None, None, None
            return True, ray.position + t[leg][self.k] * ray.direction, env.A([leg, 0, self.k]), ("flag", leg, self.k)

        def do_intersect(self, ray, pt, nrm, flag):
            log.append((self.k, pt, nrm, flag))
            ray.direction = f[len(log) % 3]

    left, at = M, pos
    ray = o.Ray(pos, f[0])
    ray.run(max_distance=M, optic_list=[Stub(k) for k in range(n)], max_interactions=len(t))
    env.true(len(ray.point_history) >= len(log) + 1, "a point for every stop")
    for leg, (k, pt, nrm, flag) in enumerate(log):
        env.true(hits[leg][k], "only an optic that is hit acts")
        for b in range(n):
            if hits[leg][b]:
                env.le(t[leg][k], t[leg][b], "the nearest optic of every leg acts")
        at = at + t[leg][k] * f[leg % 3]
        left = left - t[leg][k]
        env.le(0, left, "within the remaining distance", tol=1e-6)
        env.eqv(pt, at, "at its own crossing")
        env.eqv(ray.point_history[leg + 1], at, "the ray stands on the crossing point")
        env.true(flag == ("flag", leg, k), "with what it answered on this leg")
    if len(log) < len(t):
        for b in range(n):
            if hits[len(log)][b]:
                env.le(left, t[len(log)][b], "nothing acts only when nothing is hit", tol=1e-6)


def goals(tier):
    b = "distances 0..1000 (up to 2e-11, or >= 1e-9; 1e-9 apart), any start and direction"
    n = 3 if tier == "quick" else 4
    out = [Goal(f"{k} stub optics", stub, dict(n=k, decoys=False), bounds=b) for k in range(1, n + 1)]
    out.append(Goal("2 stub optics with annotation, filter, window", stub, dict(n=2, decoys=True), bounds=b))
    k = 150 if tier == "quick" else 600
    out.append(Goal("a long list", many, dict(n=k, at=[0, 1, k // 2, k - 2, k - 1]),
                    bounds=f"{k} stub optics 10..{k + 9} ahead (a quarter missed), another one 0.1..500 ahead at the start, "
                           "middle or end of the list"))
    out.append(Goal("every leg", legs, dict(n=2, legs=2), bounds="two legs, two stub optics answering anything on each; " + b))
    if tier != "quick":
        out.append(Goal("every leg, three", legs, dict(n=2, legs=3), bounds="three legs, two stub optics; " + b))
        out.append(Goal("every leg, three optics", legs, dict(n=3, legs=2), bounds="two legs, three stub optics; " + b))
    pairs = [("mirror", "detector"), ("lens", "mirror"), ("grating", "lens"), ("round", "detector")]
    if tier != "quick":
        pairs += [("detector", "grating"), ("lens", "lens"), ("grating", "round")]
    for p in pairs:
        for bounce in (False, True):
            out.append(Goal("real " + "/".join(p) + (" after a mirror" if bounce else ""), real,
                            dict(kinds=p, bounce=bounce),
                            bounds="depths 0.001..100, at least 1e-3 apart, slopes up to 0.5, any orientation" +
                                   (", light off a mirror before them" if bounce else "")))
    return out
