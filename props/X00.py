"""Self-test of the symbolic numpy/math stand-ins (not a property): every idiom must run on symbolic values and
give the same number as real numpy on the path's witness.  ./run X00 -v"""
import math

from props.h import *

IDIOMS = """
np.add(v, w)
np.subtract(v, w)
np.multiply(v, 2)
np.divide(v, L)
np.true_divide(v, L)
np.negative(v)
np.positive(v)
np.add(x, y)
np.subtract(x, 1.0)
np.multiply(x, y)
np.divide(x, L)
v @ w
v.dot(w)
np.vdot(v, w)
np.inner(v, w)
np.sum(v * w)
(v * w).sum()
sum(v * w)
sum(a * b for a, b in zip(v, w))
np.einsum('i,i->', v, w)
np.einsum('i,i', v, w)
np.einsum('ij,j->i', M, v)
np.tensordot(v, w, axes=1)
np.tensordot(v, w, 1)
M @ v
M.dot(v)
np.matmul(M, v)
v @ M
M @ M
M.T @ v
M.T
np.transpose(M)
M.transpose()
np.linalg.multi_dot([M, M, v])
np.linalg.det(M)
np.linalg.inv(M + 3 * np.eye(3)) @ v
np.linalg.solve(M + 3 * np.eye(3), v)
np.trace(M)
np.linalg.pinv(np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]))
M.trace()
np.diag(v)
np.diag(M)
np.diagonal(M)
np.diag([x, y, L])
np.diagflat(v)
np.linalg.norm(v)
np.linalg.norm(v, ord=2)
np.linalg.norm(v, axis=0)
np.linalg.norm(M, axis=1)
np.linalg.norm([x, y, L])
np.sqrt(np.sum(v ** 2))
np.sqrt(np.sum(np.square(v)))
np.sqrt((v ** 2).sum())
np.sqrt(v.dot(v))
np.sqrt(v @ v)
(v @ v) ** 0.5
math.sqrt(v @ v)
math.hypot(*v)
math.hypot(x, y)
np.hypot(x, y)
math.dist(v, w)
math.pow(L, 2)
pow(x, 2)
pow(L, 0.5)
np.power(L, 0.5)
np.power(x, 2)
L ** 1.5
np.cross(v, w)
np.cross([x, y, L], w)
np.cross(v, w)[0]
np.cross(np.cross(v, w), v)
np.linalg.cross(v, w) if hasattr(np.linalg, 'cross') else 0
np.outer(v, w)
np.multiply.outer(v, w)
np.add.reduce(v)
np.add(v, w, out=np.zeros(3))
np.kron(v, w)
v[:, None] * w[None, :]
v[:, np.newaxis] * w
v.reshape(3, 1) * w.reshape(1, 3)
np.array([v, w])
np.array([v, w])[:, 0]
np.array((x, y, 1.0))
np.array([x, y, 1], dtype=float)
np.array([x, y, 1], dtype=np.float64)
np.asarray(v, dtype=float)
np.vstack([v, w])
np.vstack((v, w)).T
np.hstack([v, 1.0])
np.hstack((v, [1.0]))
np.concatenate([v, [1.0]])
np.concatenate((v, np.array([0.0])))
np.column_stack((v, w))
np.stack([v, w])
np.stack([v, w], axis=1)
np.block([[M, M], [M, M]])
np.r_[v, 1.0]
np.c_[v, w]
np.append(v, x)
np.insert(v, 0, x)
np.delete(v, 1)
np.tile(v, 2)
np.repeat(x, 3)
np.roll(v, 1)
np.flip(v)
v[::-1]
np.ravel(M)
M.ravel()
M.flatten()
M.flat[0]
np.atleast_1d(x)
np.atleast_2d(v)
np.squeeze(v)
np.expand_dims(v, 0)
np.swapaxes(M, 0, 1)
np.min(v)
np.max(v)
v.min()
v.max()
v.mean()
np.mean(v)
np.average(v)
np.median(v)
np.minimum(x, y)
np.maximum(v, w)
np.fmin(x, y)
min(x, y)
max(v)
max(x, y, L)
min([x, y, L])
sorted([x, y, L])
sorted([x, y, L], reverse=True)
sorted([x, y, L], key=lambda t: -t)
sorted([(x, 1), (y, 2)], key=lambda t: t[0])[0][1]
min([(x, 1), (y, 2)], key=lambda t: t[0])[1]
np.sort(np.array([x, y, L]))
np.argsort(np.array([x, y, L]))
np.argmin([x, y])
np.argmin(np.array([x, y, L]))
np.array([x, y]).argmin()
np.array([x, y]).argmax()
np.abs(v)
abs(v)
abs(x)
np.fabs(x)
math.fabs(x)
np.sign(x)
np.copysign(L, x)
math.copysign(L, x)
math.copysign(1, x)
np.clip(x, -1, 1)
v.clip(-1, 1)
np.clip(v, -1, 1)
min(max(x, -1), 1)
np.where(x > 0, 1.0, -1.0)
np.where(x > 0, v, w)
np.where(v > 0, v, 0)
np.select([x > 0, x <= 0], [y, L])
np.heaviside(x, 0.5)
np.piecewise(x, [x > 0, x <= 0], [1.0, -1.0])
1.0 if x > 0 else -1.0
(x > 0) * 1.0
int(x > 0)
float(x > 0)
bool(x > 0)
np.any(v > 0)
np.all(v > 0)
(v > 0).any()
(v > 0).all()
any(v > 0)
all(e > 0 for e in v)
np.count_nonzero(v > 0)
np.sum(v > 0)
np.logical_and(x > 0, y > 0)
np.logical_or(x > 0, y > 0)
np.logical_not(x > 0)
np.logical_xor(x > 0, y > 0)
(x > 0) and (y > 0)
(x > 0) & (y > 0)
(x > 0) | (y > 0)
(x > 0) ^ (y > 0)
~np.bool_(x > 0)
not (x > 0)
(x > 0) == (y > 0)
(x > 0) != (y > 0)
(x > 0) is True
np.greater(x, y)
np.less(x, y)
np.greater_equal(x, y)
np.less_equal(x, y)
np.equal(x, y)
np.not_equal(x, y)
x == y
x != y
0 < x < 1
np.isclose(x, y)
np.isclose(v, w)
np.allclose(v, w)
math.isclose(x, y)
np.array_equal(v, v)
np.array_equal(v, w)
(v == w).all()
np.isnan(x)
np.isnan(v).any()
np.isfinite(x)
np.isinf(x)
np.isscalar(x)
np.nonzero(v > 0)[0]
np.flatnonzero(v > 0)
np.argwhere(v > 0)
v[v > 0]
np.real(x)
np.cumsum(v)
np.cumsum([x, y, L])
np.diff(v)
np.diff([x, y, L])
np.prod(v)
np.prod([x, y])
v.prod()
np.cumprod(v)
math.prod([x, y])
np.ptp(v)
np.interp(0.5, [0, 1], [x, y])
np.polyval([1.0, x, y], 2.0)
np.polyval([1.0, 2.0], x)
np.polynomial.polynomial.polyval(x, [1.0, 2.0])
np.dot(np.array([1.0, 2.0, 3.0]), v)
np.linspace(x, y, 5)
np.linspace(0, L, 4, endpoint=False)
np.arange(3) * x
np.full(3, x)
np.full_like(v, 1.0)
np.full_like(v, x)
np.zeros_like(v) + x
np.ones(3) * x
np.zeros(3) + v
np.identity(3) @ v
np.eye(3) - 2 * np.outer(v, v)
np.vectorize(lambda t: t * 2)(v)
np.fromiter((t * 2 for t in v), dtype=float)
np.array(list(map(lambda t: t * 2, v)))
np.array([t * 2 for t in v])
np.array(tuple(v) + (1.0,))
np.apply_along_axis(lambda t: t * 2, 0, v)
np.sin(x)
np.cos(x)
np.sin(x) ** 2 + np.cos(x) ** 2
math.sin(x)
math.cos(x)
math.tan(T)
np.tan(T)
np.arctan2(x, L)
math.atan2(x, L)
np.arctan(x)
math.atan(x)
np.arcsin(c)
np.arccos(c)
math.acos(c)
math.asin(c)
np.sin(2 * T)
np.cos(T / 2)
np.cos(T + x)
np.sin(np.arcsin(c))
np.cos(np.arcsin(c))
np.cos(np.arccos(c) + np.arcsin(c))
np.deg2rad(x)
np.radians(x)
math.radians(x)
np.rad2deg(x)
np.reciprocal(L)
1 / L
np.float64(x)
float(x)
np.float64(1.0) * x
np.float64(1.0) + x
x * np.float64(2.0)
np.square(x)
np.square(v)
np.cbrt(L ** 3)
np.exp(np.log(L))
np.remainder(T, 2.0)
np.mod(T, 2.0)
T % 2.0
T // 1.0
divmod(T, 1.0)
np.floor(T)
np.ceil(T)
math.ceil(T)
math.floor(T)
np.trunc(T)
np.rint(T)
np.floor_divide(T, 1.0)
math.trunc(T)
int(T)
round(T)
round(x, 2)
np.round(v, 6)
np.around(x * 3, 1)
np.round(x / L)
math.floor(x / L)
math.fmod(T, 1.0)
np.fmod(T, 1.0)
v.copy()
v.tolist()
list(v)
tuple(v)
v.item(0)
v.astype(float)
v.size
v.shape
len(v)
v.ndim
v.fill(0.0) or 0
np.copy(v)
copy.copy(v)
copy.deepcopy(v)
copy.deepcopy([v, w])
functools.reduce(lambda a, b: a + b, v)
functools.reduce(operator.add, v)
operator.mul(x, y)
list(itertools.accumulate([x, y, L]))
math.fsum(v)
math.sumprod(v, w) if hasattr(math, 'sumprod') else 0
statistics.mean([x, y])
(lambda q: (q.__setitem__(0, x), q)[1])(np.zeros(3))
(lambda q: (q.__setitem__(slice(0, 2), v[:2]), q)[1])(np.zeros(3))
(lambda q: (q.__iadd__(v), q)[1])(np.zeros(3))
(lambda q: (q.__imul__(2), q)[1])(v.copy())
(lambda q: (q.__itruediv__(L), q)[1])(v.copy())
(lambda q: (q.__isub__(w), q)[1])(v.copy())
np.subtract(v, w, out=v.copy())
np.copyto(np.zeros(3), v) or 0
np.put(np.zeros(3), [0], [1.0]) or 0
np.take(v, [0, 2])
v.take([0, 2])
np.choose(1, [x, y])
np.unravel_index(np.argmax(v), v.shape)
np.array(v, copy=True)
np.array([[x], [y]])
np.array(x)
np.array(x) * 2
np.array([x]).item()
np.ndarray.dot(v, w)
np.linalg.matrix_power(M, 2)
x.real if hasattr(x, 'real') else x
x.conjugate() if hasattr(x, 'conjugate') else x
x.is_integer() if hasattr(x, 'is_integer') else 0
f"{L > 0}"
isinstance(x, float)
isinstance(x, (int, float))
hash((1, 2)) * 0 + x
x.__lt__(y)
np.min([x, y]), np.max([x, y])
np.linalg.norm(v - w) < L
np.linalg.norm(v) <= 1.0 + 1e-9
np.less(np.linalg.norm(v), L)
bool(np.dot(v, w) < 0)
np.dot(v, w).item() if hasattr(np.dot(v, w), 'item') else 0
np.einsum('ij,ij->i', np.array([v, w]), np.array([w, v]))
np.sum([v, w], axis=0)
np.sum(np.array([v, w]), axis=1)
np.sum(M, axis=0, keepdims=True)
np.array([v, w]).sum(axis=0)
np.array([v, w]).mean(axis=0)
np.mean([v, w], axis=0)
np.max([v, w], axis=0)
np.array([v, w]).max(axis=0)
np.ptp(np.array([v, w]), axis=0)
np.broadcast_to(x, (3,))
np.meshgrid([x, y], [L, 1.0])[0]
np.dstack([v, w])
np.nan_to_num(x)
np.errstate(divide='ignore').__enter__() and 0
np.isin(1, [1, 2])
np.triu(M)
np.nanmin([x, y])
np.nanmax(v)
np.nansum(v)
np.std([x, y])
np.var([x, y])
np.linalg.norm(v, 1)
np.linalg.norm(v, np.inf)
np.sinc(0.0) + x
np.convolve([x, y, L], [1.0, 1.0])
np.correlate([x, y, L], [1.0, 1.0])
np.lib.stride_tricks.sliding_window_view(np.array([x, y, L]), 2)
np.logspace(0, 1, 3) * x
np.ldexp(x, 1)
math.ldexp(x, 1)
np.log2(8.0) + x
scipy.linalg.norm(v)
scipy.linalg.inv(M + 3 * np.eye(3))
""".strip().split("\n")


def run(env):
    import collections
    import copy
    import functools
    import itertools
    import operator
    import statistics
    try:
        import scipy.linalg
    except ImportError:
        scipy = None
    np = env.m.np
    b = env.m.space.builtins if env.m.space else __builtins__
    mm = env.m.space.math if env.m.space else math
    v, w = env.frame("F")[:2]
    v = v * env.real("k", 0.5, 2)
    M = env.m.general_optics.rotation_matrix_axis_angle([0, 0, 1.], env.angle("r"))
    d = dict(np=np, math=mm, v=v, w=w, x=env.real("x", -5, 5), y=env.real("y", -5, 5), L=env.real("L", 0.01, 100), M=M,
             T=env.real("T", 0.1, 1.4), c=env.real("c", -1, 1),
             copy=copy, functools=functools, itertools=itertools, operator=operator, statistics=statistics,
             collections=collections, scipy=scipy, __builtins__=b)
    env.require(d["T"] <= 1.4)
    r = eval(env.p.src, d)
    out = []

    def flat(z):
        if isinstance(z, (list, tuple)) or getattr(z, "ndim", 0):
            for q in z:
                flat(q)
        elif not isinstance(z, str) and z is not None:
            out.append(z)
    flat(r)
    for i, z in enumerate(out):
        env.observe(f"r{i}", z)
    env.true(True, "ran")


def goals(tier):
    return [Goal(s, run, dict(src=s), bounds="") for s in IDIOMS]
