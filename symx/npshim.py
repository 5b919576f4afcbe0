"""numpy / math stand-ins for symbolic execution.

Arrays are *real* numpy arrays of dtype=object holding SymReal (or plain
numbers); only the entry points that numpy cannot run on objects are replaced.
Everything that is not overridden is delegated to the real numpy.
"""
import builtins
import math as _math
import types

import numpy as np

from . import core
from .core import SymBool, SymReal, Unsupported, band, is_sym, lift

_FLOATS = (float, np.float64, np.float32, np.floating, "float", "float64", "d", "f8", np.double)


class SymArr(np.ndarray):
    held = None     # the type of number the array was made to hold, where that is not double

    def __setitem__(self, k, v):
        h = self.held or getattr(self.base, "held", None)
        if h is not None:
            v = to_type(arr(v), h)
            v = v if v.ndim else v.item()
        super().__setitem__(k, v)

    def __array_wrap__(self, out, context=None, return_scalar=False):
        if isinstance(out, np.ndarray) and out.ndim == 0:
            return out.item()
        return super().__array_wrap__(out, context)

    def astype(self, dtype, *a, **k):
        if dtype in (bool, np.bool_, builtins.bool):
            return np.asarray(self).astype(bool)
        if has_sym(self):
            return to_type(self.copy(), _np_dtype(dtype))
        return view(np.asarray(self).astype(_np_dtype(dtype)).astype(object))

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    @property
    def real(self):
        return self

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(o, self)


def view(a):
    if isinstance(a, np.ndarray) and a.dtype == object and a.ndim > 0:
        return a.view(SymArr)
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def _np_dtype(d):
    if isinstance(d, type) and issubclass(d, SymFloat):
        return float
    if isinstance(d, type) and issubclass(d, SymInt):
        return int
    if d is np_float:
        return float
    if d is np_float32:
        return np.float32
    return d


_INTS = (int, np.int64, np.int32, np.int16, np.int8, np.intp, "int", "i", "i4", "i8")
_SINGLES = (np.float32, np.float16, "float32", "f4", "f")


def holding(a, dtype, like=None):
    """a, to hold numbers of dtype (or those of `like`) only"""
    d = _np_dtype(dtype)
    if d is None and like is not None:
        flat = list(np.asarray(like, dtype=object).flat)
        d = int if flat and all(isinstance(e, (builtins.int, np.integer)) and not isinstance(e, (bool, np.bool_))
                                for e in flat) else None
    if isinstance(a, SymArr) and isinstance(d, (type, str, np.dtype)):
        d = d.type if isinstance(d, np.dtype) else d
        a.held = d if d in _INTS or d in _SINGLES else None
    return a


def to_type(a, d):
    """symbolic array as an array of type d would hold it"""
    if isinstance(d, (type, str)) and d in _INTS:
        return elementwise(lambda v: v.trunc() if is_sym(v) else builtins.int(v), a)
    if isinstance(d, (type, str)) and d in _SINGLES:
        return elementwise(lambda v: core.CUR.single(v) if is_sym(v) else np.float64(np.float32(v)), a)
    return a


def has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (SymReal, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _f64(e):
    """concrete numbers inside object arrays behave like numpy scalars (x/0 -> inf)"""
    if isinstance(e, (bool, np.bool_)):
        return e
    if isinstance(e, (int, float)) and not isinstance(e, np.generic):
        return np.float64(e)
    if isinstance(e, np.integer):
        return np.float64(e)
    return e


def obj(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = _f64(a.item())
        return out
    for i in np.ndindex(a.shape):
        out[i] = _f64(a[i])
    return out.view(SymArr)


def arr(x):
    """object array from anything"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else obj(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, str) for e in x):
            return np.array(x)
        return obj(np.array([arr(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x], dtype=object)
                   if not any(isinstance(e, (list, tuple, np.ndarray)) for e in x)
                   else _stack([arr(e) for e in x]))
    if isinstance(x, (range, map, zip, filter)) or hasattr(x, "__next__"):
        return arr(list(x))
    o = np.empty((), dtype=object)
    o[()] = _f64(x)
    return o


def _stack(parts):
    shapes = {p.shape for p in parts}
    if len(shapes) != 1:
        raise ValueError("setting an array element with a sequence. The requested array has an "
                         "inhomogeneous shape")
    sh = shapes.pop()
    out = np.empty((len(parts),) + sh, dtype=object)
    for i, p in enumerate(parts):
        if sh:
            out[i] = p
        else:
            out[i] = p.item()
    return out


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (str, dict)) or x is None:
        return np.array(x, dtype=_np_dtype(dtype))
    if dtype in (bool, np.bool_, builtins.bool) and not has_sym(x):
        return np.array(x, dtype=bool)
    a = arr(x)
    if isinstance(x, np.ndarray) and copy:
        a = a.copy()
    if dtype is not None and _np_dtype(dtype) in (int, np.int64, np.int32) and not has_sym(a):
        a = obj(np.asarray(a).astype(int))
    elif dtype is not None and has_sym(a):
        a = to_type(a, _np_dtype(dtype))
    while a.ndim < ndmin:
        a = a[None]
    return holding(view(a), dtype, x if isinstance(x, (list, tuple)) else None) if a.ndim else a


def np_asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return view(x) if dtype is None or not has_sym(x) else to_type(view(x), _np_dtype(dtype))
    return np_array(x, dtype=dtype)


def _shape_fn(fill):
    def f(shape, dtype=None, *a, **k):
        if dtype in (bool, np.bool_):
            return np.full(shape, bool(fill))
        return holding(obj(np.full(shape, float(fill))), dtype)
    return f


def np_full(shape, v, dtype=None, **k):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = _f64(v)
    return view(out)


def np_eye(n, M=None, k=0, dtype=None, **kw):
    return holding(obj(np.eye(n, M, k)), dtype)


def _like(fill):
    def f(a, dtype=None, *x, **k):
        return obj(np.full(np.shape(a), float(fill)))
    return f


def unwrap(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return view(a)


def elementwise(f, x, *rest):
    if isinstance(x, (list, tuple)):
        x = arr(x)
    rest = [arr(r) if isinstance(r, (list, tuple)) else r for r in rest]
    if not isinstance(x, np.ndarray) and not any(isinstance(r, np.ndarray) for r in rest):
        return f(x, *rest)
    b = np.broadcast(*([np.asarray(v, dtype=object) if not isinstance(v, np.ndarray) else v for v in (x, *rest)]
                       if rest else [x]))
    out = np.empty(b.shape, dtype=object)
    if rest:
        arrs = np.broadcast_arrays(*[np.asarray(v, dtype=object) if not isinstance(v, np.ndarray) else v
                                     for v in (x, *rest)])
        for i in np.ndindex(b.shape):
            out[i] = f(*[a[i] for a in arrs])
    else:
        for i in np.ndindex(b.shape):
            out[i] = f(x[i])
    return unwrap(out)


def scal(name):
    real = getattr(np, name)

    def one(v):
        if isinstance(v, SymReal):
            return getattr(v, name)()
        if isinstance(v, complex):
            return real(v)
        if v is None:
            raise TypeError(f"loop of ufunc does not support argument 0 of type NoneType which has no "
                            f"callable {name} method")
        with np.errstate(all="ignore"):
            return real(np.float64(v))

    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype != object:
            return real(x, *a, **k)
        r = elementwise(one, x)
        if k.get("out") is not None:
            k["out"][...] = r
            return k["out"]
        return r
    return f


def np_sqrt_ss(terms):
    """sqrt of a sum of squares"""
    tot = 0
    for t in terms:
        tot = tot + t * t
    if is_sym(tot):
        return core.CUR.sqrt(SymReal(tot.num, tot.den, True))
    with np.errstate(all="ignore"):
        return np.sqrt(np.float64(tot))


def np_norm(x, ord=None, axis=None, keepdims=False):
    if not isinstance(x, np.ndarray) or x.dtype != object:
        if not has_sym(x):
            return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        x = arr(x)
    if ord not in (None, 2, "fro"):
        if ord == 1 and axis is None and x.ndim == 1:
            return sum(abs(v) for v in x)
        if ord == np.inf and axis is None and x.ndim == 1:
            return sh_max([abs(v) for v in x])
        raise Unsupported(f"norm ord={ord}")
    if axis is None:
        if x.ndim == 2 and ord == 2:
            raise Unsupported("spectral norm")
        r = np_sqrt_ss(list(x.flat))
        if keepdims:
            r = arr([r]).reshape((1,) * x.ndim)
        return r
    x2 = np.moveaxis(x, axis, -1)
    out = np.empty(x2.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = np_sqrt_ss(list(x2[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return unwrap(out)


def _isclose1(a, b, rtol, atol, equal_nan=False):
    a2, b2 = lift(a), lift(b)
    if a2 is None or b2 is None:
        raise TypeError("isclose: not a number")
    if type(a2) is float or type(b2) is float:
        with np.errstate(all="ignore"):
            if type(a2) is float and type(b2) is float:
                return bool(np.isclose(a2, b2, rtol, atol, equal_nan))
            return False
    d = a2 - b2
    tol = lift(atol) + lift(rtol) * abs(b2)
    if is_sym(tol) and tol.is_const():
        t = tol
        return band(d <= t, d >= -t)
    return abs(d) <= tol


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol, atol, equal_nan) \
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else np.isclose(a, b, rtol, atol, equal_nan)
    return elementwise(lambda x, y: _isclose1(x, y, rtol, atol, equal_nan), a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_sym(a) or has_sym(b):
        x, y = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if x.shape == y.shape and 2 <= x.size <= 4 and not is_sym(rtol) and not is_sym(atol):
            x, y = [lift(v) for v in x.flat], [lift(v) for v in y.flat]
            if all(is_sym(v) for v in x + y):
                return _vec_close(x, y, rtol, atol)
    r = np_isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, np.ndarray):
        return band(*list(r.flat))
    return r


def _vec_close(x, y, rtol, atol):
    """componentwise closeness of two short vectors, over-approximated by their distance:
    close => |x-y|^2 <= 2n(atol^2 + rtol^2 |y|^2), not close => |x-y|^2 > atol^2 (rotation
    invariant, so it stays small in a local frame; both answers are explored in between)"""
    ctx = core.CUR
    S = B = lift(0)
    for u, v in zip(x, y):
        S = S + (u - v) * (u - v)
        B = B + v * v
    rt, at = lift(rtol), lift(atol)
    lim = lift(2 * len(x)) * (at * at + rt * rt * B)
    near, far = S <= lim, S > at * at
    if near is False or near is np.False_:
        return False
    if far is False or far is np.False_:
        return True

    def exact():
        r = np.ones(core.NS, bool)
        for u, v in zip(x, y):
            uu, vv = ctx.reval(u), ctx.reval(v)
            with np.errstate(all="ignore"):
                r &= np.abs(uu - vv) <= float(atol) + float(rtol) * np.abs(vv)
        return r
    if ctx.choose(2, "allclose") == 0:
        c, ev = far, (lambda: ~exact())
        val = False
    else:
        c, ev = near, exact
        val = True
    if isinstance(c, SymBool):
        ctx.assume(SymBool(c.z, ev, c.gens, c.atom))
    return val


def np_array_equal(a, b, *k, **kw):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return band(*[x == y for x, y in zip(a.flat, b.flat)])


def _all_any(op):
    def f(x, axis=None, *a, **k):
        if not has_sym(x):
            return getattr(np, op)(x, axis=axis)
        if axis is not None:
            raise Unsupported(op + " axis")
        x = arr(x) if not isinstance(x, np.ndarray) else x
        vals = [e if isinstance(e, SymBool) else bool(e) for e in x.flat]
        return band(*vals) if op == "all" else core.bor(*vals)
    return f


def _cmp2(f):
    def g(a, b, *x, **k):
        return elementwise(f, a, b)
    return g


def _max1(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if a >= b else b


def _min1(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if a <= b else b


def sh_max(xs):
    it = iter(xs)
    m = next(it)
    for v in it:
        m = _max1(m, v)
    return m


def sh_min(xs):
    it = iter(xs)
    m = next(it)
    for v in it:
        m = _min1(m, v)
    return m


def _reduce(f, name):
    def g(x, axis=None, *a, **k):
        if not has_sym(x):
            return getattr(np, name)(np.asarray(x, dtype=float), axis=axis)
        x = arr(x) if not isinstance(x, np.ndarray) else x
        if axis is None:
            return f(list(x.flat))
        x2 = np.moveaxis(x, axis, -1)
        out = np.empty(x2.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f(list(x2[i]))
        return unwrap(out)
    return g


def np_clip(x, lo=None, hi=None, *a, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def one(v):
        if isinstance(v, float) and v != v:
            return v
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        return np_minimum(np_maximum(x, lo), hi)
    return elementwise(one, x)


np_maximum = _cmp2(_max1)
np_minimum = _cmp2(_min1)


def np_where(c, *ab):
    if not ab:
        if has_sym(c):
            return np.where(np.array([bool(v) for v in np.asarray(c, dtype=object).flat]))
        return np.where(c)
    return elementwise(lambda q, x, y: x if q else y, c, *ab)


def np_sign(x):
    def one(v):
        if not is_sym(v):
            return np.sign(v)
        if v > 0:
            return np.float64(1)
        if v < 0:
            return np.float64(-1)
        return np.float64(0)
    return elementwise(one, x)


def np_arctan2(y, x, **k):
    def one(a, b):
        if is_sym(a) or is_sym(b):
            return core.CUR.arctan2(a, b)
        return np.arctan2(np.float64(a), np.float64(b))
    return elementwise(one, y, x)


def np_hypot(x, y, **k):
    return elementwise(lambda a, b: np_sqrt_ss([a, b]), x, y)


def np_cross(a, b, *x, **k):
    a = arr(a) if not isinstance(a, np.ndarray) else a
    b = arr(b) if not isinstance(b, np.ndarray) else b
    if a.shape == (3,) and b.shape == (3,):
        return view(arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]))
    return np.cross(a, b, *x, **k)


def np_dot(a, b, out=None):
    a = arr(a) if isinstance(a, (list, tuple)) else a
    b = arr(b) if isinstance(b, (list, tuple)) else b
    if isinstance(a, np.ndarray) and a.dtype != object:
        a = obj(a)
    if isinstance(b, np.ndarray) and b.dtype != object:
        b = obj(b)
    r = np.dot(a, b)
    if isinstance(r, np.ndarray):
        return unwrap(r)
    return _f64(r)


def np_matmul(a, b, **k):
    return np_dot(a, b)


def np_linspace(a, b, num=50, endpoint=True, **k):
    if not has_sym([a, b]):
        return obj(np.linspace(float(a), float(b), num, endpoint=endpoint, **k))
    num = int(num)
    div = (num - 1) if endpoint else num
    if num == 1:
        return view(arr([a]))
    return view(arr([a + (b - a) * i / div for i in range(num - 1)] + [b])) if endpoint else \
        view(arr([a + (b - a) * i / div for i in range(num)]))


def _finite(kind):
    def one(v):
        if isinstance(v, (SymReal, SymBool)):
            return kind == "isfinite"
        return bool(getattr(np, kind)(v))

    def f(x, **k):
        r = elementwise(one, x)
        return np.asarray(r, dtype=bool) if isinstance(r, np.ndarray) else r
    return f


def np_append(a, v, axis=None):
    if axis is not None:
        return view(np.append(arr(a), arr(v), axis=axis))
    a = arr(a)
    v = arr(v)
    return view(arr(list(a.flat) + list(v.flat)))


def _concat(name):
    def f(seq, *a, **k):
        return view(getattr(np, name)([arr(s) for s in seq], *a, **k))
    return f


def np_einsum(*a, **k):
    return unwrap(np.asarray(np.einsum(a[0], *[arr(x) for x in a[1:]]), dtype=object))


def np_power(a, b, **k):
    return elementwise(lambda x, y: x ** y, a, b)


def np_abs(x, **k):
    return elementwise(abs, x)


def np_floor(x, **k):
    return elementwise(lambda v: core.CUR.floor(v) if is_sym(v) else np.floor(v), x)


def np_round(x, decimals=0, out=None):
    return elementwise(lambda v: core.CUR.round(v, decimals) if is_sym(v) else np.round(v, decimals), x)


def np_mod(a, b, **k):
    return elementwise(lambda x, y: x % y, a, b)


def np_float(x=0.0):
    if isinstance(x, np.ndarray) and x.ndim:
        return np_asarray(x)
    if is_sym(x):
        return x
    return np.float64(x)


def np_float32(x=0.0):
    if isinstance(x, np.ndarray) and x.ndim:
        return np_asarray(x, dtype=np.float32)
    if is_sym(x):
        return core.CUR.single(x)
    return np.float64(np.float32(x))


def np_copysign(a, b):
    def one(x, y):
        if not is_sym(x) and not is_sym(y):
            return np.copysign(x, y)
        m = abs(x)
        return m if y >= 0 else -m
    return elementwise(one, a, b)


def np_nan_to_num(x, nan=0.0, **k):
    return elementwise(lambda v: v if is_sym(v) else np.nan_to_num(v, nan=nan), x)


def np_sum(x, axis=None, *a, **k):
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        x = arr(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return unwrap(np.asarray(np.sum(x, axis=axis), dtype=object)) if axis is not None else \
            sum(list(x.flat)[1:], list(x.flat)[0]) if x.size else np.float64(0)
    return np.sum(x, axis=axis)


def np_mean(x, axis=None, *a, **k):
    x = arr(x)
    n = x.size if axis is None else x.shape[axis]
    return np_sum(x, axis) / n


def np_outer(a, b, **k):
    return view(np.outer(arr(a), arr(b)))


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0:
            continue
        d = m[0][j] * _det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + d if j % 2 == 0 else r - d
    return r


def _rows(a):
    a = arr(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 4:
        raise Unsupported("linear algebra on this shape")
    return [[e for e in r] for r in a]


def np_det(a):
    return _f64(_det(_rows(a))) if has_sym(a) else np.linalg.det(np.asarray(a, dtype=float))


def np_inv(a):
    if not has_sym(a):
        if isinstance(a, np.matrix):
            return np.linalg.inv(a.astype(float))
        return obj(np.linalg.inv(np.asarray(a, dtype=float)))
    m = _rows(a)
    n = len(m)
    d = _det(m)
    if d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 1:
        return view(arr([[1 / d]]))
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = _det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j])
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return view(out)


def np_pinv(a, *x, **k):
    if not has_sym(a):
        if isinstance(a, np.matrix):
            return np.linalg.pinv(a.astype(float), *x, **k)
        return obj(np.linalg.pinv(np.asarray(a, dtype=float), *x, **k))
    return np_inv(a)


def np_solve(a, b):
    if not has_sym(a) and not has_sym(b):
        return obj(np.linalg.solve(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))
    return np_dot(np_inv(a), arr(b))


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(arr(xp).flat), list(arr(fp).flat)
    if period is not None or len(xp) != len(fp) or not xp:
        raise Unsupported("np.interp on this")

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if v <= xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    return elementwise(one, x)


def np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np_where(c, v, r)
    return r


def np_heaviside(x, h):
    def one(v, h):
        return 1.0 if v > 0 else (0.0 if v < 0 else h)
    return elementwise(one, x, h)


def np_isscalar(x):
    return is_sym(x) or isinstance(x, SymBool) or np.isscalar(x)


def np_argmin(x, *a, **k):
    x = list(arr(x).flat)
    best = 0
    for i in range(1, len(x)):
        if x[i] < x[best]:
            best = i
    return np.int64(best)


def np_argmax(x, *a, **k):
    x = list(arr(x).flat)
    best = 0
    for i in range(1, len(x)):
        if x[i] > x[best]:
            best = i
    return np.int64(best)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class SymFloat(builtins.float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, np.ndarray) and x.size == 1 and is_sym(x.flat[0]):
            return x.flat[0]
        return builtins.float(x)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class SymInt(builtins.int, metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            if x.is_const():
                return builtins.int(x)
            if core.CUR.ufargs:
                v = core.CUR.floor_log(x, trunc=True)
                if v is not None:
                    return builtins.int(v)
            if x >= 0:
                return core.CUR.floor(x)
            return -core.CUR.floor(-x)
        return builtins.int(x, *a)


def sym_round(x, n=None):
    if is_sym(x):
        return core.CUR.round(x, n or 0)
    return builtins.round(x) if n is None else builtins.round(x, n)


def sym_mod(a, b):
    """the % operator of the repo's code"""
    if isinstance(a, str) and has_sym(b if isinstance(b, tuple) else (b,)):
        b = b if isinstance(b, tuple) else (b,)
        if a == "%.*g" and len(b) == 2 and not is_sym(b[0]):
            p, n = builtins.int(b[0]), b[1]
        elif len(b) == 1 and a[:2] == "%." and a[-1] == "g" and a[2:-1].isdigit():
            p, n = builtins.int(a[2:-1]), b[0]
        else:
            raise Unsupported("string formatting of a symbolic number")
        r = core.CUR.fmt_digits(n, p)
        return r if r is not None else "%.*g" % (p, builtins.float(n))
    return a % b


class Namespace(types.ModuleType):
    """module proxy: overrides first, then the real module"""

    def __init__(self, real, over, name=None):
        super().__init__(name or real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def make_numpy():
    lin = Namespace(np.linalg, {"norm": np_norm, "det": np_det, "inv": np_inv, "solve": np_solve,
                                    "pinv": np_pinv})
    over = dict(
        linalg=lin, array=np_array, asarray=np_asarray, asanyarray=np_asarray, asfarray=np_asarray,
        ascontiguousarray=np_asarray, zeros=_shape_fn(0), ones=_shape_fn(1), empty=_shape_fn(0),
        full=np_full, eye=np_eye, identity=np_eye, zeros_like=_like(0), ones_like=_like(1),
        empty_like=_like(0), copy=lambda a, *x, **k: np_array(a), dot=np_dot, matmul=np_matmul,
        inner=lambda a, b: np_dot(a, b), vdot=lambda a, b: np_dot(a, b), cross=np_cross, isclose=np_isclose, allclose=np_allclose,
        array_equal=np_array_equal, all=_all_any("all"), any=_all_any("any"),
        maximum=np_maximum, minimum=np_minimum, fmax=np_maximum, fmin=np_minimum, clip=np_clip,
        where=np_where, sign=np_sign, arctan2=np_arctan2, hypot=np_hypot, linspace=np_linspace,
        isnan=_finite("isnan"), isinf=_finite("isinf"), isfinite=_finite("isfinite"),
        append=np_append, concatenate=_concat("concatenate"), vstack=_concat("vstack"),
        hstack=_concat("hstack"), stack=_concat("stack"), column_stack=_concat("column_stack"),
        einsum=np_einsum, power=np_power, float_power=np_power, abs=np_abs, absolute=np_abs, fabs=np_abs,
        floor=np_floor, mod=np_mod, remainder=np_mod, float64=np_float, double=np_float, float_=np_float, float32=np_float32, single=np_float32,
        copysign=np_copysign, nan_to_num=np_nan_to_num, sum=np_sum, mean=np_mean, outer=np_outer,
        argmin=np_argmin, argmax=np_argmax,
        square=lambda x, **k: elementwise(lambda v: v * v, x),
        min=_reduce(sh_min, "min"), amin=_reduce(sh_min, "min"),
        max=_reduce(sh_max, "max"), amax=_reduce(sh_max, "max"),
        interp=np_interp, round=np_round, around=np_round, rint=np_round,
        ndarray=np.ndarray, select=np_select, heaviside=np_heaviside, isscalar=np_isscalar,
    )
    for n in ("sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log", "log10", "log2", "log1p", "expm1", "exp2", "ceil",
              "trunc", "deg2rad", "rad2deg", "radians", "degrees"):
        over[n] = scal(n)
    return Namespace(np, over, "numpy")


def make_math():
    def m(name, npn=None):
        real = getattr(_math, name)

        def f(x, *a):
            if isinstance(x, np.ndarray) and x.size == 1:
                x = x.item()
            if is_sym(x):
                if name == "sqrt" and not x.nn and x < 0:
                    raise ValueError("math domain error")
                r = getattr(x, npn or name)()
                if name in ("floor", "ceil", "trunc") and is_sym(r) and r.is_const():
                    return builtins.int(r.num.const())
                return r
            return real(x, *a)
        return f
    over = {n: m(n) for n in ("sqrt", "sin", "cos", "tan", "exp", "log10", "log2", "log1p", "expm1", "floor", "ceil", "trunc", "fabs", "degrees", "radians")}
    over.update(asin=m("asin", "arcsin"), acos=m("acos", "arccos"), atan=m("atan", "arctan"))
    over["atan2"] = np_arctan2
    over["hypot"] = lambda *xs: np_sqrt_ss(list(xs)) if has_sym(list(xs)) else _math.hypot(*xs)
    over["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not has_sym([a, b])
        else abs(a - b) <= _max1(rel_tol * _max1(abs(a), abs(b)), abs_tol))
    over["isnan"] = lambda x: False if is_sym(x) else _math.isnan(x)
    over["isinf"] = lambda x: False if is_sym(x) else _math.isinf(x)
    over["isfinite"] = lambda x: True if is_sym(x) else _math.isfinite(x)
    over["copysign"] = np_copysign
    over["fmod"] = lambda a, b: lift(a).fmod(b) if has_sym([a, b]) else _math.fmod(a, b)
    over["pow"] = lambda a, b: a ** b if has_sym([a, b]) else _math.pow(a, b)
    over["log"] = lambda x, *a: x.log() / _math.log(*(a or (_math.e,))) if is_sym(x) else _math.log(x, *a)
    over["exp2"] = lambda x: x.exp2() if is_sym(x) else 2.0 ** x
    over["fsum"] = lambda xs: np_sum(list(xs))
    over["dist"] = lambda p, q: np_sqrt_ss([a - b for a, b in zip(p, q)])
    return Namespace(_math, over, "math")
