"""scipy stand-ins: one-dimensional linear interpolation (exact on symbolic values); everything else is scipy's own
and runs on numbers only."""
import numpy as np

from .core import Unsupported
from .npshim import Namespace, arr, elementwise, has_sym, unwrap  # noqa


def _line(x, y, v, i):
    return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])


def nonnum(bbox):
    return tuple(bbox) != (None, None)


class Spline:
    """InterpolatedUnivariateSpline of degree 1"""

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
        import scipy.interpolate as si
        self.x, self.y, self.ext = list(arr(x).flat), list(arr(y).flat), ext
        if not has_sym(self.x) and not has_sym(self.y):
            f = si.InterpolatedUnivariateSpline(np.array(self.x, dtype=float), np.array(self.y, dtype=float), w=w,
                                                bbox=list(bbox), k=k, ext=ext, check_finite=check_finite)
            if k != 1:
                self.real = f
                return
        if k != 1 and k == len(self.x) - 1 and w is None and not nonnum(bbox) and ext in (0, "extrapolate"):
            self.k = k                    # one polynomial through all points
            for a, b in zip(self.x, self.x[1:]):
                if not a < b:
                    raise ValueError("x must be strictly increasing")
            return
        if k != 1 or w is not None or tuple(bbox) != (None, None) or ext not in (0, "extrapolate", 2, "raise", 3, "const"):
            raise Unsupported("spline of this kind")
        if len(self.x) != len(self.y):
            raise ValueError("x and y should have a same length")
        for a, b in zip(self.x, self.x[1:]):
            if not a < b:
                raise ValueError("x must be strictly increasing")
        if len(self.x) < 2:
            raise ValueError("too few points")

    def __call__(self, z, nu=0, ext=None):
        if hasattr(self, "real"):
            return self.real(z)
        if nu:
            raise Unsupported("derivatives of splines")
        if hasattr(self, "k"):
            def lagrange(v):
                out = 0
                for i, a in enumerate(self.x):
                    p = self.y[i]
                    for j, b in enumerate(self.x):
                        if j != i:
                            p = p * (v - b) / (a - b)
                    out = out + p
                return out
            return elementwise(lagrange, z)
        e = self.ext if ext is None else ext

        def one(v):
            if e not in (0, "extrapolate"):
                if v < self.x[0] or v > self.x[-1]:
                    if e in (2, "raise"):
                        raise ValueError("outside the range")
                    return self.y[0] if v < self.x[0] else self.y[-1]
            n = len(self.x)
            for i in range(n - 1):
                if i == n - 2 or v <= self.x[i + 1]:
                    return _line(self.x, self.y, v, i)
        return elementwise(one, z)


class Interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y = list(arr(x).flat), list(arr(y).flat)
        if kind not in ("linear", 1) or axis != -1:
            raise Unsupported("interp1d of this kind")
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            p = sorted(range(len(self.x)), key=_Key.of(self.x))
            self.x, self.y = [self.x[i] for i in p], [self.y[i] for i in p]
        self.fill, self.raises = fill_value, bounds_error
        if isinstance(fill_value, str):
            if fill_value != "extrapolate":
                raise Unsupported("fill value")
            self.raises = False
        elif bounds_error is None:
            self.raises = fill_value is None

    def __call__(self, z):
        def one(v):
            low, high = v < self.x[0], v > self.x[-1]
            if not isinstance(self.fill, str) and (low or high):
                if self.raises:
                    raise ValueError("A value in x_new is outside the interpolation range.")
                f = self.fill if self.fill is not None else float("nan")
                return f[0 if low else 1] if isinstance(f, tuple) else f
            n = len(self.x)
            for i in range(n - 1):
                if i == n - 2 or v <= self.x[i + 1]:
                    return _line(self.x, self.y, v, i)
        return elementwise(one, z)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    @classmethod
    def of(cls, x):
        return lambda i: cls(x[i])


class _Lazy:
    """imports the real module only when something else of it is used"""

    def __init__(self, name):
        self.__name__ = name

    def __getattr__(self, k):
        import importlib
        return getattr(importlib.import_module(self.__name__), k)


def make():
    ip = Namespace(_Lazy("scipy.interpolate"), {"InterpolatedUnivariateSpline": Spline, "interp1d": Interp1d})
    return {"scipy": Namespace(_Lazy("scipy"), {"interpolate": ip}), "scipy.interpolate": ip}
