"""Uninterpreted kernels and means.

In symbolic mode an evaluation is an application of an uninterpreted function to the
(symbolic) input coordinates. In concrete mode the same object evaluates a fixed, generic,
positive-definite function which depends on the name only (or a table of values taken from
a solver model). Symmetric kernels canonicalise the order of their arguments.
"""

import math
import zlib

import numpy as np
from lab import B
from matrix import Dense
from mlkernels import Kernel, Mean, elwise, pairwise
from plum import Dispatcher

from . import arr, sym
from .sym import S

_dispatch = Dispatcher()


def coords(x):
    """Convert a numeric input to a list of coordinate tuples."""
    r = arr.raw(x) if isinstance(x, np.ndarray) else np.asarray(x)
    if r.ndim == 0:
        r = r.reshape(1, 1)
    elif r.ndim == 1:
        r = r.reshape(-1, 1)
    if r.ndim != 2:
        raise sym.Unsupported("batched inputs to an uninterpreted kernel")
    return [tuple(r[i, j] for j in range(r.shape[1])) for i in range(r.shape[0])]


def _rng(name):
    """Deterministic generic parameters in (0, 1) for a name."""
    seed = zlib.crc32(name.encode())

    def u(k):
        z = (seed * 2654435761 + (k + 1) * 40503 * 2246822519) % (1 << 32)
        z ^= z >> 15
        z = (z * 2246822519) % (1 << 32)
        z ^= z >> 13
        return (z + 0.5) / (1 << 32)

    return u


def base_kernel(name, symmetric, x, y, m=math):
    """Concrete stand-in for an uninterpreted kernel. `m` provides `exp`, `sin`."""
    u = _rng(name)
    if symmetric:
        a, l2, b, c = 0.6 + u(0), 0.5 + u(1), 0.2 + 0.3 * u(2), 0.1 + 0.3 * u(3)
        d2, dot = 0, 0
        for xi, yi in zip(x, y):
            d2 = d2 + (xi - yi) * (xi - yi)
            dot = dot + xi * yi
        return a * m.exp(-d2 / (2 * l2)) + b * dot + c
    t = u(0)
    for k, (xi, yi) in enumerate(zip(x, y)):
        t = t + (0.5 + u(4 * k + 1)) * xi + (0.7 + u(4 * k + 2)) * yi
    dot = 0
    for k, (xi, yi) in enumerate(zip(x, y)):
        dot = dot + (u(30 + k) - 0.5) * xi * yi
    amp = 0.15 if name.startswith("x_") else 1  # Keep joint models positive definite.
    return amp * ((0.5 + u(60)) * m.sin(t) + dot + u(61) - 0.5)


def base_mean(name, x, m=math):
    u = _rng(name)
    t = u(0)
    lin = 0
    for k, xi in enumerate(x):
        t = t + (0.5 + u(2 * k + 1)) * xi
        lin = lin + (u(2 * k + 20) - 0.3) * xi
    return (0.5 + u(60)) * m.sin(t) + lin + u(61)


class _Np:
    exp = staticmethod(np.exp)
    sin = staticmethod(np.sin)


class UKernel(Kernel):
    """Uninterpreted kernel."""

    def __init__(self, env, name, symmetric=True):
        self.env = env
        self.uname = name
        self.symmetric = symmetric

    @property
    def _stationary(self):
        return False

    def render(self, formatter):
        return f"{self.uname}()"

    def value(self, x, y):
        """Value at coordinate tuples."""
        if self.env.symbolic:
            xs, ys = tuple(map(S.of, x)), tuple(map(S.of, y))
            for e in xs + ys:
                if e.nan:
                    return S(sym.P.ZERO, {}, frozenset().union(*[e.nan for e in xs + ys]))
            return kernel_app(self.uname, self.symmetric, (0,) * len(xs), (0,) * len(ys), xs, ys)
        return self.env.kernel_value(self.uname, self.symmetric, x, y)


class SKernel(UKernel):
    """Uninterpreted stationary kernel: a function of the difference of the inputs."""

    @property
    def _stationary(self):
        return True

    def value(self, x, y):
        d = tuple(a - b for a, b in zip(x, y))
        return UKernel.value(self, d, tuple(-a for a in d))


def kernel_app(name, symmetric, dx, dy, xs, ys):
    """Application of (a derivative of) an uninterpreted kernel."""
    if symmetric:
        kx, ky = tuple(map(sym.repr_key, xs)), tuple(map(sym.repr_key, ys))
        if (ky, dy) < (kx, dx):
            xs, ys, dx, dy = ys, xs, dy, dx
    full = name if not any(dx) and not any(dy) else f"{name}|{dx}|{dy}"
    if len(xs) != len(ys):
        # A process of fewer inputs.
        full += f"|{len(xs)},{len(ys)}"
    return sym.CTX.app(full, xs + ys, meta=("kernel", name, symmetric, dx, dy, len(xs)))


def mean_app(name, dx, xs):
    full = name if not any(dx) else f"{name}|{dx}"
    return sym.CTX.app(full, xs, meta=("mean", name, dx))


def _full(k, x, y):
    cx, cy = coords(x), coords(y)
    if k.env.symbolic:
        out = np.empty((len(cx), len(cy)), dtype=object)
        for i, a in enumerate(cx):
            for j, b in enumerate(cy):
                out[i, j] = k.value(a, b)
        return arr.wrap(out) if out.size else np.zeros(out.shape)
    out = np.empty((len(cx), len(cy)))
    for i, a in enumerate(cx):
        for j, b in enumerate(cy):
            out[i, j] = k.value(a, b)
    return out


@pairwise.dispatch
def pairwise(k: UKernel, x: B.Numeric, y: B.Numeric):
    if _is_tf(x) or _is_tf(y):
        return Dense(_tf_pairwise(k, x, y))
    if B.rank(x) > 2 or B.rank(y) > 2:
        return Dense(_batched(k, x, y, False))
    return Dense(_full(k, x, y))


@elwise.dispatch
def elwise(k: UKernel, x: B.Numeric, y: B.Numeric):
    if _is_tf(x) or _is_tf(y):
        return _tf_elwise(k, x, y)
    if B.rank(x) > 2 or B.rank(y) > 2:
        return _batched(k, x, y, True)
    cx, cy = coords(x), coords(y)
    if len(cx) != len(cy):
        raise ValueError("elementwise computation on inputs of different lengths")
    if k.env.symbolic:
        out = np.empty((len(cx), 1), dtype=object)
    else:
        out = np.empty((len(cx), 1))
    for i, (a, b) in enumerate(zip(cx, cy)):
        out[i, 0] = k.value(a, b)
    return arr.wrap(out) if k.env.symbolic and out.size else np.asarray(out, dtype=object if k.env.symbolic and out.size else float)


def _batched(k, x, y, el):
    x, y = arr.raw(x), arr.raw(y)
    batch = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x = np.broadcast_to(x, batch + x.shape[-2:])
    y = np.broadcast_to(y, batch + y.shape[-2:])
    res = None
    for ind in np.ndindex(*batch):
        if el:
            r = np.array([[k.value(tuple(a), tuple(b))] for a, b in zip(x[ind], y[ind])], dtype=object)
        else:
            r = np.array([[k.value(tuple(a), tuple(b)) for b in y[ind]] for a in x[ind]], dtype=object)
        if res is None:
            res = np.empty(batch + r.shape, dtype=object)
        res[ind] = r
    return arr.wrap(res) if k.env.symbolic else res.astype(float)


class UMean(Mean):
    """Uninterpreted mean."""

    def __init__(self, env, name):
        self.env = env
        self.uname = name

    def render(self, formatter):
        return f"{self.uname}()"

    def value(self, x):
        if self.env.symbolic:
            xs = tuple(map(S.of, x))
            return mean_app(self.uname, (0,) * len(xs), xs)
        return self.env.mean_value(self.uname, x)

    @_dispatch
    def __call__(self, x: B.Numeric):
        if _is_tf(x):
            return _tf_mean(self, x)
        if B.rank(x) > 2:
            r = arr.raw(x)
            out = np.empty(r.shape[:-1] + (1,), dtype=object)
            for ind in np.ndindex(*r.shape[:-1]):
                out[ind + (0,)] = self.value(tuple(r[ind]))
            return arr.wrap(out) if self.env.symbolic else out.astype(float)
        cx = coords(x)
        if self.env.symbolic and cx:
            out = np.empty((len(cx), 1), dtype=object)
        else:
            out = np.empty((len(cx), 1))
        for i, a in enumerate(cx):
            out[i, 0] = self.value(a)
        return arr.wrap(out)


# TensorFlow versions, for concrete derivatives.


def _is_tf(x):
    return type(x).__module__.startswith("tensorflow")


class _Lab:
    exp = staticmethod(lambda x: B.exp(x))
    sin = staticmethod(lambda x: B.sin(x))


def _cols(x):
    x = B.uprank(x)
    return [x[:, i] for i in range(int(B.shape(x, 1)))]


def _tf_pairwise(k, x, y):
    xs = [c[:, None] for c in _cols(x)]
    ys = [c[None, :] for c in _cols(y)]
    return base_kernel(k.uname, k.symmetric, xs, ys, _Lab)


def _tf_elwise(k, x, y):
    xs = [c[:, None] for c in _cols(x)]
    ys = [c[:, None] for c in _cols(y)]
    return base_kernel(k.uname, k.symmetric, xs, ys, _Lab)


def _tf_mean(m, x):
    return base_mean(m.uname, [c[:, None] for c in _cols(x)], _Lab)
