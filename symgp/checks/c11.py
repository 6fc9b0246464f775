"""C11: derivative processes have the covariances of derivatives."""

import sys
from fractions import Fraction

import numpy as np
from stheno import Measure

from .. import arr, sym
from ..env import AssumptionFailed
from ..ops import apply
from ..ref import M, Model, blockdiag, col
from ..scenario import scenario
from .c06 import noise_of


def partial(env, f, z, i):
    """Partial derivative of `f` at coordinates `z` with respect to coordinate `i`."""
    if env.symbolic:
        from ..derivs import _partial

        return _partial(lambda r: sym.S.of(scalar(f(tuple(r)))), list(z), i)
    w = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
    h, r = 0.05, 0.0
    for k, c in enumerate(w):
        a, b = list(z), list(z)
        a[i] += (k + 1) * h
        b[i] -= (k + 1) * h
        r += c * (f(tuple(a)) - f(tuple(b))) / h
    return r


def scalar(v):
    return arr.raw(v)[()] if isinstance(v, np.ndarray) else v


class Fun:
    """A random function: mean and covariances by recursion on how it is made."""

    def __init__(self, env, kind, *args):
        self.env, self.kind, self.args = env, kind, args

    def __add__(self, o):
        return Fun(self.env, "sum", self, o)

    def plus(self, h):
        return Fun(self.env, "plus", self, h)

    def times(self, h):
        return Fun(self.env, "times", self, h)

    def at(self, s):
        return Fun(self.env, "at", self, s)

    def diff(self, i):
        return Fun(self.env, "diff", self, i)

    def mean(self, x):
        k, a = self.kind, self.args
        if k == "base":
            return a[0].mean(x)
        if k == "sum":
            return a[0].mean(x) + a[1].mean(x)
        if k == "plus":
            return a[0].mean(x) + a[1](x)
        if k == "times":
            return a[0].mean(x) * a[1](x)
        if k == "at":
            return a[0].mean(a[1](x))
        return partial(self.env, a[0].mean, x, a[1])

    def linear(self, c, x):
        """The linear operation applied to `c`, the covariance as a function of the argument."""
        k, a = self.kind, self.args
        if k == "sum":
            return a[0].linear(lambda f, z: c(f, z), x) + a[1].linear(lambda f, z: c(f, z), x)
        if k == "base":
            return c(a[0], x)
        if k == "plus":
            return a[0].linear(c, x)
        if k == "times":
            return a[0].linear(c, x) * a[1](x)
        if k == "at":
            return a[0].linear(c, a[1](x))
        return partial(self.env, lambda z: a[0].linear(c, z), x, a[1])

    def cov(self, o, x, y):
        return self.linear(lambda f, s: o.linear(lambda g, t: f.cov(g, s, t), y), x)


def funs(env, model):
    model.fields = [Fun(env, "base", f) for f in model.fields]


def inputs(env, x):
    """Derivatives need TensorFlow."""
    if env.symbolic:
        return x
    import os

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    import stheno.tensorflow  # noqa
    import tensorflow as tf

    return tf.constant(np.asarray(x, dtype=float), dtype=tf.float64)


def check(env, model, x, y, label="", n=None):
    m = model.measure
    p, f = model.ps[-1], model.fields[-1]
    tx, ty = inputs(env, x), inputs(env, y)
    env.eq(p.mean(tx), model.mean(f, x), label + "mean")
    env.eq(p.kernel(tx, ty), model.cov(f, f, x, y), label + "kernel")
    env.eq(p.kernel.elwise(tx, ty), M(env, lambda i, j: model.cov(f, f, x, y)[i, i], len(x), 1), label + "elwise")
    for k, (q, g) in enumerate(zip(model.ps[:-1], model.fields[:-1])):
        env.eq(m.kernels[p, q](tx, ty), model.cov(f, g, x, y), f"{label}cov with {k}")
        env.eq(m.kernels[q, p](ty, tx), model.cov(g, f, y, x), f"{label}cov with {k} (right)")


@scenario(
    "C11",
    quick=[(1, 0), (2, 0), (2, 1), (3, 1)],
    bounds="the derivative of either of two correlated processes, inputs of d dimensions, one point each; "
    "symbolic derivatives of arbitrary means and kernels",
    jitter=True,
)
def first(env):
    d, i = env.params
    model = Model(env, Measure(), 2)
    funs(env, model)
    which = env.choice("which", [0, 1])
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    p, f = model.ps[which], model.fields[which]
    model.ps.append(p.diff() if i == 0 and env.flag("default") else p.diff(i))
    model.fields.append(f.diff(i))
    check(env, model, x, y)


OPS = ["c - p", "p + h", "h * p", "p / c", "shift", "stretch", "transform", "p + q", "p - q"]


@scenario(
    "C11",
    quick=[("after", 1), ("before", 1), ("twice", 1), ("twice", 2)],
    thorough=[("after", 2), ("before", 2)],
    bounds="an operation before or after a derivative, or the derivative of a derivative with respect to any pair of "
    "dimensions, on two correlated processes, inputs of d dimensions, one point each",
)
def composed(env):
    kind, d = env.params
    model = Model(env, Measure(), 2)
    funs(env, model)
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)

    def diff(i, k=-1):
        p, f = model.ps[k], model.fields[k]
        model.ps.append(p.diff(i))
        model.fields.append(f.diff(i))

    if kind == "before":
        apply(env, model, 0, env.choice("op", OPS), d, 0, 1)
        diff(d - 1)
    elif kind == "after":
        diff(d - 1, 0)
        apply(env, model, 0, env.choice("op", OPS), d, 2, 1)
    else:
        i, j = env.choice("dims", [(0, 0)] if d == 1 else [(0, 1), (1, 0), (1, 1)])
        diff(i, 0)
        diff(j)
    check(env, model, x, y)


@scenario(
    "C11",
    quick=[("value", 1), ("derivative", 1)],
    thorough=[("value", 2)],
    bounds="a process is observed and its derivative asked for, or the other way around, at one point with noise; "
    "two correlated processes",
)
def conditioned(env):
    kind, d = env.params
    model = Model(env, Measure(), 2)
    funs(env, model)
    model.ps.append(model.ps[0].diff(d - 1))
    model.fields.append(model.fields[0].diff(d - 1))
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    z, v = env.inputs("z", 1, d), env.vector("v", 1)
    s = env.positive_vector("s", 1)
    N = M(env, lambda i, j: s[i], 1, 1)
    which = 0 if kind == "value" else 2
    tx, ty = inputs(env, x), inputs(env, y)
    post = model.measure | (model.ps[which](inputs(env, z), inputs(env, s)), inputs(env, v))
    ref = model.posterior([(model.fields[which], z)], v, N)
    for i, (p, f) in enumerate(zip(model.ps, model.fields)):
        env.eq(post(p).mean(tx), ref.mean(f, x), f"mean {i}")
        env.eq(post(p).kernel(tx, ty), ref.cov(f, f, x, y), f"kernel {i}")
    env.eq(post.kernels[model.ps[1], model.ps[2]](tx, ty), ref.cov(model.fields[1], model.fields[2], x, y), "cov")


def recorded(env, make):
    """Call `make` and give the finite-difference method that it uses, with exact
    coefficients in symbolic mode."""
    import fdm
    import stheno.model.gp as gp

    used, original = [], fdm.central_fdm

    def exact(v):
        return arr.sa(Fraction(float(v)).limit_denominator(10**6))[()] if env.symbolic else v

    class Method:
        """A finite-difference method of which all numbers are exact."""

        def __init__(self, method):
            self._method = method
            self.grid, self.order, self.deriv = method.grid, method.order, method.deriv
            self.coefs = [exact(c) for c in method.coefs]

        @property
        def step(self):
            return None if self._method.step is None else exact(self._method.step)

        def estimate(self, *args, **kw):
            self._method.estimate(*args, **kw)
            return self

        def __getattr__(self, name):
            raise sym.Unsupported(f"finite-difference method: {name}")

    def central(*args, **kw):
        used.append(Method(original(*args, **kw)))
        return used[-1]

    places = [mod for mod in (fdm, fdm.fdm, gp) if getattr(mod, "central_fdm", None) is original]
    for mod in places:
        mod.central_fdm = central
    try:
        p = make()
    finally:
        for mod in places:
            mod.central_fdm = original
    if len(used) != 1 or used[0].step is None:
        if env.symbolic:
            raise sym.Unsupported("the finite-difference method is not recognised")
        raise AssumptionFailed()
    return p, used[0]


@scenario(
    "C11",
    quick=[(None, None), (1, 2), (1, 3), (2, 3), (1, 4), (2, 4)],
    thorough=[(3, 5), (2, 6), (1, 6), (1, 8), (4, 6)],
    bounds="finite-difference approximation of a derivative of the given order, by the given number of points "
    "(None: the defaults, 1 and 6), of one of two correlated processes, at 1 point each",
)
def approximation(env):
    deriv, order = env.params
    model = Model(env, Measure(), 2)
    f, F = model.ps[1], model.fields[1]
    if deriv is None:
        p, method = recorded(env, lambda: f.diff_approx())
        deriv, order = 1, 6
    elif env.flag("keywords"):
        p, method = recorded(env, lambda: f.diff_approx(deriv=deriv, order=order))
    else:
        p, method = recorded(env, lambda: f.diff_approx(deriv, order))
    h = method.step
    grid = [int(g) for g in method.grid]
    env.true(len(grid) == order and len(set(grid)) == order, "number of points")
    # The weights follow from what the method does to monomials.
    A = [[Fraction(g) ** k for g in grid] for k in range(order)]
    fact = 1
    for k in range(2, deriv + 1):
        fact *= k
    w = solve(A, [Fraction(fact if k == deriv else 0) for k in range(order)])
    w = [arr.sa(c)[()] if env.symbolic else float(c) for c in w]
    P = None
    for g, c in zip(grid, w):
        t = F.at(lambda x, g=g: tuple(a + g * h for a in x)).times(lambda x, c=c: c / h**deriv)
        P = t if P is None else P + t
    if not env.symbolic:
        # The values are large, so compare relative to those.
        env.rtol = 1e-5
    model.ps.append(p)
    model.fields.append(P)
    d = None
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    m = model.measure
    env.eq(p.mean(x), model.mean(P, x), "mean")
    env.eq(p.kernel(x, y), model.cov(P, P, x, y), "kernel")
    for k, (q, g) in enumerate(zip(model.ps[:-1], model.fields[:-1])):
        env.eq(m.kernels[p, q](x, y), model.cov(P, g, x, y), f"cov with {k}")
        env.eq(m.kernels[q, p](y, x), model.cov(g, P, y, x), f"cov with {k} (right)")


def solve(A, b):
    n = len(b)
    A = [row[:] + [v] for row, v in zip(A, b)]
    for i in range(n):
        k = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[k] = A[k], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i:
                A[r] = [a - A[r][i] * c for a, c in zip(A[r], A[i])]
    return [row[-1] for row in A]
