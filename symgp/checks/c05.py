"""C05: all views of a finite-dimensional distribution agree."""

import numpy as np
from lab import B
from matrix import Dense, Diagonal, LowRank, Zero
from stheno import GP, Measure, Normal, cross

from ..ops import apply
from ..ref import M, Model, col, dense_noise
from ..scenario import scenario
from .c04 import parts_cov, parts_mean
from .c06 import noise_of

VIEWS = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "mean_is_zero", "dim", "m2", "sample", "logpdf"]


def sqrt(env, x):
    return B.sqrt(x)


def view(env, d, name, mu, var, label, zero):
    """Ask for one view and compare with the distribution `N(mu, var)`."""
    n = var.shape[0]
    diag = M(env, lambda i: var[i, i], n)
    if name == "mean":
        env.eq(d.mean, mu, label + "mean")
    elif name == "var":
        env.eq(d.var, var, label + "var")
    elif name == "var_diag":
        env.eq(d.var_diag, diag, label + "var_diag")
    elif name == "mean_var":
        a, b = d.mean_var
        env.eq(a, mu, label + "mean_var[0]")
        env.eq(b, var, label + "mean_var[1]")
    elif name == "marginals":
        a, b = d.marginals()
        env.eq(a, mu[:, 0], label + "marginals[0]")
        env.eq(b, diag, label + "marginals[1]")
    elif name == "bounds":
        a, lo, hi = d.marginal_credible_bounds()
        env.eq(a, mu[:, 0], label + "bounds[0]")
        env.eq(lo + hi, 2 * mu[:, 0], label + "bounds: centre")
        env.eq(((hi - lo) / (2 * 1.96)) ** 2, diag, label + "bounds: width")
    elif name == "mean_is_zero":
        # If the mean is said to be zero, it is.
        if d.mean_is_zero:
            env.eq(mu, M(env, lambda i, j: 0, n, 1), label + "mean_is_zero")
    elif name == "dim":
        env.true(d.dim == n, label + "dim")
    elif name == "m2":
        env.eq(d.m2, var + mu @ mu.T, label + "m2")
    elif name == "sample":
        # Asking for a sample or log-density must not disturb anything either.
        d.sample(env.random_state("eps" + label), 1)
    elif name == "logpdf":
        d.logpdf(mu + 1)


def assume_positive(env, var):
    """Marginal variances are positive (negative ones count as zero: see C21)."""
    for i in range(var.shape[0]):
        env.assume_pos(var[i, i])


def ask(env, make, mu, var, k, firsts=VIEWS, zero=False):
    """Ask for any `k` views, and then for all of them."""
    assume_positive(env, var)
    d = make()
    for i in range(k):
        name = env.choice(f"view{i}", firsts)
        view(env, d, name, mu, var, f"view {i}: ", zero)
    for name in VIEWS[:9]:
        view(env, d, name, mu, var, "end: ", zero)
    # Only decompositions may depend on the constant for numerical stability.
    d = make()
    with env.jitter():
        for name in VIEWS[:9]:
            view(env, d, name, mu, var, "with jitter: ", zero)


SYSTEMS = ["process", "zero mean", "posterior", "product", "cross", "cross fdds", "noise-free posterior", "derived", "scalar input", "square", "p + h * p", "shifted", "cross + cross", "copy"]


@scenario(
    "C05",
    quick=[(s, v) for s in SYSTEMS for v in VIEWS],
    bounds="distributions of nine kinds of processes at 1 or 2 points with scalar noise: every pair of "
    "views asked for first, then all views",
)
def orders(env):
    kind, first = env.params
    d, mu, var = system(env, kind)
    assume_positive(env, var)
    view(env, d, first, mu, var, "first: ", kind == "zero mean")
    view(env, d, env.choice("second", VIEWS), mu, var, "second: ", kind == "zero mean")
    for name in VIEWS[:9]:
        view(env, d, name, mu, var, "end: ", kind == "zero mean")


def system(env, kind, noise=None):
    """A finite-dimensional distribution, its mean, and its variance."""
    zero = kind == "zero mean"
    model = Model(env, Measure(), 2, zero_mean=zero)
    m, (f, g) = model.measure, model.ps
    F, G = model.fields
    one = kind in ("posterior", "product", "noise-free posterior", "square", "p + h * p")
    x = env.inputs("x", 1 if one else 2)
    s = env.positive("s")
    ref, parts = model, [(F, x)]
    if kind in ("process", "zero mean"):
        d = f(x, s)
    elif kind in ("posterior", "noise-free posterior"):
        z, v, t = env.inputs("z", 1), env.vector("v", 1), env.positive("t")
        post = m | (g(z, t), v)
        d = post(f)(x, s if kind == "posterior" else None)
        N = M(env, lambda i, j: t, 1, 1)
        ref = model.posterior([(G, z)], v, N)
    elif kind == "product":
        from .c03 import PModel, add_product

        model = PModel(env, Measure(), 2, tag="p")
        add_product(model, 0, 1)
        d = model.ps[2](x, s)
        ref, parts = model, [(model.fields[2], x)]
    elif kind == "derived":
        apply(env, model, 0, "p - q", 1, 0, 1)
        d = model.ps[2](x, s)
        parts = [(model.fields[2], x)]
    elif kind == "square":
        from .c03 import PModel, add_product

        model = PModel(env, Measure(), 2, tag="p")
        add_product(model, 1, 1)
        d = model.ps[2](x, s)
        ref, parts = model, [(model.fields[2], x)]
    elif kind == "p + h * p":
        apply(env, model, 0, "h * p", 1, 0, 1)
        model.ps.append(model.ps[2] + f)
        d = model.ps[3](x, s)
        parts = [(model.fields[2] + F, x)]
    elif kind == "shifted":
        apply(env, model, 0, "shift", 1, 0, 1)
        d = model.ps[2](x, s)
        parts = [(model.fields[2], x)]
    elif kind == "copy":
        d = m(f(x, s))
        parts = [(F, x)]
    elif kind == "cross + cross":
        x = env.inputs("x", 1)
        d = (cross(g, f) + cross(f, f))(x, s)
        parts = [(G + F, x), (F + F, x)]
    elif kind == "cross":
        x = env.inputs("x", 1)
        d = cross(g, f)(x, s)
        parts = [(G, x), (F, x)]
    elif kind == "cross fdds":
        x, y = env.inputs("x", 1), env.inputs("y", 1)
        d = cross(f, g)((g(x), f(y)), s)
        parts = [(G, x), (F, y)]
    elif kind == "scalar input":
        y = env.scalar("y")
        d = f(y, s)
        parts = [(F, y)]
    mu = parts_mean(ref, parts)
    var = parts_cov(ref, parts, parts)
    n = var.shape[0]
    if kind != "noise-free posterior":
        var = var + M(env, lambda i, j: s if i == j else 0, n, n)
    return d, mu, var


@scenario(
    "C05",
    quick=[(k, n) for k in ["none", "zero", "scalar", "vector", "matrix", "diagonal", "scalar int", "dense", "low rank", "Zero"] for n in (1, 2)],
    thorough=[(k, 3) for k in ["vector", "matrix", "none"]],
    bounds="every form of noise, at n points; any view asked for first, then all",
)
def noises(env):
    kind, n = env.params
    model = Model(env, Measure(), 1)
    f, F = model.ps[0], model.fields[0]
    x = env.inputs("x", n)
    if kind == "dense":
        a = env.psd("s", n)
        noise, N = Dense(a), a
    elif kind == "low rank":
        a = env.matrix("s", n, 1)
        noise, N = LowRank(a), a @ a.T
    elif kind == "Zero":
        noise, N = Zero(float, n, n), M(env, lambda i, j: 0, n, n)
    else:
        noise, N = noise_of(env, kind, n)
    var = model.cov(F, F, x) + N
    firsts = VIEWS[:9] if kind in ("none", "zero", "Zero") else VIEWS
    ask(env, lambda: f(x, noise), model.mean(F, x), var, 1, firsts)
    d = f(x, noise)
    env.eq(d.noise, N, "noise")
    env.true(d.p is f, "process")
    env.true(d.x is x, "input")


@scenario(
    "C05",
    quick=[(k, v) for k in ["eager", "eager zero", "eager var", "lazy", "lazy var", "lazy all", "lazy zero all", "diagonal", "lazy cols"] for v in VIEWS],
    bounds="normals given by matrices or by functions (with or without functions for the diagonal, and "
    "the joint computations), of dimension 2: every pair of views asked for first, then all",
)
def normals(env):
    kind, first = env.params
    n = 2
    zero = kind in ("eager zero", "eager var", "lazy var", "lazy zero all")
    mu = M(env, lambda i, j: 0, n, 1) if zero else env.matrix("m", n, 1)
    var = env.psd("v", n)
    assume_positive(env, var)
    calls = {}

    def f(name, value):
        def g():
            calls[name] = calls.get(name, 0) + 1
            return value()

        return g

    diag = lambda: M(env, lambda i: var[i, i], n)  # noqa: E731
    mean = (lambda: 0) if zero else (lambda: mu)
    if kind == "eager":
        d = Normal(mu, var)
    elif kind == "eager zero":
        d = Normal(0, var)
    elif kind == "eager var":
        d = Normal(var)
    elif kind == "diagonal":
        s = env.positive_vector("s", n)
        var = M(env, lambda i, j: s[i] if i == j else 0, n, n)
        d = Normal(mu, Diagonal(s))
    elif kind == "lazy":
        d = Normal(f("mean", mean), f("var", lambda: var))
    elif kind == "lazy var":
        d = Normal(f("var", lambda: var))
    else:
        kw = {"var_diag": f("var_diag", diag)}
        if kind != "lazy cols":
            kw["mean_var"] = f("mean_var", lambda: (mean(), var))
            kw["mean_var_diag"] = f("mean_var_diag", lambda: (mean(), diag()))
        d = Normal(f("mean", mean), f("var", lambda: var), **kw)
    view(env, d, first, mu, var, "first: ", zero)
    view(env, d, env.choice("second", VIEWS), mu, var, "second: ", zero)
    for name in VIEWS[:9]:
        view(env, d, name, mu, var, "end: ", zero)
    env.true(all(v <= 1 for v in calls.values()), "computed at most once")
    # The diagonal version and attributes.
    e = d.diagonalise()
    env.eq(e.mean, mu, "diagonalise: mean")
    env.eq(e.var, M(env, lambda i, j: var[i, j] if i == j else 0, n, n), "diagonalise: var")
