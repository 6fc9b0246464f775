"""C21: credible bounds are the central 95% interval."""

from lab import B
from matrix import Dense, Diagonal, Kronecker, LowRank, Woodbury, Zero
from stheno import Measure, Normal, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ops import apply
from ..ref import M, Model, block
from ..scenario import scenario
from .c03 import PModel, add_product
from .c10 import Approximation
from .c15 import normal_of


def check_bounds(env, d, mu, var, label=""):
    """Bounds given the mean (column) and the variances (list)."""
    n = len(var)
    mean, lower, upper = d.marginal_credible_bounds()
    env.eq(mean, M(env, lambda i: mu[i, 0], n), label + "mean")
    env.eq(upper + lower, M(env, lambda i: 2 * mu[i, 0], n), label + "symmetric")
    root = (upper - mean) / 1.96
    env.eq(root * root, M(env, lambda i: B.maximum(var[i], 0 * var[i]), n), label + "width")
    for i in range(n):
        env.true(upper[i] >= mean[i], label + "the upper bound is not below the mean")
        env.true(lower[i] <= mean[i], label + "the lower bound is not above the mean")
    # The same for the marginals themselves.
    a, b = d.marginals()
    env.eq(a, mean, label + "marginal mean")
    env.eq(b, root * root, label + "marginal variance")


FORMS = [
    "dense", "Dense", "diagonal", "zero mean", "lazy", "lazy pair", "lazy zero mean", "Zero", "Zero var", "negative diagonal",
    "lazy negative", "lazy zero", "low rank", "woodbury", "kronecker", "lazy marginals", "both zero", "scalar mean",
]  # fmt: skip


def distribution(env, form, n):
    mu = env.matrix("mu", n, 1)
    if form == "Zero var":
        return Normal(mu, Zero(float, n, n)), mu, [env.scalar("q") * 0] * n
    if form == "negative diagonal":
        d = env.vector("d", n)
        return Normal(mu, Diagonal(d)), mu, list(d)
    if form in ("lazy negative", "lazy zero", "lazy marginals"):
        d, v0 = env.vector("d", n), env.psd("v", n)
        if form == "lazy zero":
            m, mean = (lambda: 0), M(env, lambda i, j: 0, n, 1)
        else:
            m, mean = (lambda: mu), mu
        v = M(env, lambda i, j: d[i] if i == j else v0[i, j], n, n)
        if form == "lazy marginals":
            return Normal(m, lambda: v, mean_var_diag=lambda: (mu, d)), mean, list(d)
        return Normal(m, lambda: v, var_diag=lambda: d, mean_var_diag=lambda: (m(), d)), mean, list(d)
    if form == "low rank":
        L, a = env.matrix("L", n, 1), env.scalar("a")
        return Normal(mu, LowRank(L, L, M(env, lambda i, j: a, 1, 1))), mu, [a * L[i, 0] ** 2 for i in range(n)]
    if form == "woodbury":
        d, L = env.vector("d", n), env.matrix("L", n, 1)
        return Normal(mu, Woodbury(Diagonal(d), LowRank(L))), mu, [d[i] + L[i, 0] ** 2 for i in range(n)]
    if form == "kronecker":
        k, a = env.psd("k", n), env.scalar("a")
        return Normal(mu, Kronecker(Dense(k), Dense(M(env, lambda i, j: a, 1, 1)))), mu, [a * k[i, i] for i in range(n)]
    if form == "both zero":
        return Normal(Zero(float, n, 1), Zero(float, n, n)), M(env, lambda i, j: 0, n, 1), [env.scalar("q") * 0] * n
    if form == "scalar mean":
        v = env.psd("v", n)
        return Normal(0, v), M(env, lambda i, j: 0, n, 1), [v[i, i] for i in range(n)]
    d, mu, var = normal_of(env, form, n)
    return d, mu, [var[i, i] for i in range(n)]


@scenario(
    "C21",
    quick=[(f, n) for f in FORMS for n in (1, 2)],
    thorough=[(f, 4) for f in FORMS],
    bounds="normals of n dimensions with means and variances in every form, with variances of any sign; also after any other view",
)
def normals(env):
    form, n = env.params
    d, mu, var = distribution(env, form, n)
    first = env.choice("first", ["nothing", "mean", "var_diag", "marginals", "bounds"])
    if first == "mean":
        d.mean
    elif first == "var_diag":
        d.var_diag
    elif first == "marginals":
        d.marginals()
    elif first == "bounds":
        d.marginal_credible_bounds()
    with env.jitter():
        check_bounds(env, d, mu, var)


SYSTEMS = [
    "process", "no noise", "zero mean", "sum", "difference with itself", "zero times", "product", "cross", "posterior", "at the data", "vfe", "fitc", "dtc", "tuple", "vector noise",
]  # fmt: skip


@scenario(
    "C21",
    quick=[(s,) for s in SYSTEMS],
    bounds="finite-dimensional distributions of processes, of combinations (also with a variance that is zero), of products, of Cartesian products, and "
    "of exact and approximate posteriors (also at noiseless data), at 2 points; posteriors at 1",
)
def processes(env):
    (kind,) = env.params
    model = (PModel if kind == "product" else Model)(env, Measure(), 2, zero_mean=kind == "zero mean")
    f, g = model.ps
    F, G = model.fields
    s = env.positive("s")
    x = env.inputs("x", 2 if kind not in ("posterior", "vfe", "fitc", "dtc") else 1)
    law, parts, p = model, [(F, x)], f
    add = [s] * 2
    if kind in ("posterior", "at the data"):
        z, v = env.inputs("z", 1), env.vector("v", 1)
        t = env.positive("t") if kind == "posterior" else None
        post = model.measure | (f(z, t), v)
        law = model.posterior([(F, z)], v, M(env, lambda i, j: t or 0, 1, 1))
        if kind == "posterior":
            p, parts = post(g), [(G, x)]
        else:
            x = z
            p, parts = post(f), [(F, x)]
            add = [0]
    elif kind in ("vfe", "fitc", "dtc"):
        z, u, v, t = env.inputs("z", 1), env.inputs("u", 1), env.vector("v", 1), env.positive("t")
        Method = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}[kind]
        post = model.measure | Method(g(u), f(z, t), v)
        law = Approximation(env, model, kind, [(G, u)], [(F, z)], v, M(env, lambda i, j: t, 1, 1))
        p, parts = post(f), [(F, x)]
        add = [0] if env.flag("no noise") else [s]
    elif kind == "no noise":
        add = [0] * 2
    elif kind == "sum":
        p, F = apply(env, model, 0, "p + q", 1, 0, 1)
        parts = [(F, x)]
    elif kind == "difference with itself":
        p, parts, add = f - f, [(F + F.times(lambda x: -1), x)], [0] * 2
    elif kind == "zero times":
        p, parts, add = 0 * f, [(F.times(lambda x: 0), x)], [0] * 2
    elif kind == "product":
        add_product(model, 0, 1)
        p, parts = model.ps[-1], [(model.fields[-1], x)]
        add = [0] * 2
    elif kind == "cross":
        p, parts, add = cross(g, f), [(G, x), (F, x)], [s] * 4
    elif kind == "tuple":
        y = env.inputs("y", 1)
        p, parts, add = cross(g, f), [(F, x), (G, y)], [s] * 3
    elif kind == "vector noise":
        add = list(env.positive_vector("sv", 2))
    mu = block([[law.mean(a, b)] for a, b in parts])
    var = [law.cov(a, a, b)[i, i] for a, b in parts for i in range(len(b))]
    n = len(var)
    var = [a + b for a, b in zip(var, add)]
    noise = M(env, lambda i: add[i], n) if kind == "vector noise" else s if add[0] is s else None
    arg = (f(x), g(parts[1][1])) if kind == "tuple" else x
    d = p(arg, noise)
    if env.flag("after the variance"):
        d.var
    if law is model:
        with env.jitter():
            check_bounds(env, d, mu, var)
    else:
        check_bounds(env, d, mu, var)
