"""C22: batched computation equals computation per batch element."""

import numpy as np
from lab import B
from stheno import GP, Measure, Normal, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from .. import arr
from ..ops import apply, op_names
from ..ref import M, Model, blockdiag
from ..scenario import scenario
from .c03 import PModel, add_product
from .c17 import check_affine, repeat

BATCH = 2


def stack(env, f, values):
    """The values of the elements as one batch."""
    if isinstance(values[0], (tuple, list)):
        return [stack(env, f, [v[k] for v in values]) for k in range(len(values[0]))]
    values = [arr.sa(B.dense(v)) if env.symbolic else np.asarray(B.dense(v)) for v in values]
    return np.stack(values, axis=0)


def compare(env, f, label):
    """`f(at)` computes something, where `at` takes one element of a batch, or all."""
    whole = f(lambda a: a)
    each = [f(lambda a: a[i]) for i in range(BATCH)]
    env.eq(list(whole) if isinstance(whole, tuple) else whole, stack(env, f, each), label)


VIEWS = {
    "mean": lambda d: d.mean,
    "var": lambda d: d.var,
    "var_diag": lambda d: d.var_diag,
    "mean_var": lambda d: d.mean_var,
    "marginals": lambda d: d.marginals(),
    "bounds": lambda d: d.marginal_credible_bounds(),
    "m2": lambda d: d.m2,
    "diagonalise": lambda d: d.diagonalise().mean_var,
}


def noise_at(env, kind, n, name="s"):
    """Noise, as a function of how to take elements."""
    if kind == "none":
        return lambda at: None
    if kind == "scalar":
        s = env.positive(name)
        return lambda at: s
    if kind == "vector":
        s = env.positive_vector(name, n)
        return lambda at: s
    if kind == "matrix":
        s = env.psd(name, n)
        return lambda at: s
    s = np.stack([env.psd(f"{name}{i}", n) for i in range(BATCH)], axis=0)
    return at_batch(s)


def at_batch(s):
    return lambda at: at(s)


def psds(env, name, n):
    return np.stack([env.psd(f"{name}{i}", n) for i in range(BATCH)], axis=0)


@scenario(
    "C22",
    quick=[(o, d) for d in (1, 2) for o in op_names(d)] + [("product", 1), ("product", 2), ("cross", 1), ("cross", 2), ("copy", 1)],
    bounds="every view of processes made by one operation, of products and of Cartesian products, for a batch of two sets of two "
    "inputs of d dimensions, noise of any form",
    jitter=True,
)
def views(env):
    name, d = env.params
    model = PModel(env, Measure(), 2)
    m = model.measure
    k = 2
    if name == "product":
        add_product(model, 0, 1)
    elif name == "cross":
        model.ps.append(cross(model.ps[1], model.ps[0]))
        k = 4
    elif name == "copy":
        model.ps.append(m(model.ps[1]))
    else:
        apply(env, model, 0, name, d, 0, 1)
    p, q = model.ps[-1], model.ps[0]
    x, y = env.array("x", BATCH, 2, d), env.array("y", BATCH, 1, d)
    noise = noise_at(env, env.choice("noise", ["none", "scalar", "vector", "matrix", "batch"]), k)
    for view, f in VIEWS.items():
        compare(env, lambda at: f(p(at(x), noise(at))), view)
    if name in ("select 1",):
        return  # The other process has inputs of another dimension.
    compare(env, lambda at: p.kernel(at(x), at(y)), "kernel at different inputs")
    if name not in ("select 1, 0",):
        compare(env, lambda at: m.kernels[p, q](at(x), at(y)), "covariance with another process")
        compare(env, lambda at: m.kernels[q, p](at(y), at(x)), "covariance with another process (right)")


CONDITIONS = ["single", "matrix noise", "batch noise", "noiseless", "pairs", "obs", "twice", "product", "tuple", "shared inputs", "shared data", "shared test"]


@scenario(
    "C22",
    quick=[(c, t) for c in CONDITIONS for t in ("other", "derived", "cross")],
    bounds="posteriors given batches of observations at one or two inputs, in every form, also where only the data, only the "
    "values or only the test inputs come in batches; a process, a combination and a Cartesian product at one test input",
)
def posteriors(env):
    kind, target = env.params
    model = Model(env, Measure(), 2)
    m, (f, g) = model.measure, model.ps
    if target == "derived":
        apply(env, model, 0, "p - q", 1, 0, 1)
        p = model.ps[2]
    elif target == "cross":
        p = cross(g, f)
    else:
        p = g
    x, w = env.array("x", BATCH, 1, 1), env.array("w", BATCH, 1, 1)
    n = 2 if kind in ("matrix noise", "batch noise", "single", "product") else 1
    z, v = env.array("z", BATCH, 1 if kind == "product" else n, 1), env.array("v", BATCH, n, 1)
    u, t = env.array("u", BATCH, 1, 1), env.array("t", BATCH, 1, 1)
    s = noise_at(env, {"matrix noise": "matrix", "batch noise": "batch", "noiseless": "none"}.get(kind, "scalar"), n)
    r = env.positive("r")
    keep = lambda at: (lambda a: a)  # noqa: E731
    shared_z, shared_v = env.array("z shared", 1, 1), env.array("v shared", 1, 1)

    def condition(at):
        if kind == "pairs":
            return m | ((f(at(z), s(at)), at(v)), (g(at(u), r), at(t)))
        if kind == "obs":
            return m | Obs((f(at(z), s(at)), at(v)), (g(at(u), r), at(t)))
        if kind == "twice":
            post = m | (f(at(z), s(at)), at(v))
            return post | (post(g)(at(u), r), at(t))
        if kind == "product":
            return m | (cross(f, g)(at(z), s(at)), at(v))
        if kind == "tuple":
            return m | (cross(f, g)((g(at(z)), f(at(u))), r), B.concat(at(v), at(t), axis=-2))
        if kind == "shared inputs":
            return m | (f(shared_z, s(at)), at(v))
        if kind == "shared data":
            return m | (f(shared_z, s(at)), shared_v)
        return m | (f(at(z), s(at)), at(v))

    if kind == "shared test":
        xs, ws = lambda at: shared_z, lambda at: w[0]
    else:
        xs, ws = lambda at: at(x), lambda at: at(w)
    view = "mean"
    compare(env, lambda at: condition(at)(p).mean(xs(at)), "mean") if kind not in ("shared inputs",) else None
    if kind == "shared inputs":
        # The covariance does not depend on the values.
        compare(env, lambda at: condition(at)(p)(xs(at)).mean, "mean")
    for view in ("mean_var", "marginals", "var_diag"):
        if kind == "shared test" and view == "marginals" and target == "cross":
            continue
        compare(env, lambda at: VIEWS[view](condition(at)(p)(xs(at), r)), view)
    compare(env, lambda at: condition(at)(p).kernel(xs(at), ws(at)), "kernel")
    compare(env, lambda at: condition(at).kernels[p, f](xs(at), ws(at)), "covariance with the first process")


@scenario(
    "C22",
    quick=[(k, n) for k in ("vfe", "fitc", "dtc") for n in (1, 2)] + [("vfe several", 1)],
    thorough=[("dtc several", 1), ("fitc several", 1)],
    bounds="approximate posteriors and objectives for batches of n observations and one inducing point, or of two sets of one "
    "observation each and two inducing points",
)
def pseudo(env):
    kind, n = env.params
    Method = {"v": PseudoObs, "f": PseudoObsFITC, "d": PseudoObsDTC}[kind[0]]
    model = Model(env, Measure(), 2)
    m, (f, g) = model.measure, model.ps
    z, u, x = env.array("z", BATCH, n, 1), env.array("u", BATCH, 1, 1), env.array("x", BATCH, 1, 1)
    v, s = env.array("v", BATCH, n, 1), env.positive("s")
    w, t, r = env.array("w", BATCH, 1, 1), env.array("t", BATCH, 1, 1), env.positive("r")

    def obs(at):
        if "several" in kind:
            return Method((f(at(u)), g(at(w))), (f(at(z), s), at(v)), (g(at(x), r), at(t)))
        return Method(g(at(u)), f(at(z), s), at(v))

    compare(env, lambda at: obs(at).elbo(m), "objective")
    compare(env, lambda at: (m | obs(at))(f)(at(w)).mean_var, "mean and variance")
    compare(env, lambda at: (m | obs(at))(g).kernel(at(w), at(t)), "kernel")
    compare(env, lambda at: (m | obs(at))(f).kernel.elwise(at(w)), "elwise")


@scenario(
    "C22",
    quick=[("fdd", 1), ("fdd", 2), ("columns", 2), ("measure", 1), ("pairs", 1), ("pairs", 2), ("posterior", 1), ("cross", 1), ("obs", 1), ("shared values", 2), ("batch noise", 2)],
    thorough=[("fdd", 3), ("columns", 3)],
    bounds="log-densities of batches of n values, also of several columns, jointly for several processes, and in posteriors",
)
def logpdfs(env):
    kind, n = env.params
    model = Model(env, Measure(), 2)
    m, (f, g) = model.measure, model.ps
    x, y = env.array("x", BATCH, n, 1), env.array("y", BATCH, n, 2 if kind == "columns" else 1)
    z, w = env.array("z", BATCH, 1, 1), env.array("w", BATCH, 1, 1)
    s = noise_at(env, "batch" if kind == "batch noise" else "scalar", n)
    r = env.positive("r")

    def logpdf(at):
        d = (f(at(x), s(at)), at(y))
        if kind in ("fdd", "columns", "batch noise"):
            return d[0].logpdf(d[1])
        if kind == "shared values":
            return d[0].logpdf(y[0])
        if kind == "measure":
            return m.logpdf(*d)
        if kind == "pairs":
            return m.logpdf(d, (g(at(z), r), at(w)))
        if kind == "obs":
            return m.logpdf(Obs(d, (g(at(z), r), at(w))))
        if kind == "cross":
            return cross(g, f)(at(x), s(at)).logpdf(B.concat(at(y), at(w), axis=-2))
        return (m | (g(at(z), r), at(w))).logpdf(*d)

    compare(env, logpdf, "log-density")


@scenario(
    "C22",
    quick=[(k, num) for k in ("fdd", "cross", "measure", "posterior", "normal", "normal noise", "zero mean", "diagonal") for num in (1, 2)],
    bounds="one and two samples for a batch: every element has the mean and the variance of that element alone, and they are independent",
)
def samples(env):
    kind, num = env.params
    model = Model(env, Measure(), 2, zero_mean=kind == "zero mean")
    m, (f, g) = model.measure, model.ps
    n = 1 if kind in ("posterior", "cross", "measure") else 2
    x, z, v, s = env.array("x", BATCH, n, 1), env.array("z", BATCH, 1, 1), env.array("v", BATCH, 1, 1), env.positive("s")
    mu, var, d = env.array("mu", BATCH, n, 1), psds(env, "var", n), env.positive_vector("d", BATCH * n)

    def dist(at):
        if kind in ("fdd", "zero mean"):
            return f(at(x), s)
        if kind == "cross":
            return cross(g, f)(at(x), s)
        if kind == "posterior":
            return (m | (f(at(z), s), at(v)))(g)(at(x), s)
        if kind == "diagonal":
            return Normal(at(mu), at(var)).diagonalise()
        return Normal(at(mu), at(var))

    if kind == "measure":

        def run(state):
            res = m.sample(state, num, f(x, s), g(z, s))
            return [np.concatenate([res[1], res[2]], axis=-2)]

        joint = lambda at: m(Obs((f(at(x), s), at(x)), (g(at(z), s), at(z))).fdd)  # noqa: E731
        ds = [joint(lambda a: a[i]) for i in range(BATCH)]
    else:
        kw = {"noise": s} if kind == "normal noise" else {}

        def run(state):
            return [dist(lambda a: a).sample(state, num, **kw)[1]]

        ds = [dist(lambda a: a[i]) for i in range(BATCH)]
    means, covs = [], []
    for e in ds:
        K = B.dense(e.var)
        k = K.shape[0]
        if kind == "normal noise":
            K = M(env, lambda i, j: K[i, j] + (s if i == j else 0), k, k)
        a, b = repeat(env, M(env, lambda i, j: B.dense(e.mean)[i, j], k, 1), K, num)
        means.append(a)
        covs.append(b)
    check_affine(env, run, np.concatenate(means, axis=0), blockdiag(env, covs), [(BATCH, k, num)])


NORMALS = {
    "arithmetic": lambda env, a, b, c, A: (2 * a - b + c).mean_var,
    "scaling": lambda env, a, b, c, A: (-(c * a) / 2).mean_var,
    "lmatmul": lambda env, a, b, c, A: a.lmatmul(A).mean_var,
    "rmatmul": lambda env, a, b, c, A: a.rmatmul(A).mean_var,
    "kl": lambda env, a, b, c, A: a.kl(b),
    "entropy": lambda env, a, b, c, A: a.entropy(),
    "m2": lambda env, a, b, c, A: a.m2,
    "bounds": lambda env, a, b, c, A: a.marginal_credible_bounds(),
    "diagonalise": lambda env, a, b, c, A: a.diagonalise().mean_var,
    "logpdf of mean": lambda env, a, b, c, A: a.logpdf(b.mean),
}


@scenario(
    "C22",
    quick=[(o, f, n) for o in NORMALS for f in ("full", "shared variance", "shared mean", "zero mean") for n in (1, 2)],
    bounds="normals of dimension n of which the means, the variances or both come in batches",
)
def normals(env):
    op, form, n = env.params
    mu, var = env.array("mu", BATCH, n, 1), psds(env, "var", n)
    nu, war = env.array("nu", BATCH, n, 1), psds(env, "war", n)
    c, A = env.scalar("c"), env.matrix("A", n, n)

    def normal(at, m, v):
        if form == "shared variance":
            v = v[0]
        else:
            v = at(v)
        if form == "shared mean":
            m = m[0]
        elif form == "zero mean":
            return Normal(v)
        else:
            m = at(m)
        return Normal(m, v)

    # What does not depend on an element does not need to be repeated.
    if form == "shared variance" and op in ("entropy", "arithmetic", "scaling", "lmatmul", "rmatmul", "diagonalise", "bounds"):
        pick = (lambda r: r) if op in ("entropy",) else (lambda r: r[0])
        if op == "entropy":
            env.eq(normal(lambda a: a, mu, var).entropy(), Normal(var[0]).entropy(), "entropy")
            return
        compare(env, lambda at: pick(NORMALS[op](env, normal(at, mu, var), normal(at, nu, war), c, A)), op)
        return
    if form in ("shared mean", "zero mean") and op in ("arithmetic", "scaling", "lmatmul", "rmatmul", "diagonalise", "bounds"):
        compare(env, lambda at: NORMALS[op](env, normal(at, mu, var), normal(at, nu, war), c, A)[1 if op != "bounds" else 2], op)
        return
    compare(env, lambda at: NORMALS[op](env, normal(at, mu, var), normal(at, nu, war), c, A), op)


@scenario("C22", quick=[(1,)], thorough=[(2,)], bounds="Wasserstein distances of batches of normals of one dimension")
def distance(env):
    (n,) = env.params
    mu, nu = env.array("mu", BATCH, n, 1), env.array("nu", BATCH, n, 1)
    d, e = env.positive_vector("d", BATCH * n), env.positive_vector("e", BATCH * n)
    diag = lambda d: np.stack([M(env, lambda i, j: d[b * n + i] if i == j else 0, n, n) for b in range(BATCH)], axis=0)  # noqa: E731
    var, war = diag(d), diag(e)
    compare(env, lambda at: Normal(at(mu), at(var)).w2(Normal(at(nu), at(war))), "distance")
