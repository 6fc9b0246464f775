"""C09: log-densities are exact, jointly and by the chain rule."""

import itertools

import numpy as np
from lab import B
from matrix import Dense, Diagonal
from stheno import Measure, Normal, Obs, cross

from ..ops import apply, op_names
from ..ref import M, Model, blockdiag, col, inv, logpdf
from ..scenario import scenario
from .c06 import noise_of


def diag(env, d):
    return M(env, lambda i, j: d[i] if i == j else 0, len(d), len(d))


def columns(env, mu, K, Y):
    """Log-densities of the columns."""
    vals = [logpdf(env, mu, K, Y[:, j : j + 1]) for j in range(Y.shape[1])]
    return M(env, lambda j: vals[j], len(vals))


NORMALS = [(k, n, c) for k in ("dense", "Dense", "diagonal", "zero mean", "lazy", "scalar") for n in (1, 2) for c in (0, 1, 2)]


@scenario(
    "C09",
    quick=[p for p in NORMALS if p[0] != "scalar" or p[1] == 1] + [("dense", 3, 0), ("dense", 2, 3)],
    thorough=[("dense", 3, 2), ("diagonal", 4, 2), ("lazy", 3, 1)],
    bounds="a normal of dimension n with a variance of the given form; the values are a vector (0), or "
    "a matrix with the given number of columns; asked twice",
)
def normal(env):
    kind, n, c = env.params
    mu = env.matrix("mu", n, 1)
    var = env.psd("var", n)
    if kind == "diagonal":
        d = env.positive_vector("d", n)
        var, dist = diag(env, d), Normal(mu, Diagonal(d))
    elif kind == "Dense":
        dist = Normal(Dense(mu), Dense(var))
    elif kind == "zero mean":
        dist, mu = Normal(var), mu * 0
    elif kind == "lazy":
        dist = Normal(lambda: mu, lambda: var)
    elif kind == "scalar":
        v = env.positive("v")
        dist = Normal(mu, v * np.ones((1, 1)))
        var = M(env, lambda i, j: v, 1, 1)
    else:
        dist = Normal(mu, var)
    Y = env.matrix("Y", n, max(c, 1))
    value = dist.logpdf(Y[:, 0] if c == 0 else Y)
    exp = columns(env, mu, var, Y)
    env.eq(value, exp[0] if c <= 1 else exp, "logpdf")
    env.eq(dist.logpdf(Y[:, 0] if c == 0 else Y), value, "again")
    if kind == "lazy":
        env.eq(dist.mean, mu, "mean")
        env.eq(dist.var, var, "var")


FORMS = ["fdd", "measure", "pair", "list", "obs", "moved", "other process"]


@scenario(
    "C09",
    quick=[(f, k) for f in FORMS for k in ("none", "scalar", "vector", "matrix")] + [("fdd", "diagonal"), ("obs", "scalar int"), ("measure", "zero")],
    bounds="a process and a combination of two correlated processes at 2 points with noise of the given form",
)
def process(env):
    form, kind = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    apply(env, model, 0, "c - p", 1, 0, 1)
    apply(env, model, 1, "p + q", 1, 2, 1)
    which = 1 if form == "other process" else env.choice("which", [0, 3])
    x, y = env.inputs("x", 2), env.vector("y", 2)
    noise, N = noise_of(env, kind, 2)
    p = model.ps[which]
    fdd = p(x, noise)
    if env.flag("variance first"):
        fdd.var
    value = {
        "fdd": lambda: fdd.logpdf(y),
        "measure": lambda: m.logpdf(fdd, y),
        "pair": lambda: m.logpdf((fdd, y)),
        "list": lambda: m.logpdf((fdd, y[:, None])),
        "obs": lambda: m.logpdf(Obs(fdd, y)),
        "moved": lambda: m(fdd).logpdf(y),
        "other process": lambda: m(p)(x, noise).logpdf(y),
    }[form]()
    mu, K = model.joint([(model.fields[which], x)])
    env.eq(value, logpdf(env, mu, K + N, y), "logpdf")


@scenario(
    "C09",
    quick=[(w, sz, f) for w, sz in [((0, 1), (1, 1)), ((1, 0), (2, 1)), ((0, 0), (1, 1)), ((2, 0), (1, 2))] for f in ("pairs", "reversed", "obs", "combined")]
    + [((0, 1, 2), (1, 1, 1), "pairs"), ((2, 0, 1), (1, 1, 1), "obs"), ((0, 1), (1, 1), "cross"), ((1, 0), (1, 1), "cross at distributions")],
    thorough=[((0, 1), (2, 2), "pairs"), ((2, 1, 0), (2, 1, 1), "obs")],
    bounds="values of two or three out of two correlated processes and one derived process, at the given numbers of points, in several "
    "forms and orders; noise of different forms",
)
def joint(env):
    which, sizes, form = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    apply(env, model, 0, "h * p", 1, 0, 1)
    kinds = ["vector", "scalar", "matrix"]
    pairs, obs, ys, Ns = [], [], [], []
    for k, (i, n) in enumerate(zip(which, sizes)):
        x, y = env.inputs(f"x{k}", n), env.vector(f"y{k}", n)
        if form == "cross":
            x = env.inputs("x0", n)
        noise, N = noise_of(env, kinds[k], n, f"s{k}")
        pairs.append((model.ps[i](x, noise), y))
        obs.append((model.fields[i], x))
        ys.append(col(y))
        Ns.append(N)
    y, N = np.concatenate(ys, axis=0), blockdiag(env, Ns)
    if form == "pairs":
        value = m.logpdf(*pairs)
    elif form == "reversed":
        value = m.logpdf(*pairs[::-1])
    elif form == "obs":
        value = m.logpdf(Obs(*pairs))
    elif form == "combined":
        from stheno import combine

        value = m.logpdf(*combine(*pairs))
    elif form == "cross":
        c = cross(*[model.ps[i] for i in which])
        value = c(obs[0][1], N).logpdf(y)
    else:
        c = cross(*[model.ps[i] for i in which])
        value = m.logpdf(c(tuple(model.ps[i](x) for i, (_, x) in zip(which, obs)), N), y)
    mu, K = model.joint(obs)
    env.eq(value, logpdf(env, mu, K + N, y), "logpdf")


@scenario(
    "C09",
    quick=[(w, sz, f) for w, sz in [((0, 1), (1, 1)), ((1, 1), (1, 1)), ((2, 0), (1, 1)), ((0, 1), (2, 1)), ((0, 1), (1, 2))] for f in ("posterior fdd", "moved", "pair", "process", "obs", "posterior obs")],
    thorough=[((0, 1), (2, 2), "posterior fdd"), ((2, 1), (2, 1), "pair")],
    bounds="the log-density of two sets of values equals that of the first plus that of the second under the "
    "posterior; two correlated processes and a combination; n1 and n2 points; noise of different forms",
)
def chain_rule(env):
    which, sizes, form = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    apply(env, model, 0, "p + q", 1, 0, 1)
    ds = []
    for k, (i, n) in enumerate(zip(which, sizes)):
        noise, N = noise_of(env, ["vector", "matrix"][k], n, f"s{k}")
        ds.append((i, env.inputs(f"x{k}", n), env.vector(f"y{k}", n), noise, N))
    (i, x1, y1, s1, N1), (j, x2, y2, s2, N2) = ds
    f, g = model.ps[i], model.ps[j]
    first = m.logpdf(f(x1, s1), y1)
    post = m | (f(x1, s1), y1)
    if form == "posterior fdd":
        second = post(g)(x2, s2).logpdf(y2)
    elif form == "moved":
        second = post(g(x2, s2)).logpdf(y2)
    elif form == "pair":
        second = post.logpdf((g(x2, s2), y2))
    elif form == "obs":
        second = post.logpdf(Obs(g(x2, s2), y2))
    elif form == "posterior obs":
        second = post.logpdf(Obs(post(g)(x2, s2), y2))
    else:
        second = post.logpdf(g(x2, s2), y2)
    # The second term by itself.
    ref = model.posterior([(model.fields[i], x1)], y1, N1)
    G = model.fields[j]
    env.eq(second, logpdf(env, ref.mean(G, x2), ref.cov(G, G, x2) + N2, y2), "under the posterior")
    both = m.logpdf((f(x1, s1), y1), (g(x2, s2), y2))
    mu, K = model.joint([(model.fields[i], x1), (G, x2)])
    exp = logpdf(env, mu, K + blockdiag(env, [N1, N2]), np.concatenate([col(y1), col(y2)], axis=0))
    env.eq(both, exp, "joint")
    env.eq(first + second, exp, "chain rule")


@scenario(
    "C09",
    quick=[(p,) for p in itertools.permutations(range(3))],
    bounds="three single values of two correlated processes: the sum of the three conditional log-densities in any "
    "order, and the joint one with the observations in any order",
)
def chain_of_three(env):
    (order,) = env.params
    model = Model(env, Measure(), 2)
    ds = []
    for k, i in enumerate((0, 1, 0)):
        noise, N = noise_of(env, "scalar", 1, f"s{k}")
        ds.append((i, env.inputs(f"x{k}", 1), env.vector(f"y{k}", 1), noise, N))
    m, total = model.measure, 0
    for k in order:
        i, x, y, s, _ = ds[k]
        d = m(model.ps[i])(x, s)
        total = total + m.logpdf(d, y)
        m = m | (d, y)
    mu, K = model.joint([(model.fields[i], x) for i, x, *_ in ds])
    exp = logpdf(env, mu, K + blockdiag(env, [N for *_, N in ds]), np.concatenate([col(y) for _, _, y, _, _ in ds], axis=0))
    env.eq(total, exp, "chain rule")
    pairs = [(model.ps[ds[k][0]](ds[k][1], ds[k][3]), ds[k][2]) for k in order]
    env.eq(model.measure.logpdf(*pairs), exp, "joint")
    env.eq(model.measure.logpdf(Obs(*pairs)), exp, "observations")


@scenario(
    "C09",
    quick=[(2, 2), (2, 3), (1, 2)],
    bounds="columns of values of a distribution of a process: n points, c columns; and inputs of two dimensions",
)
def process_columns(env):
    n, c = env.params
    d = 2 if n == 1 else None
    model = Model(env, Measure(), 2)
    x, Y = env.inputs("x", n, d), env.matrix("Y", n, c)
    noise, N = noise_of(env, "vector", n)
    fdd = model.ps[1](x, noise)
    mu, K = model.joint([(model.fields[1], x)])
    exp = columns(env, mu, K + N, Y)
    env.eq(fdd.logpdf(Y), exp, "fdd")
    env.eq(model.measure.logpdf(fdd, Y), exp, "measure")
    env.eq(model.measure.logpdf((fdd, Y)), exp, "pair")
    env.eq(model.measure.logpdf((fdd, Y), (model.ps[0](x[:1], 1), Y[:1])), both_columns(env, model, x, Y, N), "pairs")


def both_columns(env, model, x, Y, N):
    mu, K = model.joint([(model.fields[1], x), (model.fields[0], x[:1])])
    N = blockdiag(env, [N, M(env, lambda i, j: 1, 1, 1)])
    return columns(env, mu, K + N, np.concatenate([Y, Y[:1]], axis=0))
