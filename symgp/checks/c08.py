"""C08: missing observations have no influence."""

import numpy as np
from lab import B
from stheno import Measure, Normal, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ops import apply
from ..ref import M, Model, blockdiag, col, logpdf
from ..scenario import scenario
from .c06 import check_all, noise_of


def kept(env, name, n):
    """Which elements are not missing: the solver chooses."""
    return [i for i in range(n) if not env.is_missing(name, i)]


def sub(a, idx):
    """Rows and columns."""
    return a[np.array(idx, dtype=int)][:, np.array(idx, dtype=int)]


def rows(a, idx):
    return a[np.array(idx, dtype=int)]


def joint_posterior(model, parts, y, N, keep):
    """Posterior for the kept rows of the stacked data `[(field, x), ...]`.

    Written on single points, so that it does not depend on any taking of subsets of
    processes or inputs.
    """
    points = [(f, x[i : i + 1]) for f, x in parts for i in range(len(x))]
    if not keep:
        return model
    return model.posterior([points[i] for i in keep], rows(col(y), keep), sub(N, keep))


@scenario(
    "C08",
    quick=[(k, n) for k in ("none", "zero", "scalar", "vector", "matrix", "diagonal", "scalar int") for n in (1, 2)]
    + [("matrix", 3), ("vector", 3)],
    thorough=[("scalar", 3), ("none", 3), ("matrix", 4)],
    bounds="one of two correlated processes and a combination is observed at n points, any of which are "
    "missing, with noise of the given form, as a vector or a column",
)
def single(env):
    kind, n = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, v = env.inputs("z", n), env.maybe_missing(env.vector("v", n), "v")
    noise, N = noise_of(env, kind, n)
    which = env.choice("observed", [0, 2] if n < 3 else [0])
    if n < 3 and env.flag("column"):
        w = v[:, None]
    else:
        w = v
    fdd = model.ps[which](z, noise)
    post = model.measure | (fdd, w)
    keep = kept(env, "v", n)
    ref = joint_posterior(model, [(model.fields[which], z)], v, N, keep)
    check_all(env, model, post, ref, x, y)
    # The distribution itself is not changed.
    env.eq(fdd.var, model.cov(model.fields[which], model.fields[which], z) + N, "distribution")


def multi(env, kind, model):
    """Multi-output data: distribution, parts, and noise."""
    f, g, h = model.ps
    F, G, H = model.fields
    x, y = env.inputs("z0", 2), env.inputs("z1", 1)
    if kind == "cross at inputs":
        n = 4
        noise, N = noise_of(env, env.choice("noise", ["vector", "scalar"]), n, "s")
        return cross(g, f)(x, noise), [(G, x), (F, x)], N
    if kind == "cross of three":
        noise, N = noise_of(env, "matrix", 3, "s")
        return cross(h, f, g)(y, noise), [(H, y), (F, y), (G, y)], N
    if kind == "cross at distributions":
        noise, N = noise_of(env, env.choice("noise", ["vector", "none"]), 3, "s")
        return cross(f, g)((g(x), f(y)), noise), [(G, x), (F, y)], N
    if kind == "cross at one distribution":
        noise, N = noise_of(env, "vector", 2, "s")
        return cross(f, g)((g(x),), noise), [(G, x)], N
    if kind == "cross at inputs in a tuple":
        noise, N = noise_of(env, "vector", 3, "s")
        return cross(f, g)((y, g(y)), noise), [(F, y), (G, y), (G, y)], N
    if kind == "nested":
        noise, N = noise_of(env, "vector", 3, "s")
        return cross(cross(f, g), h)(y, noise), [(F, y), (G, y), (H, y)], N
    if kind == "nested right":
        noise, N = noise_of(env, "vector", 3, "s")
        return cross(h, cross(f, g))(y, noise), [(H, y), (F, y), (G, y)], N
    if kind == "inputs of two dimensions":
        x = env.inputs("z2", 2, 2)
        noise, N = noise_of(env, "vector", 4, "s")
        return cross(g, f)(x, noise), [(G, x), (F, x)], N
    raise KeyError(kind)


KINDS = [
    "cross at inputs", "cross of three", "cross at distributions", "cross at one distribution",
    "cross at inputs in a tuple", "nested", "nested right", "inputs of two dimensions",
]  # fmt: skip


@scenario(
    "C08",
    quick=[(k,) for k in KINDS],
    bounds="a Cartesian product of two or three of two correlated processes and a combination is observed at "
    "inputs or distributions, in total three or four values any of which are missing",
)
def products(env):
    (kind,) = env.params
    d = 2 if kind == "inputs of two dimensions" else None
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "c * p", 1, 0, 1)
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    fdd, parts, N = multi(env, kind, model)
    n = N.shape[0]
    v = env.maybe_missing(env.vector("v", n), "v")
    post = model.measure | (fdd, v)
    keep = kept(env, "v", n)
    ref = joint_posterior(model, parts, v, N, keep)
    # It suffices to look at some pairs: `C06` decides that all follow the same way.
    for i, (p, f) in enumerate(zip(model.ps[1:], model.fields[1:])):
        env.eq(post(p).mean(x), ref.mean(f, x), f"mean {i}")
        env.eq(post(p).kernel(x, y), ref.cov(f, f, x, y), f"kernel {i}")


@scenario(
    "C08",
    quick=[(n1, n2, k) for n1, n2 in [(1, 1), (2, 1), (1, 2)] for k in ("pairs", "obs")]
    + [(1, 1, "obs of obs"), (1, 1, "steps"), (2, 1, "steps")],
    thorough=[(2, 2, "pairs"), (2, 2, "steps")],
    bounds="n1 and n2 values of two correlated processes, any of which are missing, given at once, "
    "or one after the other",
)
def several(env):
    n1, n2, kind = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    m = model.measure
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z1, z2 = env.inputs("z1", n1), env.inputs("z2", n2)
    v1 = env.maybe_missing(env.vector("v1", n1), "v1")
    v2 = env.maybe_missing(env.vector("v2", n2), "v2")
    s1, N1 = noise_of(env, "matrix", n1, "s1")
    s2, N2 = noise_of(env, "vector", n2, "s2")
    if kind == "pairs":
        post = m.condition((g(z1, s1), v1), (f(z2, s2), v2))
    elif kind == "obs":
        post = m | Obs((g(z1, s1), v1), (f(z2, s2), v2[:, None]))
    elif kind == "obs of obs":
        # Observations again from the distribution and values that are left.
        o = Obs((g(z1, s1), v1), (f(z2, s2), v2))
        post = m | Obs(o.fdd, o.y)
    else:
        m1 = m | (g(z1, s1), v1)
        post = m1 | (m1(f)(z2, s2), v2)
    keep = kept(env, "v1", n1) + [n1 + i for i in kept(env, "v2", n2)]
    v = np.concatenate([col(v1), col(v2)], axis=0)
    ref = joint_posterior(model, [(G, z1), (F, z2)], v, blockdiag(env, [N1, N2]), keep)
    check_all(env, model, post, ref, x, y)


@scenario(
    "C08",
    quick=[(k, n) for k in ("normal", "fdd", "column", "measure", "measure pair", "obs") for n in (1, 2)]
    + [("pairs", 2), ("pairs", 3), ("cross", 2), ("fdd", 3), ("normal diagonal", 2), ("normal zero mean", 2)],
    thorough=[("normal", 3), ("pairs", 4)],
    bounds="the log-density of n values, any of which are missing, of normals, distributions of "
    "processes, pairs of processes, and Cartesian products, also asked for twice",
)
def logpdfs(env):
    kind, n = env.params
    v = env.maybe_missing(env.vector("v", n), "v")
    if kind.startswith("normal"):
        mu = env.matrix("mu", n, 1)
        if kind == "normal diagonal":
            d = env.positive_vector("d", n)
            var = B.diag(d) if not env.symbolic else M(env, lambda i, j: d[i] if i == j else 0, n, n)
            from matrix import Diagonal

            dist = Normal(mu, Diagonal(d))
        elif kind == "normal zero mean":
            var = env.psd("var", n)
            mu = mu * 0
            dist = Normal(var)
        else:
            var = env.psd("var", n)
            dist = Normal(mu, var)
        value = lambda: dist.logpdf(v)  # noqa: E731
    else:
        model = Model(env, Measure(), 2)
        f, g = model.ps
        F, G = model.fields
        m = model.measure
        if kind == "pairs":
            z1, z2 = env.inputs("z1", n - 1), env.inputs("z2", 1)
            s1, N1 = noise_of(env, "vector", n - 1, "s1")
            s2, N2 = noise_of(env, "scalar", 1, "s2")
            value = lambda: m.logpdf((g(z1, s1), v[: n - 1]), (f(z2, s2), v[n - 1 :]))  # noqa: E731
            mu, var = model.joint([(G, z1), (F, z2)])
            var = var + blockdiag(env, [N1, N2])
        elif kind == "cross":
            z = env.inputs("z", 1)
            s, N = noise_of(env, "vector", 2)
            c = cross(g, f)
            value = lambda: c(z, s).logpdf(v)  # noqa: E731
            mu, var = model.joint([(G, z), (F, z)])
            var = var + N
        else:
            z = env.inputs("z", n)
            s, N = noise_of(env, "matrix", n)
            fdd = f(z, s)
            value = {
                "fdd": lambda: fdd.logpdf(v),
                "column": lambda: fdd.logpdf(v[:, None]),
                "measure": lambda: m.logpdf(fdd, v),
                "measure pair": lambda: m.logpdf((fdd, v)),
                "obs": lambda: m.logpdf(Obs(fdd, v)),
            }[kind]
            mu, var = model.joint([(F, z)])
            var = var + N
    keep = kept(env, "v", n)
    val = value()
    if keep:
        env.eq(val, logpdf(env, rows(mu, keep), sub(var, keep), rows(col(v), keep)), "logpdf")
    else:
        env.eq(val, 0.0 * var[0, 0], "logpdf of nothing")
    env.eq(value(), val, "again")


@scenario(
    "C08",
    quick=[(c, n) for c in ("vfe", "fitc", "dtc") for n in (1, 2)] + [("vfe", "pairs"), ("fitc", "pairs"), ("dtc", "pairs")],
    bounds="sparse approximations with one inducing point on one of two processes and n values, or one "
    "value each of two processes, any of which are missing",
)
def sparse(env):
    kind, n = env.params
    cls = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}[kind]
    model = Model(env, Measure(), 2)
    f, g = model.ps
    m = model.measure
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    u = env.inputs("u", 1)
    if n == "pairs":
        z1, z2 = env.inputs("z1", 1), env.inputs("z2", 1)
        v = env.maybe_missing(env.vector("v", 2), "v")
        s = env.positive_vector("s", 2)
        obs = cls(g(u), (f(z1, s[:1]), v[:1]), (g(z2, s[1:]), v[1:]))
        keep = kept(env, "v", 2)
        pairs = [(f(z1, s[:1]), v[:1]), (g(z2, s[1:]), v[1:])]
        red = cls(g(u), *[pairs[i] for i in keep]) if keep else None
    else:
        z, v = env.inputs("z", n), env.maybe_missing(env.vector("v", n), "v")
        s = env.positive_vector("s", n)
        obs = cls(g(u), f(z, s), v)
        keep = kept(env, "v", n)
        idx = np.array(keep, dtype=int)
        red = cls(g(u), f(z[idx], s[idx]), v[idx]) if keep else None
    post = m | obs
    if not keep:
        # Without data, the posterior is the prior.
        env.eq(m.logpdf(obs), 0.0 * u[0], "objective of nothing")
        check_all(env, model, post, model, x, y, "nothing: ")
        return
    env.eq(m.logpdf(obs), m.logpdf(red), "objective")
    ref = m | red
    for i, p in enumerate(model.ps):
        env.eq(post(p).mean(x), ref(p).mean(x), f"mean {i}")
        env.eq(post(p).kernel(x, y), ref(p).kernel(x, y), f"kernel {i}")
    env.eq(post.kernels[f, g](x, y), ref.kernels[f, g](x, y), "cov")


@scenario(
    "C08",
    quick=[(k,) for k in ("posterior", "scaled", "posterior at distributions", "scaled posterior", "copy")],
    bounds="a multiple of, the posterior of, or a copy of a Cartesian product of two correlated processes is "
    "observed, any of two values are missing",
)
def derived_products(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    x, y, z = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 1)
    v = env.maybe_missing(env.vector("v", 2), "v")
    s, N = noise_of(env, "vector", 2)
    c, parts = cross(g, f), [(G, z), (F, z)]
    m, w, N0 = model.measure, [], []
    a = env.scalar("a")
    if "posterior" in kind:
        z0, v0 = env.inputs("z0", 1), env.vector("v0", 1)
        s0, n0 = noise_of(env, "scalar", 1, "s0")
        m = m | (f(z0, s0), v0)
        parts, w, N0 = [(F, z0)] + parts, [col(v0)], [n0]
        c = m(c)
    if kind == "copy":
        c = m(c)
    if "scaled" in kind:
        c = a * c
        parts = [(h.times(lambda x: a) if xx is z else h, xx) for h, xx in parts]
    arg = (g(z), f(z)) if kind == "posterior at distributions" else z
    post = m | (c(arg, s), v)
    keep = kept(env, "v", 2)
    keep = list(range(len(w))) + [len(w) + i for i in keep]
    ref = joint_posterior(model, parts, np.concatenate(w + [col(v)], axis=0), blockdiag(env, N0 + [N]), keep)
    for i, (p, h) in enumerate(zip(model.ps, model.fields)):
        env.eq(post(p).mean(x), ref.mean(h, x), f"mean {i}")
        env.eq(post(p).kernel(x, y), ref.cov(h, h, x, y), f"kernel {i}")
