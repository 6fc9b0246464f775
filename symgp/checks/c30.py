"""C30: requests without meaning are refused."""

import numpy as np
from lab import B
from matrix import Constant, Dense, Diagonal, LowRank, Zero
from stheno import GP, Measure, Normal, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ref import M, Model, logpdf
from ..scenario import scenario
from .c10 import CLASSES
from .c12 import check_law, check_prior
from .c15 import FORMS, normal_of


def unchanged(env, model, x, y):
    """All laws are as before, and the processes can be used."""
    m = model.measure
    check_prior(env, model, x, y, "afterwards ")
    p, q = model.ps[:2]
    f, g = model.fields[:2]
    n = len(m.ps)
    env.eq((p + q)(x).var, model.cov(f + g, f + g, x), "sum afterwards")
    env.true(len(m.ps) == n + 1, "processes of the measure afterwards")
    t, z, v = env.positive("t after"), env.inputs("z after", 1), env.vector("v after", 1)
    post, law = m | (p(z, t), v), model.posterior([(f, z)], v, M(env, lambda i, j: t, 1, 1))
    check_law(env, model, post, law, x, y, "posterior afterwards ", pairs=[(0, 1)])


VALUES = ["columns", "row", "batch", "column and missing", "structured"]
WAYS = ["pair", "two", "pairs", "Obs", "Obs pairs", "GP", "posterior", "vfe", "fitc", "dtc", "pseudo pairs", "inducing pairs"]


@scenario(
    "C30",
    quick=[(w, v) for w in WAYS for v in VALUES],
    bounds="observed values that are not one column, for 2 or 3 points, with up to 3 columns, in every form of observations: "
    "refused before anything is changed",
)
def values(env):
    way, form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    n, k = env.choice("n", [2, 3]), env.choice("columns", [2, 3])
    z, s = env.inputs("z", n), env.positive("s")
    Y = env.matrix("Y", n, k)
    if form == "row":
        Y = env.matrix("row", 1, k)
    elif form == "batch":
        Y = Y[None]
    elif form == "column and missing":
        Y = env.maybe_missing(Y, "Y")
    elif form == "structured":
        Y = Dense(Y)
    good, u = env.vector("v", 1), env.inputs("u", 1)
    data, other = (p(z, s), Y), (q(u, s), good)
    if form == "structured" and way in ("pairs", "Obs pairs", "pseudo pairs", "GP", "two"):
        # Only arrays are accepted there.
        way = "Obs"
    real = {
        "pair": lambda: m | data,
        "two": lambda: m.condition(*data),
        "pairs": lambda: m | (other, data),
        "Obs": lambda: Obs(*data),
        "Obs pairs": lambda: Obs(data, other),
        "GP": lambda: p | data,
        "posterior": lambda: (m | other) | data,
        "vfe": lambda: PseudoObs(p(u), *data),
        "fitc": lambda: PseudoObsFITC(q(u), *data),
        "dtc": lambda: PseudoObsDTC(p(u), *data),
        "pseudo pairs": lambda: PseudoObs(p(u), other, data),
        "inducing pairs": lambda: PseudoObs((p(u), q(u)), *data),
    }[way]
    env.raises(Exception, real, "values that are not a column")
    unchanged(env, model, x, y)


@scenario(
    "C30",
    quick=[(w, k) for w in ["exact", "vfe", "fitc", "dtc", "product", "logpdf"] for k in ("short", "long", "short and missing", "long and missing")],
    bounds="more or fewer values than points (2 or 3 values for 3 or 2 points), possibly with missing ones: refused at the latest when "
    "the posterior mean or the log-density is asked for; afterwards everything else can be used",
)
def lengths(env):
    way, form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    n, k = (3, 2) if form.startswith("short") else (2, 3)
    v = env.vector("v", k)
    if form.endswith("missing"):
        v = env.maybe_missing(v, "v")
    z, s = env.inputs("z", n), env.positive("s")
    if way == "product":
        # The number of points of the product is that of inputs, of which each has two values.
        d = cross(p, q)(env.inputs("w", 2), s)
    else:
        d = p(z, s)
    if way == "logpdf":
        env.raises(Exception, lambda: m.logpdf(d, v), "log-density under the measure")
        env.raises(Exception, lambda: d.logpdf(v), "log-density")
        env.raises(Exception, lambda: m.logpdf((d, v), (q(x, s), env.vector("w", 1))), "joint log-density")
    elif way in ("exact", "product"):
        env.raises(Exception, lambda: (m | (d, v)).means[q](x), "posterior mean")
    else:
        env.raises(Exception, lambda: (m | CLASSES[way](q(x), d, v)).means[p](x), "posterior mean")
        env.raises(Exception, lambda: CLASSES[way](q(x), d, v).elbo(m), "objective")
    if way in CLASSES:
        check_prior(env, model, x, y, "afterwards ")
    else:
        unchanged(env, model, x, y)


SPARSE_NOISES = ["none", "matrix", "Dense", "constant", "low rank", "Zero", "one of two"]


@scenario(
    "C30",
    quick=[(w, n) for w in ("vfe", "fitc", "dtc") for n in SPARSE_NOISES],
    bounds="sparse approximations with noise that is not diagonal, for 2 points, refused whatever is asked for, for any two "
    "requests",
)
def noises(env):
    method, form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, u, v = env.inputs("z", 2), env.inputs("u", 1), env.vector("v", 2)
    a, w = env.positive("a"), env.matrix("w", 2, 1)
    noise = {
        "none": lambda: None,
        "matrix": lambda: env.psd("S", 2),
        "Dense": lambda: Dense(env.psd("S", 2)),
        "constant": lambda: Constant(a, 2, 2),
        "low rank": lambda: LowRank(left=w),
        "Zero": lambda: Zero(float, 2, 2),
        "one of two": lambda: env.psd("S", 2),
    }[form]()
    if form == "one of two":
        obs = CLASSES[method](p(u), (q(y, a), v[:1]), (p(z, noise), v))
    else:
        obs = CLASSES[method](p(u), p(z, noise), v)
    post = m | obs
    requests = {
        "mean": lambda: post.means[q](x),
        "kernel": lambda: post.kernels[p](x),
        "cov": lambda: post.kernels[p, q](x, y),
        "objective": lambda: obs.elbo(m),
        "log-density": lambda: m.logpdf(obs),
        "fdd": lambda: post(p)(x).mean,
    }
    for i in range(2):
        r = env.choice(f"request {i}", list(requests))
        env.raises(Exception, requests[r], r)
    check_law(env, model, m, model, x, y, "afterwards ", pairs=[(0, 1)])


@scenario(
    "C30",
    quick=["indices", "floats", "wrong length", "product", "posterior", "sizes"],
    bounds="subsets of distributions at 3 points by indices or numbers rather than by a mask, or by a mask of another length; sizes of noise "
    "that do not match the number of points",
)
def subsets(env):
    form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y, z = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 3)
    s = env.positive_vector("s", 3)
    d = p(z, s)
    if form == "product":
        d = cross(p, q)(z)
    elif form == "posterior":
        d = (m | (q(x, s[0]), env.vector("v", 1)))(p)(z, s)
    if form == "sizes":
        k = env.choice("k", [2, 4])
        noise = {
            "vector": lambda: env.positive_vector("noise", k),
            "matrix": lambda: env.psd("noise", k),
            "diagonal": lambda: Diagonal(env.positive_vector("noise", k)),
            "rectangular": lambda: env.matrix("noise", k, 3),
        }[env.choice("noise", ["vector", "matrix", "diagonal", "rectangular"])]()

        def view(what):
            d = p(z, noise)
            if what == "logpdf":
                return d.logpdf(env.vector("v", 3))
            if what == "sample":
                return d.sample(env.random_state("eps"))
            return d.marginals() if what == "marginals" else getattr(d, what)

        what = env.choice("what", ["var", "mean_var", "var_diag", "marginals", "sample", "logpdf"])
        if not (what in ("var_diag", "marginals") and B.shape(noise)[-1] == 3):
            env.raises(Exception, lambda: view(what), what)
        else:
            env.true(True, "the diagonal of a rectangular matrix")
    else:
        index = {
            "indices": [[0], [0, 1], [2, 0, 1], [0, 1, 1]],
            "floats": [[0.0, 1.0, 1.0], [1.0]],
            "wrong length": [[True, False], [True], [True, False, True, False]],
            "product": [[0, 1, 1, 0, 1, 0], [0, 5], [5]],
            "posterior": [[0, 2], [True, False], [1.0, 0.0, 1.0]],
        }[form]
        i = env.choice("index", range(len(index)))
        env.raises(Exception, lambda: B.take(d, np.array(index[i])), "subset")
    unchanged(env, model, x, y)


@scenario(
    "C30",
    quick=["views", "operations", "mixed left", "mixed right", "lookup", "after failure"],
    bounds="a process that was never attached to a measure, a name that does not exist, a process without a name",
)
def unattached(env):
    form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    e = GP()
    if form == "views":
        for what in ["measure", "mean", "kernel", "name", "stationary"]:
            env.raises(Exception, lambda: getattr(e, what), what)
        env.raises(Exception, lambda: e(x), "call")
    elif form == "operations":
        r = {
            "+": lambda: (e + env.scalar("c"))(x),
            "*": lambda: (2 * e)(x),
            "shift": lambda: e.shift(1).mean,
            "diff": lambda: e.diff().kernel,
            "+ itself": lambda: e + e,
            "cross": lambda: cross(e, e),
        }[env.choice("operation", ["+", "*", "shift", "diff", "+ itself", "cross"])]
        env.raises(Exception, r, "operation")
    elif form == "lookup":
        p.name = "p"
        for r in [lambda: m["q"], lambda: q.name, lambda: m[q], lambda: m[e], lambda: m(e), lambda: m.means[e], lambda: m.kernels[p, e]]:
            env.raises(Exception, r, "lookup")
        env.true(m["p"] is p, "name")
    else:
        left, right = (e, p) if form == "mixed left" else (p, e)
        r = {
            "+": lambda: left + right,
            "-": lambda: left - right,
            "*": lambda: left * right,
            "cross": lambda: cross(left, right),
            "cross of three": lambda: cross(left, q, right),
        }[env.choice("operation", ["+", "-", "*", "cross", "cross of three"])]
        env.raises(Exception, r, "operation")
        if form == "after failure":
            # The process can still be attached.
            r = m.sum(e, p, q)
            env.true(r is e and e.measure is m, "attached")
            f, g = model.fields
            env.eq(e(x).var, model.cov(f + g, f + g, x), "var")
    if len(m.ps) == 2:
        unchanged(env, model, x, y)


@scenario(
    "C30",
    quick=["elwise", "elwise product", "ambiguous", "processes", "processes and normals"],
    bounds="covariances at pairs of unequal numbers of inputs, sizes that cannot be known, and operands that processes cannot be combined "
    "with; up to 3 points",
)
def evaluations(env):
    form = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    a, b = env.inputs("a", 2), env.inputs("b", 3)
    if form == "elwise":
        for k, label in [(p.kernel, "kernel"), (m.kernels[p, q], "covariance")]:
            env.raises(Exception, lambda: k.elwise(a, b), label)
            env.raises(Exception, lambda: k.elwise((a, b), (b,)), label + " at tuples of different sizes")
            env.raises(Exception, lambda: k.elwise((a, b), b), label + " at a tuple and an input")
            env.raises(Exception, lambda: k.elwise((a, b), (b, a)), label + " at tuples of different inputs")
    elif form == "elwise product":
        P = cross(p, q)
        r = {
            "inputs": lambda: P.kernel.elwise(a, b),
            "tuples": lambda: P.kernel.elwise((p(a), q(b)), (p(a),)),
            "fdd and input": lambda: P.kernel.elwise(p(a), a),
            "input and fdd": lambda: P.kernel.elwise(b, q(a)),
            "fdds": lambda: P.kernel.elwise(p(a), q(b)),
            "tuple and input": lambda: P.kernel.elwise((p(a), q(b)), b),
            "covariance": lambda: m.kernels[P, p].elwise(b, b),
        }
        env.raises(Exception, r[env.choice("arguments", list(r))], "elementwise covariance of a product")
        unchangeable = cross(p, q)(x)
        f, g = model.fields
        env.eq(unchangeable.var[0, 1] if not hasattr(unchangeable.var, "mat") else unchangeable.var.mat[0, 1], model.cov(f, g, x)[0, 0], "var")
    elif form == "ambiguous":
        from stheno.mo import infer_size

        P = cross(p, q)
        k = m.kernels[P, p]
        env.raises(Exception, lambda: infer_size(k, a), "size of a covariance with a product")
        env.raises(Exception, lambda: infer_size(k, (a, b)), "size of a covariance with a product at a tuple")
        env.true(infer_size(P.kernel, a) == 4 and infer_size(p.kernel, a) == 2, "sizes that are known")
    else:
        dist, _, _ = normal_of(env, "dense", 2)
        r = {
            "p / q": lambda: p / q,
            "1 / p": lambda: 1 / p,
            "p ** 2": lambda: p**2,
            "p + None": lambda: p + None,
            "p - None": lambda: p - None,
            "p * text": lambda: p * "2",
            "p + list": lambda: p + [1, 2],
            "p | y": lambda: p | env.vector("v", 2),
            "text of number": lambda: p.__class__(env.kernel("k"), measure=m, name=3),
        }
        if form == "processes and normals":
            r = {
                "p + N": lambda: p + dist,
                "N + p": lambda: dist + p,
                "p * N": lambda: p * dist,
                "N - p": lambda: dist - p,
                "N | p": lambda: p | dist,
                "p(x) + p": lambda: p(x) + p,
                "p + p(x)": lambda: p + p(x),
            }
        env.raises(Exception, r[env.choice("operands", list(r))], "operands")
    if form.startswith("processes"):
        unchanged(env, model, x, y)


@scenario(
    "C30",
    quick=[(f, k) for f in FORMS if f not in ("Zero", "lazy pair") for k in ("dimensions", "operands")],
    bounds="normals of dimensions 2 and 3, or with values or matrices of another dimension; operands without meaning",
)
def normals(env):
    form, kind = env.params
    dist, mu, var = normal_of(env, form, 2)
    other, _, _ = normal_of(env, env.choice("other", ["dense", "diagonal", "lazy"]), 3, "o")
    A = env.matrix("A", 3, 3)
    if kind == "dimensions":
        r = {
            "kl": lambda: dist.kl(other),
            "reverse kl": lambda: other.kl(dist),
            "w2": lambda: dist.w2(other),
            "sum": lambda: (dist + other).mean_var,
            "difference": lambda: (other - dist).mean_var,
            "vector": lambda: (dist + env.matrix("c", 3, 1)).mean,
            "logpdf": lambda: dist.logpdf(env.vector("c", 3)),
            "logpdf of columns": lambda: dist.logpdf(env.matrix("c", 3, 2)),
            "logpdf with missing": lambda: dist.logpdf(env.maybe_missing(env.vector("c", 3), "c")),
            "lmatmul": lambda: dist.lmatmul(A).mean_var,
            "rmatmul": lambda: dist.rmatmul(A).mean_var,
        }
    else:
        r = {
            "N * N": lambda: dist * dist,
            "N / N": lambda: dist / dist,
            "1 / N": lambda: 1 / dist,
            "N + None": lambda: dist + None,
            "N * text": lambda: dist * "2",
            "kl of an array": lambda: dist.kl(A),
            "w2 of a number": lambda: dist.w2(1),
        }
    env.raises(Exception, r[env.choice("request", list(r))], "request")
    env.eq(dist.mean, mu, "mean")
    env.eq(dist.var, var, "var")
    v = env.vector("v", 2)
    if form == "dense":
        env.eq(dist.logpdf(v), logpdf(env, mu, var, v[:, None]), "logpdf")
