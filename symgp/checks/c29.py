"""C29: the structure of matrices never changes values."""

import numpy as np
from matrix import Constant, Dense, Diagonal, Kronecker, LowRank, Woodbury, Zero
from mlkernels import Delta, Linear, OneKernel, ZeroKernel, ZeroMean
from stheno import GP, Measure, Normal, cross

from .. import sym
from ..kernels import coords
from ..ops import apply
from ..ref import Field, M, Model, block, logpdf
from ..scenario import scenario
from .c05 import VIEWS, assume_positive, view
from .c06 import check_all, noise_of
from .c09 import columns
from .c10 import Approximation, CLASSES
from .c15 import act, check, diag
from .c16 import entropy, kl
from .c17 import check_affine, repeat

# Normals


DEFINITE = ["diagonal", "woodbury", "woodbury of two", "kronecker", "Dense"]
SINGULAR = ["low rank", "low rank with middle", "constant", "zero"]
MEANS = ["column", "Dense", "constant", "low rank", "zero", "none"]


def structured(env, form, n, mean="column", tag=""):
    """A normal with a structured mean and variance, and those without structure."""
    mu = env.matrix("mu" + tag, n, 1)
    a, u = env.scalar("a" + tag), env.matrix("u" + tag, n, 1)
    b = env.positive("b" + tag)
    m, mu = {
        "column": lambda: (mu, mu),
        "Dense": lambda: (Dense(mu), mu),
        "constant": lambda: (Constant(a, n, 1), M(env, lambda i, j: a, n, 1)),
        "low rank": lambda: (LowRank(left=u, right=M(env, lambda i, j: a, 1, 1)), a * u),
        "zero": lambda: (Zero(float, n, 1), 0 * mu),
        "none": lambda: (None, 0 * mu),
    }[mean]()
    d, L, k = env.positive_vector("d" + tag, n), env.matrix("L" + tag, n, 1), env.psd("k" + tag, n)
    c = env.positive("c" + tag)
    v, var = {
        "Dense": lambda: (Dense(k), k),
        "diagonal": lambda: (Diagonal(d), diag(env, d)),
        "woodbury": lambda: (Woodbury(Diagonal(d), LowRank(L)), diag(env, d) + L @ L.T),
        "woodbury of two": lambda: (
            Woodbury(Diagonal(d), LowRank(np.concatenate([L, u], axis=1))),
            diag(env, d) + L @ L.T + u @ u.T,
        ),
        "kronecker": lambda: (Kronecker(Dense(k), Dense(M(env, lambda i, j: c, 1, 1))), c * k),
        "low rank": lambda: (LowRank(L), L @ L.T),
        "low rank with middle": lambda: (LowRank(L, L, M(env, lambda i, j: b, 1, 1)), b * (L @ L.T)),
        "constant": lambda: (Constant(b, n, n), M(env, lambda i, j: b, n, n)),
        "zero": lambda: (Zero(float, n, n), M(env, lambda i, j: 0, n, n)),
    }[form]()
    return (Normal(v) if m is None else Normal(m, v)), mu, var


OPS = ["N + c", "v + N", "c - N", "v - N", "c * N", "-N", "N / int", "N * v", "N + N", "N - N", "lmatmul", "rmatmul", "lmatmul rectangular"]


@scenario(
    "C29",
    quick=[(f, m) for f in DEFINITE + SINGULAR for m in MEANS],
    bounds="normals of dimension 1 and 2 with structured means and variances: every view, and a view after an operation",
)
def normals(env):
    form, mean = env.params
    n = env.choice("dimension", [1, 2])
    dist, mu, var = structured(env, form, n, mean)
    op = env.choice("operation", ["none"] + OPS)
    if op in ("N + N", "N - N"):
        other, mo, vo = structured(env, env.choice("other", DEFINITE + SINGULAR), n, "column", "o")
        dist, mu, var = (dist + other if op == "N + N" else dist - other), (mu + mo if op == "N + N" else mu - mo), var + vo
    elif op != "none":
        dist, mu, var = act(env, op, dist, mu, var, 0)
    check(env, dist, mu, var, "mean")


@scenario(
    "C29",
    quick=[(f, m) for f in DEFINITE for m in MEANS],
    bounds="log-densities of vectors and matrices, entropies and divergences of normals of dimension 1 and 2 with structured means "
    "and variances",
)
def functionals(env):
    form, mean = env.params
    n = env.choice("dimension", [1, 2])
    dist, mu, var = structured(env, form, n, mean)
    what = env.choice("what", ["vector", "matrix", "structured value", "missing", "entropy", "kl", "reverse kl"])
    Y = env.matrix("Y", n, 2)
    if what == "vector":
        env.eq(dist.logpdf(Y[:, 0]), logpdf(env, mu, var, Y[:, :1]), "logpdf")
    elif what == "matrix":
        env.eq(dist.logpdf(Y), columns(env, mu, var, Y), "logpdf")
    elif what == "structured value":
        env.eq(dist.logpdf(Dense(Y[:, :1])), logpdf(env, mu, var, Y[:, :1]), "logpdf of a structured value")
    elif what == "missing":
        y = env.maybe_missing(Y[:, 0], "Y")
        there = [i for i in range(n) if not env.is_missing("Y", i)]
        env.true(True, "missing")
        if there:
            sub = lambda A: A[there][:, there]  # noqa: E731
            env.eq(dist.logpdf(y), logpdf(env, mu[there], sub(var), Y[there][:, :1]), "logpdf with missing values")
    elif what == "entropy":
        env.eq(dist.entropy(), entropy(env, var), "entropy")
    else:
        other, mo, vo = structured(env, env.choice("other", DEFINITE), n, "column", "o")
        if what == "kl":
            env.eq(dist.kl(other), kl(env, mu, var, mo, vo), "kl")
        else:
            env.eq(other.kl(dist), kl(env, mo, vo, mu, var), "kl")


@scenario(
    "C29",
    quick=[(f, m) for f in DEFINITE for m in ("column", "constant", "none")],
    bounds="log-densities of vectors with one missing value under normals of dimension 3 with structured means and variances",
)
def missing(env):
    form, mean = env.params
    dist, mu, var = structured(env, form, 3, mean)
    y = env.vector("y", 3)
    i = env.choice("missing", [0, 1, 2])
    there = [j for j in range(3) if j != i]
    z = y.copy()
    z[i] = np.nan
    sub = lambda A: A[there][:, there]  # noqa: E731
    ref = logpdf(env, mu[there], sub(var), y[there][:, None])
    env.eq(dist.logpdf(z), ref, "logpdf with a missing value")
    env.eq(dist.logpdf(z[:, None]), ref, "logpdf of a column with a missing value")


@scenario(
    "C29",
    quick=[(f, m) for f in DEFINITE + ["zero"] for m in MEANS],
    bounds="one or two samples of normals of dimension 1 and 2 with structured means and variances",
)
def samples(env):
    form, mean = env.params
    n, num = env.choice("dimension", [1, 2]), env.choice("num", [1, 2])
    dist, mu, var = structured(env, form, n, mean)
    a, V = repeat(env, mu, var, num)
    if form == "zero" or env.flag("noise"):
        s = env.positive("s")
        a, V = repeat(env, mu, var + diag(env, [s] * n), num)
        check_affine(env, lambda state: [dist.sample(state, num, noise=s)[1]], a, V, [(n, num)])
    else:
        check_affine(env, lambda state: [dist.sample(state, num)[1]], a, V, [(n, num)])


# Processes


class SModel(Model):
    """Independent processes with given kernels."""

    def __init__(self, env, measure, kernels, zero_mean=False):
        self.env, self.measure, self.tag, self.correlated = env, measure, "", False
        self.names = [str(i) for i in range(len(kernels))]
        self.kernels = kernels
        self.ps, self.fields = [], []
        for i, (k, _) in enumerate(kernels):
            m = ZeroMean() if zero_mean else env.mean(f"m{i}")
            self.ps.append(GP(m, k, measure=measure))
            mean = (lambda x: 0) if zero_mean else m.value
            self.fields.append(Field(self, mean, [(lambda x: 1, i, lambda x: x)]))

    def base_cov(self, i, j, x, y):
        return self.kernels[i][1](x, y) if i == j else None


def same(a, b):
    """Whether coordinates are those of the same point."""
    if any(isinstance(v, sym.S) for v in a + b):
        return all(sym.repr_key(sym.S.of(v)) == sym.repr_key(sym.S.of(w)) for v, w in zip(a, b))
    return a == b


def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


def delta(x, y):
    return 1 if same(x, y) else 0


KERNELS = [
    "delta", "linear", "one", "zero", "b * delta", "b * linear", "b * one", "linear + delta", "one + delta", "linear + one",
    "k + delta", "k + linear", "k + one", "k + zero", "k * delta", "k * linear", "k * one", "linear * linear", "linear * delta",
    "stretched linear", "shifted linear", "h * delta", "h * linear", "h * one", "linear + one + delta",
]  # fmt: skip


def kernel_of(env, name):
    """A kernel that gives structured matrices, and its values."""
    k, h, b, c = env.kernel("k"), env.mean("h"), env.positive("b"), env.scalar("c")
    one = lambda x, y: 1  # noqa: E731
    return {
        "delta": lambda: (Delta(), delta),
        "linear": lambda: (Linear(), dot),
        "one": lambda: (OneKernel(), one),
        "zero": lambda: (ZeroKernel(), lambda x, y: 0),
        "b * delta": lambda: (b * Delta(), lambda x, y: b * delta(x, y)),
        "b * linear": lambda: (b * Linear(), lambda x, y: b * dot(x, y)),
        "b * one": lambda: (b * OneKernel(), lambda x, y: b),
        "linear + delta": lambda: (Linear() + Delta(), lambda x, y: dot(x, y) + delta(x, y)),
        "one + delta": lambda: (OneKernel() + Delta(), lambda x, y: 1 + delta(x, y)),
        "linear + one": lambda: (Linear() + OneKernel(), lambda x, y: dot(x, y) + 1),
        "linear + one + delta": lambda: (
            Linear() + b * OneKernel() + Delta(),
            lambda x, y: dot(x, y) + b + delta(x, y),
        ),
        "k + delta": lambda: (k + Delta(), lambda x, y: k.value(x, y) + delta(x, y)),
        "k + linear": lambda: (k + Linear(), lambda x, y: k.value(x, y) + dot(x, y)),
        "k + one": lambda: (k + OneKernel(), lambda x, y: k.value(x, y) + 1),
        "k + zero": lambda: (k + ZeroKernel(), k.value),
        "k * delta": lambda: (k * Delta(), lambda x, y: k.value(x, y) * delta(x, y)),
        "k * linear": lambda: (k * Linear(), lambda x, y: k.value(x, y) * dot(x, y)),
        "k * one": lambda: (k * OneKernel(), k.value),
        "linear * linear": lambda: (Linear() * Linear(), lambda x, y: dot(x, y) ** 2),
        "linear * delta": lambda: (Linear() * Delta(), lambda x, y: dot(x, y) * delta(x, y)),
        "stretched linear": lambda: (Linear().stretch(b), lambda x, y: dot(x, y) / b**2),
        "shifted linear": lambda: (
            Linear().shift(c),
            lambda x, y: dot([a - c for a in x], [a - c for a in y]),
        ),
        "h * delta": lambda: ((lambda x: h(x)) * Delta(), lambda x, y: h.value(x) * h.value(y) * delta(x, y)),
        "h * linear": lambda: ((lambda x: h(x)) * Linear(), lambda x, y: h.value(x) * h.value(y) * dot(x, y)),
        "h * one": lambda: ((lambda x: h(x)) * OneKernel(), lambda x, y: h.value(x) * h.value(y)),
    }[name]()


def distinct(env, *xs):
    """No two points count as the same one for `Delta`."""
    pts = [c for x in xs for c in coords(x)]
    for i, a in enumerate(pts):
        for b in pts[:i]:
            env.assume_pos(dot([u - v for u, v in zip(a, b)], [u - v for u, v in zip(a, b)]) - 1e-9)


@scenario(
    "C29",
    quick=[(k, z) for k in KERNELS for z in (False, True)],
    bounds="distributions of a process with a structured kernel, with noise in every form, at 2 distinct points: every view, sampled, "
    "and the log-density; the process itself, and a sum with another process",
)
def processes(env):
    name, zero = env.params
    model = SModel(env, Measure(), [kernel_of(env, name), (env.kernel("k1"), env.kernel("k1").value)], zero)
    x = env.inputs("x", 2)
    distinct(env, x)
    which = env.choice("process", [0, 2] if name in ("delta", "linear", "one", "zero", "linear + delta") else [0])
    apply(env, model, 0, "p - q", 1, 0, 1)
    noise, N = noise_of(env, env.choice("noise", ["scalar", "vector", "matrix", "diagonal", "none"]), 2)
    p, f = model.ps[which], model.fields[which]
    mu, var = model.mean(f, x), model.cov(f, f, x) + N
    d = p(x, noise)
    if noise is None:
        for v in VIEWS[:9]:
            if v != "bounds" or name != "zero":
                # Without noise the variance can be singular, and zero.
                if v not in ("bounds", "marginals"):
                    view(env, d, v, mu, var, "no noise: ", zero)
        return
    assume_positive(env, var)
    for v in VIEWS[:9]:
        view(env, d, v, mu, var, "", zero)
    Y = env.matrix("Y", 2, 1)
    env.eq(d.logpdf(Y), logpdf(env, mu, var, Y), "logpdf")
    env.eq(d.entropy(), entropy(env, var), "entropy")
    a, V = repeat(env, mu, var, 1)
    check_affine(env, lambda state: [d.sample(state, 1)[1]], a, V, [(2, 1)])


@scenario(
    "C29",
    quick=[(k, w) for k in KERNELS for w in (0, 1, 2) if (k, w) != ("linear + one + delta", 0)],
    thorough=[("linear + one + delta", 0)],
    bounds="a process with a structured kernel, another process, and their difference: any is observed at 2 distinct points with noise "
    "in any form; all posterior means and covariances at the points themselves, a copy of one, and another point",
)
def posteriors(env):
    name, which = env.params
    model = SModel(env, Measure(), [kernel_of(env, name), (env.kernel("k1"), env.kernel("k1").value)])
    apply(env, model, 0, "p - q", 1, 0, 1)
    x, z, v = env.inputs("x", 1), env.inputs("z", 2), env.vector("v", 2)
    distinct(env, x, z)
    noise, N = noise_of(env, env.choice("noise", ["scalar", "vector", "matrix"] if which == 0 else ["scalar", "matrix"]), 2)
    post = model.measure | (model.ps[which](z, noise), v)
    ref = model.posterior([(model.fields[which], z)], v, N)
    where = env.choice("where", ["other", "same", "copy"] if "k" not in name else ["other"])
    if where == "other":
        check_all(env, model, post, ref, x, z[:1])
        d, w = post(model.ps[0])(x), x
    elif where == "same":
        check_all(env, model, post, ref, z, z)
        return
    else:
        check_all(env, model, post, ref, z[1:], z[:1])
        d, w = post(model.ps[0])(z[1:]), z[1:]
    env.eq(d.mean, ref.mean(model.fields[0], w), "mean of distribution")
    env.eq(d.var, ref.cov(model.fields[0], model.fields[0], w), "variance of distribution")


@scenario(
    "C29",
    quick=[(a, b) for a in ("delta", "linear", "one", "zero", "linear + delta", "k + delta") for b in ("delta", "linear", "one", "zero", "dense")],
    bounds="the Cartesian product of two processes with structured kernels, at a point or at two finite-dimensional distributions: "
    "views, log-density, and a posterior",
)
def products(env):
    a, b = env.params
    other = (env.kernel("k1"), env.kernel("k1").value) if b == "dense" else kernel_of(env, b)
    model = SModel(env, Measure(), [kernel_of(env, a), other])
    m, (p, q), (f, g) = model.measure, model.ps, model.fields
    x, y, z, v = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 1), env.vector("v", 2)
    distinct(env, x, y, z)
    noise, N = noise_of(env, env.choice("noise", ["scalar", "vector", "matrix"]), 2)
    form = env.choice("form", ["point", "distributions"])
    c = cross(p, q)
    d, parts = (c(x, noise), [(f, x), (g, x)]) if form == "point" else (c((p(x), q(y)), noise), [(f, x), (g, y)])
    mu, K = model.joint(parts)
    var = K + N
    assume_positive(env, var)
    for w in VIEWS[:9]:
        view(env, d, w, mu, var, "", False)
    env.eq(d.logpdf(v), logpdf(env, mu, var, v[:, None]), "logpdf")
    env.eq(m.logpdf((c(x, noise), v)), logpdf(env, *_with(model, [(f, x), (g, x)], N), v[:, None]), "logpdf of the measure")
    post, ref = m | (d, v), model.posterior(parts, v, N)
    env.eq(post(c).mean(z), np.concatenate([ref.mean(f, z), ref.mean(g, z)], axis=0), "posterior mean")
    env.eq(post(c).kernel(z), block([[ref.cov(s, t, z) for t in (f, g)] for s in (f, g)]), "posterior kernel")


def _with(model, parts, N):
    mu, K = model.joint(parts)
    return mu, K + N


SPARSE = [
    "delta", "linear", "one", "b * delta", "b * linear", "b * one", "linear + delta", "linear + one", "k + delta", "k + one",
    "h * linear", "h * one", "linear + one + delta",
]  # fmt: skip


@scenario(
    "C29",
    quick=[(c, k) for c in ("vfe", "fitc", "dtc") for k in SPARSE],
    thorough=[(c, k) for c in ("vfe", "fitc", "dtc") for k in ("k * linear", "k + linear", "k * one", "h * delta")],
    bounds="sparse approximations with one inducing point of, and one observation of, a process with a structured kernel: the objective, "
    "and the posterior at other points",
)
def sparse(env):
    method, name = env.params
    model = SModel(env, Measure(), [kernel_of(env, name), (env.kernel("k1"), env.kernel("k1").value)])
    apply(env, model, 0, "p - q", 1, 0, 1)
    m, p, f = model.measure, model.ps, model.fields
    x, y, z, w, v = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 1), env.inputs("w", 1), env.vector("v", 1)
    distinct(env, x, y, z, w)
    noise, N = noise_of(env, "vector", 1)
    i, j = env.choice("processes", [(0, 0), (0, 2), (2, 0)])
    obs = CLASSES[method](p[i](z), p[j](w, noise), v)
    ref = Approximation(env, model, method, [(f[i], z)], [(f[j], w)], v, N)
    post = m | obs
    env.eq(obs.elbo(m), ref.objective, "objective")
    check_all(env, model, post, ref, x, y)


@scenario(
    "C29",
    quick=[(k, n, w) for k in ("two inputs", "linear + one", "b * linear + h") for n in (1, 2) for w in ("density", "posterior", "divergence")]
    + [(k, 1, "sparse") for k in ("two inputs", "linear + one", "b * linear + h")]
    + [("one", 1, w) for w in ("density", "posterior", "divergence")],
    bounds="processes with kernels of low rank without noise, at as many points as the matrices are invertible for (determinants of at least 1e-3): log-densities, "
    "entropies, divergences, posteriors, and sparse approximations",
)
def low_rank(env):
    name, n, what = env.params
    h, b = env.mean("h"), env.positive("b")
    k = {
        "two inputs": lambda: (b * Linear(), lambda x, y: b * dot(x, y)),
        "linear + one": lambda: (b * Linear() + OneKernel(), lambda x, y: b * dot(x, y) + 1),
        "b * linear + h": lambda: (
            b * Linear() + (lambda x: h(x)) * OneKernel(),
            lambda x, y: b * dot(x, y) + h.value(x) * h.value(y),
        ),
        "one": lambda: (b * OneKernel(), lambda x, y: b),
    }[name]()
    d = 2 if name == "two inputs" else None
    model = SModel(env, Measure(), [k, (env.kernel("k1"), env.kernel("k1").value)])
    (p, q), (f, g), m = model.ps, model.fields, model.measure
    x, z, v = env.inputs("x", 1, d), env.inputs("z", n, d), env.vector("v", n)
    mu, K = model.joint([(f, z)])
    # Stay away from matrices that are almost singular.
    env.assume_pos((K[0, 0] if n == 1 else K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0]) - 1e-3)
    if what == "density":
        env.eq(p(z).logpdf(v), logpdf(env, mu, K, v[:, None]), "logpdf")
        env.eq(p(z).entropy(), entropy(env, K), "entropy")
        env.eq(m.logpdf((p(z), v)), logpdf(env, mu, K, v[:, None]), "logpdf of the measure")
    elif what == "divergence":
        _, L = model.joint([(g, z)])
        nu = model.mean(g, z)
        env.eq(p(z).kl(q(z)), kl(env, mu, K, nu, L), "kl")
        env.eq(q(z).kl(p(z)), kl(env, nu, L, mu, K), "kl, the other way")
    elif what == "posterior":
        apply(env, model, 0, "p - q", 1, 0, 1)
        post, ref = m | (p(z), v), model.posterior([(f, z)], v, M(env, lambda i, j: 0, n, n))
        check_all(env, model, post, ref, x, x)
    else:
        apply(env, model, 0, "p - q", 1, 0, 1)
        w, s = env.inputs("w", 1, d), env.positive("s")
        method = env.choice("method", ["vfe", "fitc", "dtc"])
        i = env.choice("data", [0, 2])
        obs = CLASSES[method](p(z), model.ps[i](w, s), v)
        N = M(env, lambda i, j: s, 1, 1)
        ref = Approximation(env, model, method, [(f, z)], [(model.fields[i], w)], v, N)
        env.eq(obs.elbo(m), ref.objective, "objective")
        check_all(env, model, m | obs, ref, x, x)
