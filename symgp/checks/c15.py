"""C15: arithmetic of normals is exact."""

import numpy as np
from matrix import Dense, Diagonal, Zero
from stheno import Measure, Normal

from ..ref import M, Model
from ..scenario import scenario

FORMS = ["dense", "Dense", "diagonal", "zero mean", "lazy", "lazy pair", "lazy zero mean", "fdd", "Zero"]


def diag(env, d):
    return M(env, lambda i, j: d[i] if i == j else 0, len(d), len(d))


def normal_of(env, form, n, tag=""):
    """A normal, and its mean and variance."""
    mu, var = env.matrix(f"mu{tag}", n, 1), env.psd(f"var{tag}", n)
    if form == "dense":
        return Normal(mu, var), mu, var
    if form == "Dense":
        return Normal(Dense(mu), Dense(var)), mu, var
    if form == "diagonal":
        d = env.positive_vector(f"d{tag}", n)
        return Normal(mu, Diagonal(d)), mu, diag(env, d)
    if form == "zero mean":
        return Normal(var), M(env, lambda i, j: 0, n, 1), var
    if form == "Zero":
        return Normal(Zero(float, n, 1), var), M(env, lambda i, j: 0, n, 1), var
    if form == "lazy":
        return Normal(lambda: mu, lambda: var), mu, var
    if form == "lazy pair":
        d = M(env, lambda i: var[i, i], n)
        return (
            Normal(lambda: mu, lambda: var, var_diag=lambda: d, mean_var=lambda: (mu, var), mean_var_diag=lambda: (mu, d)),
            mu,
            var,
        )
    if form == "lazy zero mean":
        return Normal(lambda: var), M(env, lambda i, j: 0, n, 1), var
    model = Model(env, Measure(), 1, tag=tag)
    x, s = env.inputs(f"x{tag}", n), env.positive(f"s{tag}")
    f = model.fields[0]
    K = model.cov(f, f, x)
    return model.ps[0](x, s), model.mean(f, x), M(env, lambda i, j: K[i, j] + (s if i == j else 0), n, n)


OPS = [
    "N + c", "c + N", "N - c", "c - N", "N + v", "v + N", "N - v", "v - N", "N * c", "c * N", "N / c", "-N",
    "N + N", "N - N", "sum", "lmatmul", "rmatmul", "lmatmul rectangular", "rmatmul rectangular",
    "N + int", "int - N", "int * N", "N / int", "np * N", "np + N", "N * v", "v * N", "N / v",
]  # fmt: skip


def act(env, op, dist, mu, var, k):
    """Apply an operation to a distribution, and to its mean and variance."""
    n = mu.shape[0]
    eye = lambda a: M(env, lambda i, j: a if i == j else 0, n, n)  # noqa: E731
    c = env.positive(f"c{k}") if op == "N / c" else env.scalar(f"c{k}")
    v = env.matrix(f"v{k}", n, 1)
    two = np.float64(2.0)
    if op in ("N + N", "N - N", "sum"):
        other, mo, vo = normal_of(env, env.choice(f"other{k}", ["dense", "diagonal", "zero mean"]), n, f"o{k}")
        if op == "N + N":
            return dist + other, mu + mo, var + vo
        if op == "N - N":
            return dist - other, mu - mo, var + vo
        return sum([dist, other]), mu + mo, var + vo
    if op.startswith(("lmatmul", "rmatmul")):
        m = n + 1 if op.endswith("rectangular") else n
        if op[0] == "l":
            A = env.matrix(f"A{k}", m, n)
            return dist.lmatmul(A), A @ mu, A @ var @ A.T
        A = env.matrix(f"A{k}", n, m)
        return dist.rmatmul(A), A.T @ mu, A.T @ var @ A
    if op in ("N * v", "v * N", "N / v"):
        v = env.positive_vector(f"p{k}", n)[:, None] if op == "N / v" else v
        a = M(env, lambda i, j: (1 / v[i, 0] if op == "N / v" else v[i, 0]) if i == j else 0, n, n)
        return {"N * v": lambda: dist * v, "v * N": lambda: v * dist, "N / v": lambda: dist / v}[op](), a @ mu, a @ var @ a
    real, a, b = {
        "N + c": (lambda: dist + c, 1, c),
        "c + N": (lambda: c + dist, 1, c),
        "N - c": (lambda: dist - c, 1, -c),
        "c - N": (lambda: c - dist, -1, c),
        "N + v": (lambda: dist + v, 1, v),
        "v + N": (lambda: v + dist, 1, v),
        "N - v": (lambda: dist - v, 1, -v),
        "v - N": (lambda: v - dist, -1, v),
        "N * c": (lambda: dist * c, c, 0),
        "c * N": (lambda: c * dist, c, 0),
        "N / c": (lambda: dist / c, 1 / c, 0),
        "-N": (lambda: -dist, -1, 0),
        "N + int": (lambda: dist + 3, 1, 3),
        "int - N": (lambda: 3 - dist, -1, 3),
        "int * N": (lambda: 3 * dist, 3, 0),
        "N / int": (lambda: dist / 2, 0.5, 0),
        "np * N": (lambda: two * dist, 2, 0),
        "np + N": (lambda: two + dist, 1, 2),
    }[op]
    return real(), eye(a) @ mu + b, eye(a) @ var @ eye(a)


def check(env, dist, mu, var, first):
    label = ""
    n = mu.shape[0]
    d = M(env, lambda i: var[i, i], n)

    def mean_var():
        m, v = dist.mean_var
        env.eq(m, mu, label + "mean of mean_var")
        env.eq(v, var, label + "var of mean_var")

    views = {
        "mean": lambda: env.eq(dist.mean, mu, label + "mean"),
        "var": lambda: env.eq(dist.var, var, label + "var"),
        "var_diag": lambda: env.eq(dist.var_diag, d, label + "var_diag"),
        "mean_var": mean_var,
        "m2": lambda: env.eq(dist.m2, var + mu @ mu.T, label + "m2"),
        "dim": lambda: env.true(dist.dim == n, label + "dim"),
    }
    first = first or env.choice("first", list(views))
    for name in [first] + [v for v in views if v != first]:
        views[name]()
    e = dist.diagonalise()
    env.eq(e.mean, mu, label + "mean of diagonal version")
    env.eq(e.var, diag(env, d), label + "var of diagonal version")
    env.true(isinstance(dist, Normal), label + "type")


@scenario(
    "C15",
    quick=[(f, n) for f in FORMS for n in (1, 2)],
    thorough=[(f, 3) for f in FORMS],
    bounds="a normal of dimension n in the given form; mean, variance, diagonal, second moment, dimension and diagonal "
    "version, with any of those asked first",
)
def views(env):
    form, n = env.params
    dist, mu, var = normal_of(env, form, n)
    check(env, dist, mu, var, None)
    zero = form in ("zero mean", "Zero", "lazy zero mean")
    if zero:
        env.true(bool(dist.mean_is_zero), "zero mean")
    else:
        env.true(not dist.mean_is_zero, "nonzero mean")


@scenario(
    "C15",
    quick=[(op, n) for op in OPS for n in (1, 2)],
    thorough=[(op, 3) for op in OPS],
    bounds="an operation on a normal of dimension n in any of nine forms; the operands are arbitrary",
)
def single(env):
    op, n = env.params
    dist, mu, var = normal_of(env, env.choice("form", FORMS), n)
    if env.flag("mean asked before"):
        dist.mean
    res, a, b = act(env, op, dist, mu, var, 0)
    check(env, res, a, b, env.choice("first", ["mean", "mean_var", "m2"]))
    # The operand does not change.
    env.eq(dist.mean, mu, "mean of operand")
    env.eq(dist.var, var, "var of operand")


SECOND = ["N + v", "c - N", "N * c", "N - N", "lmatmul", "rmatmul rectangular", "N / c", "-N"]


@scenario(
    "C15",
    quick=[(op,) for op in OPS],
    bounds="any of eight operations on the result of each operation, on a dense normal of dimension 2",
)
def double(env):
    (op,) = env.params
    dist, mu, var = normal_of(env, env.choice("form", ["dense", "zero mean"]), 2)
    res, a, b = act(env, op, dist, mu, var, 0)
    res, a, b = act(env, env.choice("second", SECOND), res, a, b, 1)
    env.eq(res.mean, a, "mean")
    env.eq(res.var, b, "var")
    env.eq(res.var_diag, M(env, lambda i: b[i, i], b.shape[0]), "var_diag")
    env.eq(res.m2, b + a @ a.T, "m2")
    env.true(res.dim == a.shape[0], "dim")
