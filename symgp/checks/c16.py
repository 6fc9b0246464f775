"""C16: entropy, KL divergence and Wasserstein distance are exact."""

import numpy as np
from lab import B
from matrix import Dense, Diagonal
from stheno import Measure, Normal, Obs

from .. import arr
from ..ref import M, Model, inv
from ..scenario import scenario
from .c15 import FORMS, normal_of


def logdet(A):
    return np.log(np.linalg.det(A))


def entropy(env, K):
    n = K.shape[0]
    return (logdet(K) + n * (np.log(2 * B.pi) + 1)) / 2


def kl(env, a, K, b, L):
    n = K.shape[0]
    Li, d = inv(L), b - a
    t = sum((Li @ K)[i, i] for i in range(n))
    return (t + (d.T @ Li @ d)[0, 0] - n + logdet(L) - logdet(K)) / 2


@scenario(
    "C16",
    quick=[(f, n) for f in FORMS for n in (1, 2)] + [("dense", 3), ("diagonal", 3), ("fdd", 3)],
    thorough=[("dense", 4), ("lazy", 3)],
    bounds="entropy of a normal of dimension n in the given form",
)
def entropies(env):
    form, n = env.params
    dist, _, K = normal_of(env, form, n)
    if env.flag("variance asked before"):
        dist.mean_var
    env.eq(dist.entropy(), entropy(env, K), "entropy")
    env.eq(dist.entropy(), entropy(env, K), "entropy, again")


@scenario(
    "C16",
    quick=[(f, g) for f in FORMS for g in ("dense", "diagonal", "zero mean")]
    + [("diagonal", g) for g in FORMS if g not in ("dense", "diagonal", "zero mean")],
    bounds="the KL divergence of two normals of the given forms, both ways around and to themselves; dimension 1 and 2",
)
def divergence(env):
    f, g = env.params
    n = env.choice("dimension", [1, 2])
    p, a, K = normal_of(env, f, n)
    q, b, L = normal_of(env, g, n, "q")
    env.eq(p.kl(q), kl(env, a, K, b, L), "kl")
    env.eq(q.kl(p), kl(env, b, L, a, K), "kl, the other way")
    env.eq(p.kl(p), kl(env, a, K, a, K), "kl to itself")
    env.eq(p.kl(p), kl(env, a, K, a, K) * 0, "kl to itself is zero")


@scenario(
    "C16",
    quick=[(3,)],
    thorough=[(4,)],
    bounds="the KL divergence of two normals of dimension n, at least one diagonal",
)
def divergence_larger(env):
    (n,) = env.params
    p, a, K = normal_of(env, "diagonal", n)
    q, b, L = normal_of(env, env.choice("form", ["diagonal", "dense"]) if n < 4 else "diagonal", n, "q")
    env.eq(p.kl(q), kl(env, a, K, b, L), "kl")


@scenario(
    "C16",
    quick=[("prior",), ("posterior",)],
    bounds="entropy and KL divergence of finite-dimensional distributions of a process and its posterior, at two points",
)
def processes(env):
    (kind,) = env.params
    model = Model(env, Measure(), 1)
    p, f = model.ps[0], model.fields[0]
    x, z, v = env.inputs("x", 2), env.inputs("z", 1), env.vector("v", 1)
    s, t = env.positive("s"), env.positive("t")
    noise = M(env, lambda i, j: t if i == j else 0, 2, 2)
    a, K = model.mean(f, x), model.cov(f, f, x) + noise
    post = model.measure | Obs(p(z, s), v)
    ref = model.posterior([(f, z)], v, M(env, lambda i, j: s, 1, 1))
    b, L = ref.mean(f, x), ref.cov(f, f, x) + noise
    d, e = p(x, t), post(p)(x, t)
    if kind == "prior":
        env.eq(d.entropy(), entropy(env, K), "entropy")
        env.eq(e.entropy(), entropy(env, L), "entropy of posterior")
    else:
        env.eq(e.kl(d), kl(env, b, L, a, K), "kl of posterior to prior")


# Wasserstein distance. The root of a matrix goes through a singular-value decomposition,
# which is given by construction: `V1 = R^2` and `V2 = R^-1 Q^2 R^-1` with `R` and `Q`
# arbitrary positive-definite matrices is any pair of positive-definite matrices.


def definite(env, name, n):
    """Arbitrary positive-definite matrix by its eigenvalues and, rationally, its
    eigenvectors."""
    e = env.positive_vector(name, n)
    if n == 1:
        return M(env, lambda i, j: 1, 1, 1), e
    t = env.scalar(name + "_angle")
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    return M(env, lambda i, j: [[c, -s], [s, c]][i][j], 2, 2), e


def compose(env, U, e):
    n = len(e)
    return M(env, lambda i, j: sum(U[i, k] * e[k] * U[j, k] for k in range(n)), n, n)


def known(env, U, e):
    A = compose(env, U, e)
    if env.symbolic:
        arr.register_spectrum(A, U, e)
    return A


@scenario(
    "C16",
    quick=[(n, k) for n in (1, 2) for k in ("dense", "Dense", "zero means", "itself")],
    bounds="the Wasserstein distance of any two dense normals of dimension n with positive-definite variances",
)
def wasserstein(env):
    n, kind = env.params
    U, r = definite(env, "r", n)
    W, q = definite(env, "q", n)
    V1 = known(env, U, r * r)
    mu, nu = env.matrix("mu", n, 1), env.matrix("nu", n, 1)
    if kind == "itself":
        known(env, U, r * r * r * r)
        p = Normal(mu, V1)
        d = p.w2(p)
        if env.symbolic:
            env.eq(d, 0 * d, "distance to itself")
        else:
            env.true(abs(d) < 1e-5, "distance to itself")
        return
    Q2 = known(env, W, q * q)
    Ri = compose(env, U, 1 / r)
    V2 = Ri @ Q2 @ Ri
    V2 = M(env, lambda i, j: V2[max(i, j), min(i, j)], n, n)
    tr = lambda A: sum(A[i, i] for i in range(n))  # noqa: E731
    total = tr(V1) + tr(V2) - 2 * sum(q[i] for i in range(n))
    if kind == "zero means":
        p1, p2 = Normal(V1), Normal(V2)
    else:
        p1, p2 = (Normal(mu, V1), Normal(nu, V2)) if kind == "dense" else (Normal(mu, Dense(V1)), Normal(Dense(nu), Dense(V2)))
        total = total + ((mu - nu).T @ (mu - nu))[0, 0]
    env.assume_pos(total)
    d = p1.w2(p2)
    env.eq(d * d, total, "squared distance")
    env.true(d >= 0, "sign")


@scenario(
    "C16",
    quick=[(n, k) for n in (1, 2, 3) for k in ("diagonal", "zero mean")],
    bounds="the Wasserstein distance of any two diagonal normals of dimension n, both ways around and to themselves",
)
def wasserstein_diagonal(env):
    n, kind = env.params
    r, q = env.positive_vector("r", n), env.positive_vector("q", n)
    mu, nu = env.matrix("mu", n, 1), env.matrix("nu", n, 1)
    total = sum((r[i] - q[i]) * (r[i] - q[i]) for i in range(n))
    if kind == "zero mean":
        nu = 0 * nu
        p1, p2 = Normal(mu, Diagonal(r * r)), Normal(Diagonal(q * q))
    else:
        p1, p2 = Normal(mu, Diagonal(r * r)), Normal(nu, Diagonal(q * q))
    total = total + ((mu - nu).T @ (mu - nu))[0, 0]
    env.assume_pos(total)
    d, e = p1.w2(p2), p2.w2(p1)
    env.eq(d * d, total, "squared distance")
    env.eq(e, d, "symmetry")
    env.true(d >= 0, "sign")
    z = p1.w2(p1)
    if env.symbolic:
        env.eq(z, 0 * z, "distance to itself")
    else:
        env.true(abs(z) < 1e-5, "distance to itself")


@scenario(
    "C16",
    quick=[(k,) for k in ("means", "zero means")],
    bounds="the Wasserstein distance of any normal of dimension 2 with a diagonal variance to any one with a full variance",
)
def wasserstein_mixed(env):
    (kind,) = env.params
    mu, nu = env.matrix("mu", 2, 1), env.matrix("nu", 2, 1)
    W, e = definite(env, "q", 2)
    r = env.positive_vector("r", 2)
    # The root of `D^(1/2) V D^(1/2)` is given by construction.
    Q2 = known(env, W, e * e)
    V = M(env, lambda i, j: Q2[max(i, j), min(i, j)] / (r[i] * r[j]), 2, 2)
    total = sum(r[i] * r[i] + V[i, i] for i in range(2)) - 2 * (e[0] + e[1])
    if kind == "means":
        a, b = Normal(mu, Diagonal(r * r)), Normal(nu, V)
        total = total + ((mu - nu).T @ (mu - nu))[0, 0]
    else:
        a, b = Normal(Diagonal(r * r)), Normal(V)
    env.assume_pos(total)
    d = a.w2(b)
    env.eq(d * d, total, "squared distance")
    env.true(d >= 0, "sign")
