"""C10: sparse approximations follow their definitions."""

import numpy as np
from stheno import Measure, PseudoObs, PseudoObsDTC, PseudoObsFITC, SparseObs, cross

from ..ops import apply
from ..ref import M, Model, block, blockdiag, col, inv, logpdf
from ..scenario import scenario
from .c06 import check_all, noise_of

CLASSES = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC, "sparse": SparseObs}
ALL = ["vfe", "fitc", "dtc"]


class Approximation:
    """The definitions of the methods.

    Args:
        us: Inducing points as `[(field, z), ...]`.
        obs: Observations as `[(field, x), ...]`.
        N: Diagonal noise matrix.
        Nz: Noise matrix of the inducing points.
    """

    def __init__(self, env, model, method, us, obs, y, N, Nz=None):
        self.env, self.model, self.us = env, model, us
        mx, Kx = model.joint(obs)
        _, Kz = model.joint(us)
        if Nz is not None:
            Kz = Kz + Nz
        Kzx = block([[model.cov(f, g, z, x) for g, x in obs] for f, z in us])
        n = Kx.shape[0]
        only = lambda A: M(env, lambda i, j: A[i, i] if i == j else 0, n, n)  # noqa: E731
        self.Kzi = inv(Kz)
        Q = Kzx.T @ self.Kzi @ Kzx
        D = only(N) + only(Kx - Q) if method == "fitc" else only(N)
        Di = M(env, lambda i, j: 1 / D[i, i] if i == j else 0, n, n)
        self.S = inv(Kz + Kzx @ Di @ Kzx.T)
        self.w = self.S @ Kzx @ Di @ (col(y) - mx)
        self.objective = logpdf(env, mx, Q + D, y)
        if method in ("vfe", "sparse"):
            self.objective = self.objective - sum((Kx[i, i] - Q[i, i]) / D[i, i] for i in range(n)) / 2

    def _k(self, f, x):
        return np.concatenate([self.model.cov(f, g, x, z) for g, z in self.us], axis=1)

    def mean(self, f, x):
        return self.model.mean(f, x) + self._k(f, x) @ self.w

    def cov(self, f, g, x, y=None):
        y = x if y is None else y
        a, b = self._k(f, x), self._k(g, y)
        return self.model.cov(f, g, x, y) - a @ self.Kzi @ b.T + a @ self.S @ b.T


def check_some(env, model, post, ref, x, y):
    """Where all pairs are expensive: some of them. All follow in the same way."""
    (f, g, h), (F, G, H) = model.ps[:3], model.fields[:3]
    env.eq(post(g).mean(x), ref.mean(G, x), "mean 1")
    env.eq(post(f).kernel(x, y), ref.cov(F, F, x, y), "kernel 0")
    env.eq(post.kernels[h, g](x, y), ref.cov(H, G, x, y), "cov 2, 1")


@scenario(
    "C10",
    quick=[(c, i, j, 1, n) for c in ALL for i, j in [(0, 0), (0, 1), (1, 0), (2, 1), (0, 2)] for n in (1, 2)]
    + [("sparse", 0, 1, 1, 1)]
    + [(c, 0, 1, 2, 1) for c in ALL],
    thorough=[(c, 0, 1, 2, 2) for c in ALL] + [(c, 1, 0, 1, 3) for c in ALL],
    bounds="inducing points on one process and data on another (two correlated processes and a combination): "
    "k inducing points and n data; scalar or vector noise; the objective is asked for first or last, twice",
)
def single(env):
    method, i, j, k, n = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    apply(env, model, 0, "p - q", 1, 0, 1)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, w, v = env.inputs("z", k), env.inputs("w", n), env.vector("v", n)
    small = k * n == 1
    kind = env.choice("noise", ["scalar", "vector", "diagonal"]) if small else "vector"
    noise, N = noise_of(env, kind, n)
    obs = CLASSES[method](model.ps[i](z), model.ps[j](w, noise), v)
    ref = Approximation(env, model, method, [(model.fields[i], z)], [(model.fields[j], w)], v, N)
    first = env.flag("objective first") if small else i == 0
    if first:
        env.eq(m.logpdf(obs), ref.objective, "objective")
    post = m | obs
    check = check_all if method != "fitc" or small else check_some
    check(env, model, post, ref, x, y)
    env.eq(obs.elbo(m), ref.objective, "elbo")
    env.eq(m.logpdf(obs), ref.objective, "objective")


@scenario(
    "C10",
    quick=[(c, k) for c in ALL for k in ("two inducing", "two data", "two and two", "pair", "tuple", "product", "noisy inducing", "column")],
    bounds="inducing points on, or data of, several processes (two correlated ones and a multiple): one point each; "
    "noise on the inducing points; a Cartesian product",
)
def several(env):
    method, kind = env.params
    cls = CLASSES[method]
    model = Model(env, Measure(), 2)
    m = model.measure
    apply(env, model, 0, "c * p", 1, 0, 1)
    f, g, h = model.ps
    F, G, H = model.fields
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, z2 = env.inputs("z", 1), env.inputs("z2", 1)
    w, w2 = env.inputs("w", 1), env.inputs("w2", 1)
    v, v2 = env.vector("v", 1), env.vector("v2", 1)
    s, N = noise_of(env, "scalar", 1, "s")
    s2, N2 = noise_of(env, "vector", 1, "s2")
    Nz = None
    both, BN = np.concatenate([v, v2]), blockdiag(env, [N, N2])
    if kind == "two inducing":
        obs, us, data, vv, NN = cls((f(z), g(z2)), g(w, s), v), [(F, z), (G, z2)], [(G, w)], v, N
    elif kind == "two data":
        obs = cls(h(z), (g(w, s), v), (f(w2, s2), v2))
        us, data, vv, NN = [(H, z)], [(G, w), (F, w2)], both, BN
    elif kind == "two and two":
        obs = cls((g(z), f(z2)), (g(w, s), v), (f(w2, s2), v2))
        us, data, vv, NN = [(G, z), (F, z2)], [(G, w), (F, w2)], both, BN
    elif kind == "pair":
        obs, us, data, vv, NN = cls(f(z), (g(w, s), v)), [(F, z)], [(G, w)], v, N
    elif kind == "tuple":
        obs, us, data, vv, NN = cls((f(z),), g(w, s), v), [(F, z)], [(G, w)], v, N
    elif kind == "product":
        c = cross(g, f)
        ss, NN = noise_of(env, "vector", 2, "ss")
        obs, us, data, vv = cls(c(z), c(w, ss), both), [(G, z), (F, z)], [(G, w), (F, w)], both
    elif kind == "noisy inducing":
        t, Nz = noise_of(env, "scalar", 1, "t")
        obs, us, data, vv, NN = cls(f(z, t), g(w, s), v), [(F, z)], [(G, w)], v, N
    else:
        obs, us, data, vv, NN = cls(f(z), g(w, s), v[:, None]), [(F, z)], [(G, w)], v, N
    ref = Approximation(env, model, method, us, data, vv, NN, Nz)
    heavy = method == "fitc" and kind in ("two and two", "product")
    post = m.condition(obs) if heavy or env.flag("condition") else f.condition(obs).measure
    check = check_some if heavy else check_all
    check(env, model, post, ref, x, y)
    env.eq(m.logpdf(obs), ref.objective, "objective")


@scenario(
    "C10",
    quick=[(c, n) for c in ALL for n in (1, 2)] + [(c, "reversed") for c in ALL] + [(c, "two processes") for c in ALL],
    bounds="inducing points at the n data (in order or reversed): the posteriors are the exact ones, and the objective is the log-density",
)
def at_data(env):
    method, n = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    f, g = model.ps
    F, G = model.fields
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    if n == "two processes":
        w, w2 = env.inputs("w", 1), env.inputs("w2", 1)
        v = env.vector("v", 2)
        s, N = noise_of(env, "vector", 2)
        obs = CLASSES[method]((g(w), f(w2)), (g(w, s[:1]), v[:1]), (f(w2, s[1:]), v[1:]))
        data = [(G, w), (F, w2)]
    else:
        k = 2 if n == "reversed" else n
        w, v = env.inputs("w", k), env.vector("v", k)
        s, N = noise_of(env, "vector", k)
        obs = CLASSES[method](g(w[::-1] if n == "reversed" else w), g(w, s), v)
        data = [(G, w)]
    ref = model.posterior(data, v, N)
    check_all(env, model, m | obs, ref, x, y)
    mu, K = model.joint(data)
    env.eq(m.logpdf(obs), logpdf(env, mu, K + N, v), "objective")


@scenario(
    "C10",
    quick=[(c, k) for c in ALL for k in ("copy in a posterior", "two models")],
    bounds="approximations in a posterior, and one observation object under a prior and a posterior: one point each",
)
def models(env):
    method, kind = env.params
    cls = CLASSES[method]
    model = Model(env, Measure(), 2)
    m = model.measure
    f, g = model.ps
    F, G = model.fields
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, w, v = env.inputs("z", 1), env.inputs("w", 1), env.vector("v", 1)
    w0, v0 = env.inputs("w0", 1), env.vector("v0", 1)
    s, N = noise_of(env, "scalar", 1)
    s0, N0 = noise_of(env, "scalar", 1, "s0")
    m1 = m | (f(w0, s0), v0)
    r1 = model.posterior([(F, w0)], v0, N0)

    # The posterior is a model by itself.
    class Second:
        env, cov, mean = model.env, staticmethod(r1.cov), staticmethod(r1.mean)

        @staticmethod
        def joint(obs):
            mu = np.concatenate([r1.mean(h, t) for h, t in obs], axis=0)
            return mu, block([[r1.cov(h, q, t, u) for q, u in obs] for h, t in obs])

    ref2 = Approximation(env, Second, method, [(G, z)], [(F, w)], v, N)
    if kind == "two models":
        ref1 = Approximation(env, model, method, [(G, z)], [(F, w)], v, N)
        obs = cls(g(z), f(w, s), v)
        todo = [(m, ref1), (m1, ref2)]
        if env.flag("posterior first"):
            todo = todo[::-1]
        for mm, r in todo + todo:
            env.eq(mm.logpdf(obs), r.objective, "objective")
        for mm, r in todo:
            check_all(env, model, mm | obs, r, x, y)
    else:
        obs = cls(m1(g)(z), m1(f)(w, s), v)
        env.eq(m1.logpdf(obs), ref2.objective, "objective")
        check_all(env, model, m1 | obs, ref2, x, y)


@scenario(
    "C10",
    quick=[(c,) for c in ALL],
    bounds="noise that is not diagonal is refused, also for the objective, and the model remains usable",
)
def refused(env):
    (method,) = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    f, g = model.ps
    z, w, v = env.inputs("z", 1), env.inputs("w", 2), env.vector("v", 2)
    x = env.inputs("x", 1)
    noise, N = noise_of(env, "matrix", 2)
    obs = CLASSES[method](g(z), f(w, noise), v)
    env.raises(RuntimeError, lambda: m.logpdf(obs), "objective")
    post = m | obs
    env.raises(RuntimeError, lambda: post(f).mean(x), "mean")
    env.raises(RuntimeError, lambda: post(f).kernel(x), "kernel")
    env.eq(f.mean(x), model.mean(model.fields[0], x), "prior")
