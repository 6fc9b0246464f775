"""Reference semantics that scenarios compare the real code with.

Everything here is written directly on coordinates and covariance values, and does not
use `stheno` (other than to build the processes under test), `mlkernels`, or `matrix`.
"""

import numpy as np
from lab import B

from . import arr
from .kernels import coords


def M(env, f, *shape):
    """Matrix with elements `f(*indices)`."""
    out = np.empty(shape, dtype=object)
    for ind in np.ndindex(*shape):
        v = f(*ind)
        out[ind] = arr.raw(v)[()] if isinstance(v, np.ndarray) else v
    if out.size == 0:
        return np.zeros(shape)
    return arr.wrap(out) if env.symbolic else out.astype(float)


def inv(a):
    return np.linalg.inv(a)


def block(rows):
    return np.concatenate([np.concatenate(r, axis=1) for r in rows], axis=0)


def blockdiag(env, ms):
    n = sum(m.shape[0] for m in ms)
    off = np.cumsum([0] + [m.shape[0] for m in ms])
    which = [k for k, m in enumerate(ms) for _ in range(m.shape[0])]

    def f(i, j):
        if which[i] != which[j]:
            return 0
        k = which[i]
        return ms[k][i - off[k], j - off[k]]

    return M(env, f, n, n)


def col(y):
    return y[:, None] if np.ndim(y) == 1 else y


def dense_noise(env, noise, n):
    """Noise as an explicit matrix."""
    if noise is None:
        return M(env, lambda i, j: 0, n, n)
    noise = B.dense(noise)
    if np.ndim(noise) == 0:
        return M(env, lambda i, j: noise if i == j else 0, n, n)
    if np.ndim(noise) == 1:
        return M(env, lambda i, j: noise[i] if i == j else 0, n, n)
    return noise


class Field:
    """A random function, as a linear functional of jointly Gaussian base functions.

    Args:
        mean: Function from coordinates to a value.
        terms: List of `(w, b, t)`: weight function `w` of the coordinates, name `b` of a
            base function, and map `t` from coordinates to coordinates.
    """

    def __init__(self, model, mean, terms):
        self.model, self.mean, self.terms = model, mean, terms

    def __add__(self, o):
        return Field(self.model, lambda x: self.mean(x) + o.mean(x), self.terms + o.terms)

    def plus(self, h):
        return Field(self.model, lambda x: self.mean(x) + h(x), self.terms)

    def times(self, h):
        return Field(
            self.model,
            lambda x: self.mean(x) * h(x),
            [(lambda x, w=w: w(x) * h(x), b, t) for w, b, t in self.terms],
        )

    def at(self, s):
        """Precompose with `s`."""
        return Field(
            self.model,
            lambda x: self.mean(s(x)),
            [(lambda x, w=w: w(s(x)), b, lambda x, t=t: t(s(x))) for w, b, t in self.terms],
        )

    def cov(self, o, x, y):
        r = 0
        for w, b, t in self.terms:
            for v, c, u in o.terms:
                k = self.model.base_cov(b, c, t(x), u(y))
                if k is not None:
                    r = r + w(x) * v(y) * k
        return r


class Model:
    """Joint Gaussian model with arbitrary means, kernels and cross-covariances.

    `fields` mirrors `ps`: reference and real processes, in order.
    """

    def __init__(self, env, measure, n, correlated=True, zero_mean=False, tag=""):
        from stheno import GP, ZeroMean

        self.env, self.measure, self.tag = env, measure, tag
        self.correlated = correlated
        self.names = [f"{tag}{i}" for i in range(n)]
        self.ps, self.fields = [], []
        for i in range(n):
            k = env.kernel(f"k{tag}{i}")
            m = ZeroMean() if zero_mean else env.mean(f"m{tag}{i}")
            if i == 0 or not correlated:
                p = GP(m, k, measure=measure)
            else:
                ids = {id(q): j for j, q in enumerate(self.ps)}
                p = measure.add_gp(
                    m, k, lambda q, i=i, ids=ids: reversed(self.cross_kernel(ids[q], i))
                )
            self.ps.append(p)
            mean = (lambda x: 0) if zero_mean else m.value
            self.fields.append(Field(self, mean, [(lambda x: 1, i, lambda x: x)]))

    def cross_kernel(self, i, j):
        """Covariance of base `i` at the left and base `j` at the right, for `i < j`."""
        return self.env.kernel(f"x_{self.tag}{i}_{j}", symmetric=False)

    def base_cov(self, i, j, x, y):
        if i == j:
            return self.env.kernel(f"k{self.tag}{i}").value(x, y)
        if not self.correlated:
            return None
        if i < j:
            return self.cross_kernel(i, j).value(x, y)
        return self.cross_kernel(j, i).value(y, x)

    # Matrices

    def mean(self, f, x):
        cx = coords(x)
        return M(self.env, lambda i, j: f.mean(cx[i]), len(cx), 1)

    def cov(self, f, g, x, y=None):
        cx = coords(x)
        cy = cx if y is None else coords(y)
        return M(self.env, lambda i, j: f.cov(g, cx[i], cy[j]), len(cx), len(cy))

    def cov_diag(self, f, g, x, y=None):
        cx = coords(x)
        cy = cx if y is None else coords(y)
        return M(self.env, lambda i: f.cov(g, cx[i], cy[i]), len(cx))

    def joint(self, obs):
        """Mean and covariance of `[(field, x), ...]`."""
        mu = np.concatenate([self.mean(f, x) for f, x in obs], axis=0)
        K = block([[self.cov(f, g, x, y) for g, y in obs] for f, x in obs])
        return mu, K

    def posterior(self, obs, y, noise):
        """Gaussian conditional. `obs` is `[(field, x), ...]`, `y` a column vector, and
        `noise` a matrix. Gives functions for means and covariances."""
        mu, K = self.joint(obs)
        Ai = inv(K + noise)
        return Posterior(self, obs, Ai, Ai @ (col(y) - mu))


class Posterior:
    def __init__(self, model, obs, Ai, w):
        self.model, self.obs, self.Ai, self.w = model, obs, Ai, w

    def _k(self, f, x):
        return np.concatenate([self.model.cov(f, g, x, z) for g, z in self.obs], axis=1)

    def mean(self, f, x):
        return self.model.mean(f, x) + self._k(f, x) @ self.w

    def cov(self, f, g, x, y=None):
        y = x if y is None else y
        return self.model.cov(f, g, x, y) - self._k(f, x) @ self.Ai @ self._k(g, y).T


def logpdf(env, mu, K, y):
    """Gaussian log-density of the column vector `y`."""
    n = K.shape[0]
    d = col(y) - mu
    quad = (d.T @ inv(K) @ d)[0, 0]
    return -(n * np.log(2 * B.pi) + np.log(np.linalg.det(K)) + quad) / 2
