"""C31: equivalent observations give equivalent posteriors."""

import numpy as np
from lab import B
from matrix import Diagonal
from mlkernels import Delta
from stheno import GP, Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ref import M, Model
from ..scenario import scenario
from .c29 import distinct

CLASSES = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


def ways(env, name, d):
    """A way to derive a process, such that the process at `x` is the original process at `t(x)`, times
    `a(x)`, plus `b(x)`. Gives the operation, `t`, and `a` and `b` for rows of coordinates."""
    c, s, h, u = env.scalar("c"), env.positive("scale"), env.mean("h"), env.mean("u")
    cv, sv = (env.vector("cv", d), env.positive_vector("sv", d)) if d else (None, None)
    fun = lambda x: h(x)  # noqa: E731
    same = lambda x: x  # noqa: E731
    one, zero = (lambda x: 1 + 0 * h(x)), (lambda x: 0 * h(x))  # noqa: E731

    def warp(x):
        return B.concat(*[env.mean(f"warp{i}")(x) for i in range(d or 1)], axis=-1)

    return {
        "c + p": (lambda p: c + p, same, one, lambda x: c + 0 * h(x)),
        "p - h": (lambda p: p - fun, same, one, lambda x: -h(x)),
        "h - p": (lambda p: fun - p, same, lambda x: -one(x), h),
        "s * p": (lambda p: s * p, same, lambda x: s + 0 * h(x), zero),
        "p / -s": (lambda p: p / -s, same, lambda x: -1 / s + 0 * h(x), zero),
        "h * p": (lambda p: fun * p, same, h, zero),
        "-p": (lambda p: -p, same, lambda x: -one(x), zero),
        "p + p": (lambda p: p + p, same, lambda x: 2 * one(x), zero),
        "shift": (lambda p: p.shift(c), lambda x: x - c, one, zero),
        "stretch": (lambda p: p.stretch(s), lambda x: x / s, one, zero),
        "shift vector": (lambda p: p.shift(cv), lambda x: x - cv, one, zero),
        "stretch vector": (lambda p: p.stretch(sv), lambda x: x / sv, one, zero),
        "transform": (lambda p: p.transform(warp), warp, one, zero),
        "select": (lambda p: p.select(1, 0), lambda x: x[:, [1, 0]], one, zero),
        "h * shift + u": (
            lambda p: fun * p.shift(c) + (lambda x: u(x)),
            lambda x: x - c,
            h,
            u,
        ),
        "stretch of shift": (lambda p: p.shift(c).stretch(s), lambda x: x / s - c, one, zero),
        "copy": (lambda p: p.measure(p), same, one, zero),
    }[name]


NAMES = [
    "c + p", "p - h", "h - p", "s * p", "p / -s", "h * p", "-p", "p + p", "shift", "stretch", "transform",
    "h * shift + u", "stretch of shift", "copy",
]  # fmt: skip


def flat(v):
    v = B.dense(v)
    return v[:, 0] if np.ndim(v) == 2 else v


def moved(env, way, z, v, N):
    """Inputs of the original process, and the values and noise of the derived process."""
    _, t, a, b = way
    av, bv = flat(a(z)), flat(b(z))
    n = len(av)
    for i in range(n):
        env.assume_pos(av[i] * av[i] - 1e-3)
    w = M(env, lambda i: av[i] * v[i] + bv[i], n)
    return t(z), w, M(env, lambda i, j: av[i] * N[i, j] * av[j], n, n), av


def check_equal(env, one, two, ps, x, y, label=""):
    """Two posteriors are the same, for all processes."""
    for i, p in enumerate(ps):
        env.eq(one.means[p](x), two.means[p](x), f"{label}mean {i}")
    for i, j in [(0, 0), (0, 1), (1, 1), (len(ps) - 1, 0)]:
        env.eq(one.kernels[ps[i], ps[j]](x, y), two.kernels[ps[i], ps[j]](x, y), f"{label}cov {i}, {j}")
    env.eq(one.kernels[ps[-1]].elwise(x), two.kernels[ps[-1]].elwise(x), f"{label}elwise")


def as_noise(env, N, form):
    n = N.shape[0]
    if form == "none":
        return None
    if form == "matrix":
        return N
    if form == "diagonal":
        return Diagonal(M(env, lambda i: N[i, i], n))
    return M(env, lambda i: N[i, i], n)


def noise(env, form, n, name="s"):
    if form == "none":
        return M(env, lambda i, j: 0, n, n)
    if form == "matrix":
        return env.psd(name, n)
    s = env.positive_vector(name, n)
    return M(env, lambda i, j: s[i] if i == j else 0, n, n)


@scenario(
    "C31",
    quick=[(o, f, None) for o in NAMES for f in ("none", "vector", "matrix", "diagonal")
           if f != "matrix" or o not in ("h * p", "h * shift + u")]
    + [(o, f, 2) for o in ("select", "shift vector", "stretch vector", "transform") for f in ("vector", "matrix")],
    thorough=[(o, f, 2) for o in NAMES for f in ("none", "matrix", "diagonal")],
    bounds="a derived process (one or two operations) is observed at 2 points instead of the original one, with noise in "
    "every form, alone or next to an observation of a second process, possibly with missing values: all posterior means and "
    "covariances, and the log-densities",
)
def derived(env):
    name, form, d = env.params
    model = Model(env, Measure(), 2)
    m, (f, q) = model.measure, model.ps
    way = ways(env, name, d)
    g = way[0](f)
    n = 2
    z, v, N = env.inputs("z", n, d), env.vector("v", n), noise(env, form, n)
    t, w, W, a = moved(env, way, z, v, N)
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    kind = env.choice("data", ["alone", "with another", "product", "missing", "log-density"])
    first, second = g(z, as_noise(env, W, form)), f(t, as_noise(env, N, form))
    ps = [f, q, g]
    if kind == "alone":
        one, two = m | (first, w), m | (second, v)
    elif kind == "missing":
        # The same ones are missing.
        if form == "none":
            first, second = g(z, 1), f(t, as_noise(env, M(env, lambda i, j: 1 / a[i] ** 2 if i == j else 0, n, n), "vector"))
        one, two = m | (first, env.maybe_missing(w, "v")), m | (second, env.maybe_missing(v, "v"))
    elif kind == "log-density":
        # The densities differ by the determinant of the transformation.
        e = 0
        for i in range(n):
            e = e + B.log(a[i] * a[i]) / 2
        env.eq(m.logpdf(first, w) + e, m.logpdf(second, v), "log-density")
        return
    else:
        r, u, k = env.inputs("r", 1, d), env.vector("u", 1), env.positive("k")
        if kind == "with another":
            one, two = m | ((q(r, k), u), (first, w)), m | Obs((second, v), (q(r, k), u))
        else:
            one = cross(g, q)((first, q(r)), B.block_diag(first.noise, q(r, k).noise))
            one, two = m | (one, np.concatenate([w, u])), m | ((q(r, k), u), (second, v))
    check_equal(env, one, two, ps, x, y)


@scenario(
    "C31",
    quick=[(o, k) for o in ("h - p", "s * p", "h * p", "transform", "h * shift + u", "copy") for k in CLASSES],
    bounds="approximations of which the observed process, the inducing process, or both are derived from the original ones: all posterior "
    "means and covariances, and the objectives; 1 or 2 observations and 1 inducing point",
)
def approximate(env):
    name, method = env.params
    model = Model(env, Measure(), 2)
    m, (f, q) = model.measure, model.ps
    way = ways(env, name, None)
    g = way[0](f)
    n = 1 if method == "fitc" else env.choice("n", [1, 2])
    z, v, N = env.inputs("z", n), env.vector("v", n), noise(env, "vector", n)
    t, w, W, a = moved(env, way, z, v, N)
    u, x, y = env.inputs("u", 1), env.inputs("x", 1), env.inputs("y", 1)
    moved(env, way, u, env.vector("zero", 1), noise(env, "none", 1))
    A = CLASSES[method]
    kind = env.choice("derived", ["observed", "inducing", "both"])
    us = {"observed": q(u), "inducing": g(u), "both": g(u)}[kind]
    ur = {"observed": q(u), "inducing": f(way[1](u)), "both": f(way[1](u))}[kind]
    data = (f(t, as_noise(env, N, "vector")), v)
    one = A(us, *data) if kind == "inducing" else A(us, g(z, as_noise(env, W, "vector")), w)
    two = A(ur, *data)
    check_equal(env, m | one, m | two, [f, q, g], x, y)
    e = 0
    if kind != "inducing":
        for i in range(n):
            e = e + B.log(a[i] * a[i]) / 2
    env.eq(one.elbo(m) + e, two.elbo(m), "objective")


@scenario(
    "C31",
    quick=["sum and difference", "rotation", "permutation", "repeated", "repeated points", "noise process", "noise and known noise", "split noise"],
    bounds="observations of linear combinations of two processes rather than of those, of one point twice rather than once, in another "
    "order, and noise-free observations of a process plus a white-noise process rather than noisy ones",
)
def combinations(env):
    form = env.params
    model = Model(env, Measure(), 2)
    m, (f, q) = model.measure, model.ps
    x, y, z = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 1)
    v = env.vector("v", 2)
    if form in ("sum and difference", "rotation"):
        # The processes are observed in another basis.
        if form == "rotation":
            a, b, c, d = 2, env.scalar("b"), env.scalar("c"), -1
            env.assume_pos((a * d - b * c) ** 2 - 1e-2)
        else:
            a, b, c, d = 1, 1, 1, -1
        g, h = a * f + b * q, c * f + d * q
        A = M(env, lambda i, j: [[a, b], [c, d]][i][j], 2, 2)
        N = env.psd("S", 2) if form == "sum and difference" else noise(env, "vector", 2)
        one = cross(g, h)((g(z), h(z)), A @ N @ A.T)
        two = cross(f, q)((f(z), q(z)), N)
        w = (A @ v[:, None])[:, 0]
        if form == "rotation":
            e = B.log((a * d - b * c) ** 2) / 2
            env.eq(m.logpdf(one, w) + e, m.logpdf(two, v), "log-density")
        check_equal(env, m | (one, w), m | (two, v), [f, q, g, h], x, y)
    elif form == "permutation":
        z3, s, w = env.inputs("z3", 3), env.positive_vector("s", 3), env.vector("w", 3)
        i = env.choice("order", [[1, 0, 2], [2, 0, 1], [2, 1, 0]])
        one, two = (f(z3, s), w), (f(z3[i], s[i]), w[i])
        check_equal(env, m | one, m | two, [f, q], x, y)
        env.eq(m.logpdf(*one), m.logpdf(*two), "log-density")
    elif form in ("repeated", "repeated points"):
        s = env.positive_vector("s", 2)
        n = s[0] * s[1] / (s[0] + s[1])
        w = (v[0] * s[1] + v[1] * s[0]) / (s[0] + s[1])
        two = m | (f(z, n), M(env, lambda i: w, 1))
        if form == "repeated":
            one = m | ((f(z, s[0]), v[:1]), (f(z, s[1]), v[1:]))
            check_equal(env, (m | (f(z, s[0]), v[:1])) | (f(z, s[1]), v[1:]), two, [f, q], x, y, "steps: ")
        else:
            one = m | (f(np.concatenate([z, z]), s), v)
        check_equal(env, one, two, [f, q], x, y)
    else:
        # White noise as a process.
        s, k = env.positive("s"), env.positive("k")
        Z = env.inputs("Z", 2)
        e = GP(s * Delta(), measure=m)
        distinct(env, Z, x, y)
        extra = {"noise process": None, "noise and known noise": k, "split noise": None}[form]
        if form == "split noise":
            e = e + GP(k * Delta(), measure=m)
        total = s if form == "noise process" else s + k
        one, two = (f + e)(Z, extra), f(Z, total)
        check_equal(env, m | (one, v), m | (two, v), [f, q], x, y)
        env.eq(m.logpdf(one, v), m.logpdf(two, v), "log-density")
        env.eq((f + e)(Z, extra).var, f(Z, total).var, "variance")
