"""C06: conditioning gives the exact Gaussian conditional for every process."""

import numpy as np
from lab import B
from matrix import Diagonal
from stheno import GP, Measure, Obs

from ..ops import apply, op_names
from ..ref import M, Model, blockdiag, col, dense_noise
from ..scenario import scenario

NOISES = ["none", "zero", "scalar", "vector", "matrix", "diagonal", "scalar int"]


def noise_of(env, kind, n, name="s"):
    """Noise in one of its forms, and as a matrix."""
    if kind == "none":
        noise = None
    elif kind == "zero":
        noise = 0
    elif kind == "scalar int":
        noise = 2
    elif kind == "scalar":
        noise = env.positive(name)
    elif kind == "vector":
        noise = env.positive_vector(name, n)
    elif kind == "matrix":
        noise = env.psd(name, n)
    elif kind == "diagonal":
        noise = Diagonal(env.positive_vector(name, n))
    else:
        raise KeyError(kind)
    return noise, dense_noise(env, noise, n)


def check_all(env, model, post, ref, x, y, label="", n=None):
    """All posterior means and covariances of all pairs."""
    for i, (p, f) in enumerate(zip(model.ps, model.fields)):
        env.eq(post(p).mean(x), ref.mean(f, x), f"{label}mean {i}")
        env.eq(post.means[p](x), ref.mean(f, x), f"{label}means[{i}]")
        env.eq(post(p).kernel(x, y), ref.cov(f, f, x, y), f"{label}kernel {i}")
        env.eq(
            post(p).kernel.elwise(x),
            np.diag(ref.cov(f, f, x))[:, None] if not env.symbolic else M(env, lambda a, b: ref.cov(f, f, x)[a, a], len(x), 1),
            f"{label}elwise {i}",
        )
        for j, (q, g) in enumerate(zip(model.ps, model.fields)):
            if i != j:
                env.eq(post.kernels[p, q](x, y), ref.cov(f, g, x, y), f"{label}cov {i}, {j}")


@scenario(
    "C06",
    quick=[(k, n) for k in NOISES for n in (1, 2)] + [("scalar", 3)],
    thorough=[("vector", 3), ("matrix", 3), ("none", 3), ("scalar", 4)],
    bounds="two correlated processes and a linear combination; the second is observed at n points "
    "with noise in the given form; means and all pairs at 2 and 1 points",
)
def single(env):
    kind, n = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    k = 2 if n < 3 else 1
    x, y = env.inputs("x", k), env.inputs("y", 1)
    z, v = env.inputs("z", n), env.vector("v", n)
    noise, N = noise_of(env, kind, n)
    which = env.choice("observed", [0, 1, 2] if n < 3 else [1])
    post = model.measure | (model.ps[which](z, noise), v)
    ref = model.posterior([(model.fields[which], z)], v, N)
    check_all(env, model, post, ref, x, y)


@scenario(
    "C06",
    quick=[(a, b, n1, n2) for a, b in [(0, 1), (1, 0), (0, 0), (2, 1)] for n1, n2 in [(1, 1), (2, 1)]],
    thorough=[(0, 1, 2, 2), (2, 0, 1, 2), (2, 2, 1, 1)],
    bounds="observations of two processes out of two correlated ones and a linear combination, at "
    "n1 and n2 points, noise of different forms for the two",
)
def several(env):
    a, b, n1, n2 = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "c * p", 1, 0, 1)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z1, v1 = env.inputs("z1", n1), env.vector("v1", n1)
    z2, v2 = env.inputs("z2", n2), env.vector("v2", n2)
    s1, N1 = noise_of(env, "vector", n1, "s1")
    s2, N2 = noise_of(env, env.choice("noise", ["scalar", "matrix"]), n2, "s2")
    form = env.choice("form", ["pairs", "obs", "pairs or"])
    pairs = [(model.ps[a](z1, s1), v1), (model.ps[b](z2, s2), v2)]
    if form == "pairs":
        post = model.measure.condition(*pairs)
    elif form == "obs":
        post = model.measure | Obs(*pairs)
    else:
        post = model.measure.__or__(*pairs)
    obs = [(model.fields[a], z1), (model.fields[b], z2)]
    ref = model.posterior(obs, np.concatenate([col(v1), col(v2)], axis=0), blockdiag(env, [N1, N2]))
    check_all(env, model, post, ref, x, y)


FORMS = [
    "m | pair", "m | obs", "m.condition(fdd, y)", "m.condition(pair)", "m.condition(obs)",
    "p | pair", "p | obs", "p.condition(fdd, y)", "p.condition(obs)", "q | pair",
    "column", "matrix column",
]  # fmt: skip


@scenario(
    "C06",
    quick=[(f,) for f in FORMS],
    bounds="each way to state the same data: one process of two observed at 2 points with vector noise",
)
def forms(env):
    (form,) = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, v = env.inputs("z", 2), env.vector("v", 2)
    noise, N = noise_of(env, "vector", 2)
    fdd = p(z, noise)
    ref = model.posterior([(model.fields[0], z)], v, N)
    one = {
        "p | pair": lambda: p | (fdd, v),
        "p | obs": lambda: p | Obs(fdd, v),
        "p.condition(fdd, y)": lambda: p.condition(fdd, v),
        "p.condition(obs)": lambda: p.condition(Obs(fdd, v)),
        "q | pair": lambda: q | (fdd, v),
    }
    if form in one:
        r = one[form]()
        f = model.fields[1 if form[0] == "q" else 0]
        env.eq(r.mean(x), ref.mean(f, x), "mean")
        env.eq(r.kernel(x, y), ref.cov(f, f, x, y), "kernel")
        env.true(r.measure is not m, "measure")
        r = r.measure
    else:
        r = {
            "m | pair": lambda: m | (fdd, v),
            "m | obs": lambda: m | Obs(fdd, v),
            "m.condition(fdd, y)": lambda: m.condition(fdd, v),
            "m.condition(pair)": lambda: m.condition((fdd, v)),
            "m.condition(obs)": lambda: m.condition(Obs(fdd, v)),
            "column": lambda: m | (fdd, v[:, None]),
            "matrix column": lambda: m.condition(Obs((fdd, v[:, None]))),
        }[form]()
    check_all(env, model, r, ref, x, y)


@scenario(
    "C06",
    quick=[(k,) for k in ["pair", "pairs", "one empty", "all empty pairs"]],
    bounds="data sets of which some or all are empty, two processes",
)
def empty(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    m, (p, q) = model.measure, model.ps
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, v = env.inputs("z", 1), env.vector("v", 1)
    e = np.zeros(0)
    noise, N = noise_of(env, env.choice("noise", ["scalar", "none"]), 1)
    enoise = env.choice("noise of empty", [None, 0, np.zeros(0)])
    obs, w, NN = [], None, None
    if kind == "pair":
        post = m | (p(e, enoise), e)
    elif kind == "all empty pairs":
        post = m.condition((p(e, enoise), e), (q(e), e))
    elif kind == "one empty":
        pairs = [(p(z, noise), v), (q(e, enoise), e)]
        if env.flag("reversed"):
            pairs = pairs[::-1]
        post = m.condition(*pairs)
        obs = [(model.fields[0], z)]
    else:
        post = m | Obs(p(e, enoise), e)
    if obs:
        ref = model.posterior(obs, v, N)
        check_all(env, model, post, ref, x, y)
    else:
        check_all(env, model, post, model, x, y)


@scenario(
    "C06",
    quick=[(d, n) for d in (2,) for n in (1, 2)] + [(3, 1)],
    bounds="inputs of d dimensions, n observations",
)
def dims(env):
    d, n = env.params
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 1, d), env.inputs("y", 1, d)
    z, v = env.inputs("z", n, d), env.vector("v", n)
    noise, N = noise_of(env, "scalar", n)
    post = model.measure | (model.ps[0](z, noise), v)
    ref = model.posterior([(model.fields[0], z)], v, N)
    check_all(env, model, post, ref, x, y)


@scenario(
    "C06",
    quick=[("zero mean",), ("uncorrelated",), ("constant",)],
    bounds="models with zero means, with independent processes, and with scalars for mean and kernel",
)
def special(env):
    from stheno import GP

    (kind,) = env.params
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, v = env.inputs("z", 2), env.vector("v", 2)
    noise, N = noise_of(env, "scalar", 2)
    if kind == "constant":
        m = Measure()
        a = env.scalar("a")
        model = Model(env, m, 0)
        k = env.kernel("k")
        p = GP(a, k, measure=m)
        c = GP(env.positive("b"), measure=m)
        s = p + c
        b = env.positive("b")
        kv = lambda xs, ys: M(env, lambda i, j: k.value((xs[i],), (ys[j],)), len(xs), len(ys))  # noqa
        A = kv(z, z) + b + N
        Ai = np.linalg.inv(A)
        post = m | (s(z, noise), v)
        one = lambda n, mm: M(env, lambda i, j: b, n, mm)  # noqa: E731
        w = Ai @ (col(v) - M(env, lambda i, j: a, 2, 1))
        env.eq(post(p).mean(x), M(env, lambda i, j: a, 2, 1) + kv(x, z) @ w, "mean p")
        env.eq(post(c).mean(x), one(2, 2) @ w, "mean c")
        env.eq(post(p).kernel(x, y), kv(x, y) - kv(x, z) @ Ai @ kv(z, y), "kernel p")
        env.eq(post(c).kernel(x, y), one(2, 1) - one(2, 2) @ Ai @ one(2, 1), "kernel c")
        env.eq(post.kernels[p, c](x, y), -kv(x, z) @ Ai @ one(2, 1), "cov p, c")
        return
    model = Model(env, Measure(), 2, correlated=kind != "uncorrelated", zero_mean=kind == "zero mean")
    apply(env, model, 0, "p + q", 1, 0, 1)
    which = env.choice("observed", [0, 2])
    post = model.measure | (model.ps[which](z, noise), v)
    ref = model.posterior([(model.fields[which], z)], v, N)
    check_all(env, model, post, ref, x, y)


@scenario(
    "C06",
    quick=[(o,) for o in op_names(1)],
    bounds="observations of two correlated processes are made before a third process is made from one of "
    "the two by any operation, and are conditioned on after",
)
def process_made_later(env):
    (name,) = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z1, z2 = env.inputs("z1", 1), env.inputs("z2", 1)
    v1, v2 = env.vector("v1", 1), env.vector("v2", 1)
    s, N = noise_of(env, "vector", 2)
    obs = Obs((g(z1, s[:1]), v1), (f(z2, s[1:]), v2))
    apply(env, model, 0, name, 1, 0, 1)
    post = model.measure | obs
    ref = model.posterior([(G, z1), (F, z2)], np.concatenate([v1, v2]), N)
    check_all(env, model, post, ref, x, y)


@scenario(
    "C06",
    quick=[(o, k) for o in op_names(1) for k in ("one posterior",)] + [(o, "two posteriors") for o in ("p + c", "h * p", "p - q", "transform")],
    bounds="a third process is made from one of two correlated processes by any operation after the model has been "
    "conditioned: its law in the posteriors that exist, and in one that is made after that with the same observations; also of a "
    "process that is independent of the others",
)
def process_made_after(env):
    name, kind = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    f, g = model.ps
    F, G = model.fields
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z1, z2 = env.inputs("z1", 1), env.inputs("z2", 1)
    v1, v2 = env.vector("v1", 1), env.vector("v2", 1)
    s, N = noise_of(env, "vector", 2)
    obs = Obs((g(z1, s[:1]), v1), (f(z2, s[1:]), v2))
    ref = model.posterior([(G, z1), (F, z2)], np.concatenate([v1, v2]), N)
    posts = [(m | obs, ref, "")]
    if kind == "two posteriors":
        one = model.posterior([(G, z1)], v1, N[:1, :1])
        posts.append((m | (g(z1, s[:1]), v1), one, "other: "))
        posts.append((posts[1][0] | (f(z2, s[1:]), v2), ref, "in steps: "))
    apply(env, model, 0, name, 1, 0, 1)
    k, mu = env.kernel("k_new"), env.mean("m_new")
    new = GP(mu, k, measure=m)
    posts.append((m | obs, ref, "again: "))
    for post, law, label in posts:
        check_all(env, model, post, law, x, y, label)
    post = posts[-1][0]
    env.eq(post(new).mean(x), M(env, lambda i, j: mu.value((x[0],)), 1, 1), "new: mean")
    env.eq(post(new).kernel(x, y), M(env, lambda i, j: k.value((x[0],), (y[0],)), 1, 1), "new: kernel")
    for i, p in enumerate(model.ps):
        env.eq(post.kernels[new, p](x, y), M(env, lambda i, j: 0, 1, 1), f"new: cov with {i}")
        env.eq(post.kernels[p, new](x, y), M(env, lambda i, j: 0, 1, 1), f"new: cov of {i}")
