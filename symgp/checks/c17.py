"""C17: samples are mean plus a root of the variance times fresh noise."""

import numpy as np

from stheno import Measure, Obs, cross

from ..env import State, global_state
from ..ops import apply
from ..ref import M, Model, block, blockdiag
from ..scenario import scenario
from .c04 import parts_cov, parts_mean
from .c15 import FORMS, normal_of


def flat(samples):
    """All elements, in order."""
    return np.concatenate([s.reshape(-1) for s in samples], axis=0)


def check_affine(env, run, mean, var, shapes, label=""):
    """`run` gives samples for a random state: they must be affine in the draws, with mean
    `mean` and with covariance `var`, which are those of the elements in order. Gives the
    samples of the generic run."""
    state = env.random_state("eps")
    S = run(state)
    env.true([tuple(np.shape(s)) for s in S] == shapes, label + "shapes")
    if [tuple(np.shape(s)) for s in S] != shapes:
        return
    draws = [(key, ind) for key in sorted(state.book) for ind in np.ndindex(*key[1])]
    n = mean.shape[0]

    def at(unit):
        def give(key, value):
            r = np.zeros(key[1])
            if unit is not None and key == unit[0]:
                r[unit[1]] = 1
            return r

        return flat(run(state.fresh(give)))

    f0 = at(None)
    cols = [at(d) - f0 for d in draws]
    env.eq(f0, mean, label + "mean")
    total = f0
    for d, c in zip(draws, cols):
        total = total + state.book[d[0]][d[1]] * c
    env.eq(flat(S), total, label + "affine")
    env.eq(M(env, lambda i, j: sum(c[i] * c[j] for c in cols), n, n), var, label + "variance")


def add_diag(env, K, s):
    return M(env, lambda i, j: K[i, j] + (s if i == j else 0), *K.shape)


def repeat(env, mu, K, num):
    """Mean and covariance of the elements of `num` independent samples as columns."""
    n = K.shape[0]
    m = M(env, lambda a: mu[a // num, 0], n * num)
    V = M(env, lambda a, b: K[a // num, b // num] if a % num == b % num else 0, n * num, n * num)
    return m, V


def split(env, mu, K, sizes, num):
    """The same for samples that are split."""
    return repeat(env, mu, K, num), [(s, num) for s in sizes]




@scenario(
    "C17",
    quick=[(f, n, k) for f in FORMS for n, k in [(1, 1), (2, 1), (2, 2), (1, 3)]],
    thorough=[(f, 3, 1) for f in FORMS] + [("dense", 3, 2), ("fdd", 2, 3)],
    bounds="num samples of a normal of dimension n in the given form, with and without a scalar amount of extra noise, "
    "in every way to ask for it",
)
def normals(env):
    form, n, num = env.params
    dist, mu, K = normal_of(env, form, n)
    if env.flag("noise"):
        s = env.positive("extra")
        K = add_diag(env, K, s)
    else:
        s = None
    if num == 1:
        how = env.choice("how", ["default", "number", "keyword"])
        args, kw = ((), {}) if how == "default" else ((1,), {}) if how == "number" else ((), {"num": 1})
    else:
        how = env.choice("how", ["number", "keyword"])
        args, kw = ((num,), {}) if how == "number" else ((), {"num": num})
    if s is not None:
        kw["noise"] = s
    m, V = repeat(env, mu, K, num)

    def given(state):
        new, x = dist.sample(state, *args, **kw)
        env.true(isinstance(new, State), "the state is returned")
        env.true(new.k > state.k or new is state, "the state has advanced")
        return [x]

    check_affine(env, given, m, V, [(n, num)])

    def from_global(state):
        with global_state(state):
            x = dist.sample(*args, **kw)
        return [x]

    check_affine(env, from_global, m, V, [(n, num)], "global: ")


@scenario(
    "C17",
    quick=[(w,) for w in ("normal", "normal global", "measure", "measure global", "normal then measure", "fdd noise")],
    bounds="two samples in a row, from the state that was returned or the global one, are independent; two points",
)
def consecutive(env):
    (way,) = env.params
    model = Model(env, Measure(), 2)
    x, s = env.inputs("x", 1), env.positive("s")
    p, q = model.ps
    parts = [(model.fields[0], x), (model.fields[1], x)]
    mu, K = model.joint(parts)
    K = add_diag(env, K, s)
    single = M(env, lambda i, j: K[0, 0], 1, 1)
    m = model.measure
    joint = lambda state: m.sample(state, p(x, s), q(x, s))  # noqa: E731
    if way == "normal":

        def run(state):
            state, a = p(x, s).sample(state)
            state, b = p(x, s).sample(state)
            return [a, b]

    elif way == "normal global":

        def run(state):
            with global_state(state):
                return [p(x, s).sample(), p(x, s).sample()]

    elif way == "fdd noise":

        def run(state):
            with global_state(state):
                return [p(x).sample(noise=s), p(x).sample(1, noise=s)]

    elif way == "measure":

        def run(state):
            state, a, b = joint(state)
            state, c, d = joint(state)
            return [a, b, c, d]

    elif way == "measure global":

        def run(state):
            with global_state(state):
                a, b = m.sample(p(x, s), q(x, s))
                c, d = m.sample(1, p(x, s), q(x, s))
                env.true(all(isinstance(t, np.ndarray) for t in (a, b, c, d)), "samples")
                return [a, b, c, d]

    else:

        def run(state):
            state, a = p(x, s).sample(state)
            state, b, c = joint(state)
            return [a, b, c]

    if way in ("normal", "normal global", "fdd noise"):
        V, mean = blockdiag(env, [single] * 2), M(env, lambda i: mu[0, 0], 2)
    elif way == "normal then measure":
        V, mean = blockdiag(env, [single, K]), M(env, lambda i: mu[max(i - 1, 0), 0], 3)
    else:
        V, mean = blockdiag(env, [K, K]), M(env, lambda i: mu[i % 2, 0], 4)
    check_affine(env, run, mean, V, [(1, 1)] * V.shape[0])


LISTS = {
    "p": (("p", 2),),
    "p, q": (("p", 1), ("q", 1)),
    "q, p": (("q", 2), ("p", 1)),
    "p, p": (("p", 1), ("p", 1)),
    "p, q, r": (("p", 1), ("q", 1), ("r", 1)),
    "c": (("c", 1),),
    "p, c": (("p", 1), ("c", 1)),
    "c, p": (("c", 1), ("p", 1)),
    "t, q": (("t", None), ("q", 1)),
    "p noisy, p": (("p noisy", 1), ("p", 1)),
}


def build(env, model, kind, n, k):
    """A finite-dimensional distribution: its parts and its noise as a matrix."""
    x = env.inputs(f"x{k}", n or 1)
    s = env.positive(f"s{k}")
    f, g = model.ps[:2]
    if kind == "c":
        d, parts = cross(f, g)(x, s), [(model.fields[0], x), (model.fields[1], x)]
    elif kind == "t":
        y = env.inputs(f"y{k}", 1)
        d, parts = cross(f, g)((g(x), f(y)), s), [(model.fields[1], x), (model.fields[0], y)]
    else:
        i = {"p": 0, "q": 1, "r": 2}[kind[0]]
        if kind.endswith("noisy"):
            noise = env.psd(f"n{k}", n)
            return model.ps[i](x, noise), [(model.fields[i], x)], noise
        d, parts = model.ps[i](x, s), [(model.fields[i], x)]
    n = sum(len(u) for _, u in parts)
    return d, parts, M(env, lambda i, j: s if i == j else 0, n, n)


@scenario(
    "C17",
    quick=[(k, num) for k in LISTS for num in (1, 2) if num == 1 or k in ("p", "q, p", "p, c")],
    thorough=[(k, 2) for k in LISTS if k not in ("p", "q, p", "p, c")],
    bounds="joint samples of several finite-dimensional distributions of two correlated processes, a combination and "
    "their Cartesian product, with noise: joint law, split, order, and sizes",
)
def joint(env):
    kind, num = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    items = [build(env, model, k, n, i) for i, (k, n) in enumerate(LISTS[kind])]
    fdds = [d for d, _, _ in items]
    parts = [a for _, ps, _ in items for a in ps]
    mu, K = parts_mean(model, parts), parts_cov(model, parts, parts) + blockdiag(env, [N for *_, N in items])
    (m, V), shapes = split(env, mu, K, [N.shape[0] for *_, N in items], num)
    how = env.choice("how", ["state, num", "global, num"] + (["state", "global"] if num == 1 else []))

    def run(state):
        if how.startswith("state"):
            args = (num,) if how == "state, num" else ()
            new, *xs = model.measure.sample(state, *args, *fdds)
            env.true(isinstance(new, State) and (new.k > state.k or new is state), "the state is returned")
            return xs
        with global_state(state):
            xs = model.measure.sample(*((num,) if how == "global, num" else ()), *fdds)
        # A single sample is not in a list.
        return [xs] if len(fdds) == 1 else list(xs)

    check_affine(env, run, m, V, shapes)


@scenario(
    "C17",
    quick=[(w, k) for w in ("fdd", "prior fdd", "posterior fdds", "measure at fdd") for k in ("p", "p, q")],
    bounds="samples under a posterior of distributions of prior and of posterior processes; one-point observation, "
    "one point each",
)
def posterior(env):
    way, kind = env.params
    model = Model(env, Measure(), 2)
    p, q = model.ps
    x, z, v = env.inputs("x", 1), env.inputs("z", 1), env.vector("v", 1)
    s, t = env.positive("s"), env.positive("t")
    post = model.measure | Obs(p(z, s), v)
    ref = model.posterior([(model.fields[0], z)], v, M(env, lambda i, j: s, 1, 1))
    fs = [1] if kind == "p" else [1, 0]
    n = len(fs)
    mu = np.concatenate([ref.mean(model.fields[i], x) for i in fs], axis=0)
    K = block([[ref.cov(model.fields[i], model.fields[j], x) for j in fs] for i in fs])
    K = K + M(env, lambda i, j: t if i == j else 0, n, n)
    if way == "fdd":
        if n == 2:
            run = lambda state: [cross(*[post(model.ps[i]) for i in fs])(x, t).sample(state)[1]]  # noqa: E731
            shapes = [(2, 1)]
        else:
            run = lambda state: [post(q)(x).sample(state, noise=t)[1]]  # noqa: E731
            shapes = [(1, 1)]
    else:
        if way == "prior fdd":
            fdds = [model.ps[i](x, t) for i in fs]
        elif way == "posterior fdds":
            fdds = [post(model.ps[i])(x, t) for i in fs]
        else:
            fdds = [post(model.ps[i](x, t)) for i in fs]
        run = lambda state: list(post.sample(state, *fdds)[1:])  # noqa: E731
        shapes = [(1, 1)] * n
    check_affine(env, run, mu[:, 0], K, shapes)
