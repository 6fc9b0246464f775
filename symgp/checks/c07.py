"""C07: conditioning in steps equals conditioning at once."""

import itertools

import numpy as np
from stheno import Measure, Obs, cross

from ..ops import apply
from ..ref import M, Model, block, blockdiag, col
from ..scenario import scenario
from .c06 import check_all, noise_of


def data(env, model, which, sizes, forms):
    """Data sets for the processes `which`."""
    ds = []
    for k, (i, n, kind) in enumerate(zip(which, sizes, forms)):
        noise, N = noise_of(env, kind, n, f"s{k}")
        ds.append((i, env.inputs(f"z{k}", n), env.vector(f"v{k}", n), noise, N))
    return ds


def reference(env, model, ds):
    obs = [(model.fields[i], z) for i, z, _, _, _ in ds]
    y = np.concatenate([col(v) for _, _, v, _, _ in ds], axis=0)
    return model.posterior(obs, y, blockdiag(env, [N for *_, N in ds]))

def condition(model, m, d, how):
    i, z, v, noise, _ = d
    p = model.ps[i]
    if how == "posterior process":
        return m | (m(p)(z, noise), v)
    if how == "process":
        return m | (p(z, noise), v)
    if how == "observations":
        return m | Obs(m(p)(z, noise), v)
    if how == "moved fdd":
        return m | (m(p(z, noise)), v)
    if how == "from a process":
        return (m(p) | (m(p)(z, noise), v)).measure
    raise KeyError(how)

HOWS = ["posterior process", "process", "observations", "moved fdd", "from a process"]

@scenario(
    "C07",
    quick=[(w, sz, h) for w in [(0, 1), (1, 1), (2, 0)] for sz in [(1, 1)] for h in HOWS]
    + [((0, 1), (2, 1), "posterior process"), ((1, 0), (1, 2), "posterior process")],
    thorough=[((2, 1), (2, 1), "process"), ((2, 1), (1, 2), "moved fdd"), ((0, 2), (2, 2), "posterior process")],
    bounds="two data sets of n1 and n2 points on two out of two correlated processes and a combination, "
    "in two steps in both orders; the second step states its data in five ways; noise of any form",
)
def two_steps(env):
    which, sizes, how = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    forms = [env.choice("noise", ["scalar", "matrix"]), "vector"]
    ds = data(env, model, which, sizes, forms)
    ref = reference(env, model, ds)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    a, b = (ds[1], ds[0]) if env.flag("reversed") else ds
    m1 = condition(model, model.measure, a, "process")
    if env.flag("ask between"):
        m1(model.ps[0]).mean(x), m1(model.ps[0]).kernel(x)
    m2 = condition(model, m1, b, how)
    check_all(env, model, m2, ref, x, y)

@scenario(
    "C07",
    quick=[(p,) for p in itertools.permutations(range(3))],
    bounds="three data sets of one point each on two correlated processes in three steps, in "
    "every order, and as two sets followed by one",
)
def three_steps(env):
    (order,) = env.params
    model = Model(env, Measure(), 2)
    ds = data(env, model, (0, 1, 0), (1, 1, 1), ("scalar", "vector", "scalar"))
    ref = reference(env, model, ds)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    m = model.measure
    a, b, c = [ds[k] for k in order]
    grouping = env.choice("grouping", ["1+1+1", "2+1", "1+2"])
    pair = lambda m, d: (m(model.ps[d[0]])(d[1], d[3]), d[2])  # noqa: E731
    if grouping == "1+1+1":
        m = condition(model, m, a, "process")
        m = condition(model, m, b, "posterior process")
        m = condition(model, m, c, "posterior process")
    elif grouping == "2+1":
        m = m.condition((model.ps[a[0]](a[1], a[3]), a[2]), (model.ps[b[0]](b[1], b[3]), b[2]))
        m = condition(model, m, c, "posterior process")
    else:
        m = condition(model, m, a, "process")
        m = m.condition(pair(m, b), pair(m, c))
    check_all(env, model, m, ref, x, y)

@scenario(
    "C07",
    quick=[(n,) for n in ("pairs", "points", "cross")],
    bounds="the order in which two data sets (of two and one points), the points of a data set, and "
    "the components of a Cartesian product are listed",
)
def listing(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    m = model.measure
    if kind == "points":
        (d,) = data(env, model, (0,), (3,), ("vector",))
        ref = reference(env, model, [d])
        order = env.choice("order", list(itertools.permutations(range(3))))
        idx = list(order)
        i, z, v, s, _ = d
        post = m | (model.ps[0](z[idx], s[idx]), v[idx])
    else:
        ds = data(env, model, (0, 1), (2, 1), ("vector", "scalar"))
        ref = reference(env, model, ds)
        (_, z0, v0, s0, N0), (_, z1, v1, s1, N1) = ds
        f, g = model.ps
        if kind == "pairs":
            if env.flag("reversed"):
                post = m.condition((g(z1, s1), v1), (f(z0, s0), v0))
            else:
                post = m.condition((f(z0, s0), v0), (g(z1, s1), v1))
        else:
            c = cross(g, f) if env.flag("cross reversed") else cross(f, g)
            if env.flag("reversed"):
                arg, v, N = (g(z1), f(z0)), np.concatenate([v1, v0]), blockdiag(env, [N1, N0])
            else:
                arg, v, N = (f(z0), g(z1)), np.concatenate([v0, v1]), blockdiag(env, [N0, N1])
            post = m | (c(arg, N), v)
    check_all(env, model, post, ref, x, y)

@scenario(
    "C07",
    quick=[(c, h) for c in ("cross", "later") for h in ("process", "posterior process", "product", "product tuple")]
    + [("combination", "process"), ("combination", "posterior process")],
    thorough=[("combination", "product")],
    bounds="a Cartesian product of two correlated processes, a combination of two products, and a product made after the "
    "first step, given two data sets of one or two points in two steps; the second set is of a process, or of the product at "
    "shared or at different inputs",
)
def products(env):
    kind, how = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    m = model.measure
    if kind == "cross":
        c = cross(f, g)
    elif kind == "combination":
        a = env.scalar("a")
        c = a * cross(f, g) - cross(g, f)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    first, second = data(env, model, (0, 1), (1, 1), ("scalar", "vector"))
    m1 = condition(model, m, first, "process")
    if kind == "later":
        c = cross(m1(f), m1(g))
    if env.flag("ask between"):
        m1(c).kernel(x, y), m1.kernels[c, f](x, y)
    F, G = model.fields
    parts = [F, G] if kind != "combination" else [F.times(lambda _: a) + G.times(lambda _: -1), G.times(lambda _: a) + F.times(lambda _: -1)]
    if how.startswith("product"):
        z, v, s = second[1], env.vector("v", 2), env.positive_vector("s", 2)
        w = env.inputs("w", 1) if how == "product tuple" else z
        if how == "product tuple":
            # Inputs of the parts of the product, by their own processes.
            q = m1 if kind == "later" else lambda p: p
            fdd = m1(c)((q(f)(z), q(g)(w)), s)
        else:
            fdd = m1(c)(z, s)
        m2 = m1 | (fdd, v)
        obs = [(F, first[1]), (parts[0], z), (parts[1], w)]
        ys = np.concatenate([col(first[2]), col(v)], axis=0)
        N = blockdiag(env, [first[4], M(env, lambda i, j: s[i] if i == j else 0, 2, 2)])
        ref = model.posterior(obs, ys, N)
    else:
        m2 = condition(model, m1, second, how)
        ref = reference(env, model, [first, second])
    env.eq(m2(c).mean(x), np.concatenate([ref.mean(p, x) for p in parts], axis=0), "mean")
    env.eq(m2(c).kernel(x, y), block([[ref.cov(p, q, x, y) for q in parts] for p in parts]), "kernel")
    env.eq(m2(c).kernel.elwise(x), np.concatenate([ref.cov(p, p, x) for p in parts], axis=0), "elwise")
    for p, q in zip(model.ps, model.fields):
        env.eq(m2.kernels[c, p](x, y), np.concatenate([ref.cov(r, q, x, y) for r in parts], axis=0), "covariance with a process")
        env.eq(m2.kernels[p, c](y, x), np.concatenate([ref.cov(q, r, y, x) for r in parts], axis=1), "covariance of a process")
    check_all(env, model, m2, ref, x, y)


@scenario(
    "C07",
    quick=[(w, r) for w in [(0, 1), (1, 1), (2, 0)] for r in ("second", "first", "both", "log-density", "three steps")],
    bounds="observation objects that were used for the prior before they are used for a posterior, or in another order",
)
def reused(env):
    which, how = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    m = model.measure
    ds = data(env, model, which, (1, 1), ("vector", "scalar"))
    ref = reference(env, model, ds)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    o1, o2 = [Obs(model.ps[i](z, noise), v) for i, z, v, noise, _ in ds]
    p = model.ps[env.choice("asked", [0, 1])]

    def use(m):
        m.means[p](x), m.kernels[p](x)
        return m

    if how == "second":
        use(m | o2)
        post = m | o1
        if env.flag("ask between"):
            use(post)
        post = post | o2
    elif how == "first":
        use(use(m | o2) | o1)
        post = use(m | o1) | o2
    elif how == "both":
        a, b = use(m | o1), use(m | o2)
        check_all(env, model, use(b | o1), ref, x, y)
        post = a | o2
    elif how == "log-density":
        before = m.logpdf(o2)
        after = (m | o1).logpdf(o2)
        joint = m.logpdf(*[(o.fdd, o.y) for o in (o1, o2)])
        env.eq(m.logpdf(o1) + after, joint, "chain rule")
        env.eq(m.logpdf(o2), before, "log-density again")
        post = m | o1 | o2
    else:
        # The same data twice is data with half the noise.
        d = ds[1]
        ref = reference(env, model, [ds[0], (*d[:4], d[4] / 2)])
        use(m | o2)
        post = use(m | o2 | o1) | o2
    check_all(env, model, post, ref, x, y)
