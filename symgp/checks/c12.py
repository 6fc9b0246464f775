"""C12: conditioning leaves the prior and existing processes untouched."""

import numpy as np
from stheno import GP, Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ops import apply
from ..ref import M, Model, blockdiag, col
from ..scenario import scenario
from .c10 import Approximation
from .c03 import PModel, add_product

METHODS = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


def check_law(env, model, m, law, x, y, label, pairs=None):
    """Means and covariances of processes under a measure. `law` has `mean` and `cov`."""
    n = len(model.ps)
    for i, (p, f) in enumerate(zip(model.ps, model.fields)):
        env.eq(m.means[p](x), law.mean(f, x), f"{label}mean {i}")
    for i in range(n):
        for j in range(n):
            if pairs is None or (i, j) in pairs:
                f, g = model.fields[i], model.fields[j]
                env.eq(m.kernels[model.ps[i], model.ps[j]](x, y), law.cov(f, g, x, y), f"{label}cov {i}, {j}")


def check_prior(env, model, x, y, label=""):
    m = model.measure
    check_law(env, model, m, model, x, y, label + "prior ")
    for i, (p, f) in enumerate(zip(model.ps, model.fields)):
        env.true(p.measure is m, f"{label}measure {i}")
        env.eq(p.mean(x), model.mean(f, x), f"{label}own mean {i}")
        env.eq(p.kernel(x), model.cov(f, f, x), f"{label}own kernel {i}")
        env.eq(p.kernel.elwise(x), M(env, lambda a, b: model.cov(f, f, x)[a, a], len(x), 1), f"{label}elwise {i}")
        d = p(x)
        env.eq(d.mean, model.mean(f, x), f"{label}fdd mean {i}")
        env.eq(d.var, model.cov(f, f, x), f"{label}fdd var {i}")


ACTIONS = ["condition a", "condition b", "condition both", "again a", "evaluate", "build", "logpdf", "copy"]


@scenario(
    "C12",
    quick=[(a, 3) for a in ACTIONS],
    thorough=[(a, 4) for a in ACTIONS],
    bounds="histories of k actions, the first one given: condition the prior or the last posterior on one of two "
    "shared sets of observations, or both; evaluate the last posterior; build processes; log-densities; copies. "
    "Afterwards the prior and all posteriors are compared at one or two points; one-point observations of two "
    "correlated processes",
)
def history(env):
    first, k = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    za, va, na = env.inputs("za", 1), env.vector("va", 1), env.positive("na")
    zb, vb, nb = env.inputs("zb", 1), env.vector("vb", 1), env.positive_vector("nb", 1)
    obs = {"a": Obs(model.ps[0](za, na), va), "b": Obs(model.ps[1](zb, nb), vb)}
    data = {
        "a": (model.fields[0], za, va, M(env, lambda i, j: na, 1, 1)),
        "b": (model.fields[1], zb, vb, M(env, lambda i, j: nb[0], 1, 1)),
    }

    def reference(names):
        d = [data[s] for s in names]
        return model.posterior(
            [(f, z) for f, z, _, _ in d],
            np.concatenate([col(v) for _, _, v, _ in d], axis=0),
            blockdiag(env, [N for *_, N in d]),
        )

    laws, built = [(m, "")], 0
    for step in range(k):
        act = first if step == 0 else env.choice(f"action {step}", ACTIONS)
        last, used = laws[-1]
        if act in ("condition a", "condition b"):
            s = act[-1]
            if s in used:
                # The same data twice is data with half the noise: use it under the prior.
                last, used = m, ""
            laws.append((last | obs[s], used + s))
        elif act == "condition both":
            laws.append((m | Obs((model.ps[0](za, na), va), (model.ps[1](zb, nb), vb)), "ab"))
        elif act == "again a":
            laws.append((m.condition(obs["a"]), "a"))
        elif act == "evaluate":
            for p in model.ps:
                last.means[p](x), last.kernels[p](x, y)
        elif act == "build":
            apply(env, model, built, ["p - q", "c * p"][built % 2], 1, built % 2, 1)
            built += 1
        elif act == "logpdf":
            for s in "ab":
                if s not in used:
                    last.logpdf(obs[s])
        elif act == "copy":
            q = last(model.ps[0])
            q.mean(x), q.kernel(x, y)
            env.true(q.measure is last, "measure of copy")
    check_prior(env, model, x, y)
    for i, (post, used) in enumerate(laws[1:]):
        check_law(env, model, post, reference(used), x, y, f"posterior {i} ", pairs=[(0, 0), (0, 1)] + [(len(model.ps) - 1, 0)])


@scenario(
    "C12",
    quick=[(c, r) for c in METHODS for r in ("prior first", "posterior first", "interleaved")],
    bounds="one set of inducing-point observations used under the prior and a posterior, in three orders; one "
    "inducing point and one datum",
)
def sparse(env):
    method, order = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    z, w, v, s = env.inputs("z", 1), env.inputs("w", 1), env.vector("v", 1), env.positive_vector("s", 1)
    zb, vb, nb = env.inputs("zb", 1), env.vector("vb", 1), env.positive_vector("nb", 1)
    obs = METHODS[method](model.ps[0](z), model.ps[1](w, s), v)
    N = M(env, lambda i, j: s[0], 1, 1)
    # The law under a posterior, as a model.
    ref = model.posterior([(model.fields[0], zb)], vb, M(env, lambda i, j: nb[0], 1, 1))
    ref.joint = lambda o: (
        np.concatenate([ref.mean(f, u) for f, u in o], axis=0),
        np.concatenate([np.concatenate([ref.cov(f, g, u, t) for g, t in o], axis=1) for f, u in o], axis=0),
    )
    m2 = m | (model.ps[0](zb, nb), vb)
    U, D = [(model.fields[0], z)], [(model.fields[1], w)]
    A = Approximation(env, model, method, U, D, v, N)
    B = Approximation(env, ref, method, U, D, v, N)
    if order == "prior first":
        p1, e1 = m | obs, m.logpdf(obs)
        p1(model.ps[1]).mean(x)
        p2, e2 = m2 | obs, m2.logpdf(obs)
    elif order == "posterior first":
        p2, e2 = m2 | obs, m2.logpdf(obs)
        p2(model.ps[1]).mean(x)
        p1, e1 = m | obs, m.logpdf(obs)
    else:
        p1, p2 = m | obs, m2 | obs
        e2, e1 = obs.elbo(m2), obs.elbo(m)
    env.eq(e1, A.objective, "objective under the prior")
    env.eq(e2, B.objective, "objective under the posterior")
    for name, post, law in (("prior ", p1, A), ("posterior ", p2, B)):
        for i in (0, 1):
            env.eq(post.means[model.ps[i]](x), law.mean(model.fields[i], x), f"{name}mean {i}")
        env.eq(post.kernels[model.ps[0], model.ps[1]](x, y), law.cov(*model.fields, x, y), name + "cov")
    check_prior(env, model, x, y)


WAYS = ["p + q", "p - q", "p + c", "h * p", "shift", "stretch", "product", "cross", "new", "transform"]


@scenario(
    "C12",
    quick=[(k,) for k in (0, 1, 2, 5, 9)] + [("nested",)],
    thorough=[(k,) for k in (3, 4, 7, 16, 33)],
    bounds="k posteriors of the prior exist (or three nested ones, each of the one before) when processes are built in "
    "every way; the measure and the law of all processes before and after",
)
def many(env):
    (k,) = env.params
    model = PModel(env, Measure(), 2)
    m = model.measure
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, v, s = env.inputs("z", 1), env.vector("v", 1), env.positive("s")
    posts = []
    if k == "nested":
        last = m
        for i in range(3):
            last = last | (model.ps[i % 2](z + i, s), v)
            posts.append(last)
    else:
        for i in range(k):
            posts.append(m | (model.ps[i % 2](z, s), v))
    way = env.choice("way", WAYS)
    p, q = model.ps
    laws = []
    for i, post in enumerate(posts[:2]):
        if k != "nested":
            laws.append((post, model.posterior([(model.fields[i % 2], z)], v, M(env, lambda *_: s, 1, 1))))
    if way == "product":
        add_product(model, 0, 1)
        r = model.ps[-1]
    elif way == "cross":
        r = cross(p, q)
        K = np.concatenate(
            [np.concatenate([model.cov(f, g, x) for g in model.fields], axis=1) for f in model.fields], axis=0
        )
        env.eq(r(x).mean, np.concatenate([model.mean(f, x) for f in model.fields], axis=0), "mean of cross")
        env.eq(r(x).var, K, "var of cross")
    elif way == "new":
        r = GP(env.kernel("k_new"), measure=m)
        env.eq(r.kernel(x, y), env.kernel("k_new")(x, y), "kernel of a new process")
    else:
        r, _ = apply(env, model, 0, way, 1, 0, 1)
    env.true(r.measure is m, "measure of the new process")
    if way == "cross":
        # The new process is part of the posteriors too.
        for i, (post, law) in enumerate(laws):
            fs = model.fields
            K = np.concatenate([np.concatenate([law.cov(f, g, x, y) for g in fs], axis=1) for f in fs], axis=0)
            env.eq(post.means[r](x), np.concatenate([law.mean(f, x) for f in fs], axis=0), f"mean in posterior {i}")
            env.eq(post.kernels[r](x, y), K, f"kernel in posterior {i}")
    elif way not in ("new", "product"):
        for i, (post, law) in enumerate(laws):
            env.eq(post.means[r](x), law.mean(model.fields[-1], x), f"mean in posterior {i}")
            env.eq(post.kernels[r](x, y), law.cov(model.fields[-1], model.fields[-1], x, y), f"kernel in posterior {i}")
            env.eq(post.kernels[r, q](x, y), law.cov(model.fields[-1], model.fields[1], x, y), f"covariance in posterior {i}")
    env.true(all(r in post.ps for post in posts) or way == "new", "the new process is part of the posteriors")
    # Processes of the posteriors, and those built from them, report the posterior.
    for i, post in enumerate(posts[:5]):
        c = post(p)
        env.true(c.measure is post, f"measure of a copy in posterior {i}")
        env.true((c + post(q)).measure is post, f"measure of a sum in posterior {i}")
        env.true((2 * c).measure is post, f"measure of a multiple in posterior {i}")
    env.true((r + p).measure is m and (r + r).measure is m, "measure of sums")
    check_prior(env, model, x, y)


COPY_WAYS = ["p + q", "p + c", "h * p", "shift", "cross"]


@scenario(
    "C12",
    quick=[(w, a) for w in COPY_WAYS for a in ("posterior of prior", "posterior of posterior", "both", "copy again")],
    bounds="processes of a posterior, after which further posteriors and copies are made of the prior, of the posterior, or "
    "of both; then processes are derived from the older ones; one or two inputs",
)
def copies(env):
    way, then = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, v, s = env.inputs("z", 1), env.vector("v", 1), env.positive("s")
    w, u, r = env.inputs("w", 1), env.vector("u", 1), env.positive("r")
    N, R = M(env, lambda *_: s, 1, 1), M(env, lambda *_: r, 1, 1)
    f, g = model.ps
    F, G = model.fields
    m1 = m | (f(z, s), v)
    law1 = model.posterior([(F, z)], v, N)
    law12 = model.posterior([(F, z), (G, w)], np.concatenate([col(v), col(u)], axis=0), blockdiag(env, [N, R]))
    law2 = model.posterior([(G, w)], u, R)
    p, q = m1(f), m1(g)
    size, size1 = len(m.ps), len(m1.ps)
    later = []
    if then in ("posterior of prior", "both"):
        later.append((m | (g(w, r), u), law2))
    if then in ("posterior of posterior", "both"):
        later.append((m1 | (q(w, r), u), law12))
    if then == "copy again":
        later.append((m | (g(w, r), u), law2))
        later[-1][0](f), m1(p), m(g)
    env.true(len(m1.ps) == size1 + (then == "copy again"), "processes of the posterior")
    env.true(len(m.ps) == size + (then == "copy again"), "processes of the prior")
    env.true(p.measure is m1 and q.measure is m1, "measure of copies")
    if way == "cross":
        d, fs = cross(p, q), [F, G]
        e = cross(f, g)
    else:
        sub = Model.__new__(Model)
        sub.__dict__.update(model.__dict__)
        sub.ps, sub.fields = [p, q], [F, G]
        d, D = apply(env, sub, 0, way, 1, 0, 1)
        fs = [D]
        e, _ = apply(env, model, 0, way, 1, 0, 1)

    def check(measure, law, a, label):
        mu = np.concatenate([law.mean(h, x) for h in fs], axis=0)
        K = np.concatenate([np.concatenate([law.cov(h, k, x, y) for k in fs], axis=1) for h in fs], axis=0)
        env.eq(measure.means[a](x), mu, label + "mean")
        env.eq(measure.kernels[a](x, y), K, label + "kernel")

    env.true(d.measure is m1, "measure of a process from copies")
    env.true(e.measure is m, "measure of a process from the prior")
    check(m1, law1, d, "posterior: ")
    check(m1, law1, e, "posterior, from the prior: ")
    check(m, model, e, "prior: ")
    for post, law in later:
        check(post, law, e, "later: ")
    env.eq(d.mean(x), m1.means[d](x), "own mean")
    env.eq(p.mean(x), law1.mean(F, x), "own mean of a copy")
    env.eq(p.kernel(x, y), law1.cov(F, F, x, y), "own kernel of a copy")
