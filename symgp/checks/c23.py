"""C23: moving a distribution to another measure keeps inputs and noise."""

import numpy as np
from lab import B
from stheno import Measure, cross

from ..ops import apply, op_names
from ..ref import M, Model, blockdiag, col, dense_noise
from ..scenario import scenario
from .c04 import parts_cov, parts_mean
from .c06 import NOISES, check_all, noise_of
from .c08 import rows, sub

MEASURES = ["itself", "posterior", "posterior of posterior"]


def moved_to(env, model, kind, tag=""):
    """A measure to move to, and the laws there."""
    m = model.measure
    if kind == "itself":
        return m, model
    z, v, s = env.inputs(f"z{tag}", 1), env.vector(f"v{tag}", 1), env.positive(f"s{tag}")
    post = m | (model.ps[1](z, s), v)
    obs, vs, N = [(model.fields[1], z)], [col(v)], [M(env, lambda i, j: s, 1, 1)]
    if kind == "posterior of posterior":
        w, u, r = env.inputs(f"w{tag}", 1), env.vector(f"u{tag}", 1), env.positive(f"r{tag}")
        post = post | (post(model.ps[0])(w, r), u)
        obs.append((model.fields[0], w))
        vs.append(col(u))
        N.append(M(env, lambda i, j: r, 1, 1))
    return post, model.posterior(obs, np.concatenate(vs, axis=0), blockdiag(env, N))


def same_noise(env, d, noise, n, label):
    env.eq(B.dense(d.noise), dense_noise(env, noise, n), label)


@scenario(
    "C23",
    quick=[(o, t) for o in op_names(1) for t in MEASURES[:2]] + [("2 * p", t) for t in MEASURES[2:]],
    bounds="a process made by any single operation, at two inputs with noise of any form, moved to its own measure, to a "
    "posterior, and to a posterior of a posterior",
)
def distributions(env):
    name, target = env.params
    model = Model(env, Measure(), 2)
    if name == "2 * p":
        apply(env, model, 0, "c * p", 1, 0, 1)
    else:
        apply(env, model, 0, name, 1, 0, 1)
    measure, ref = moved_to(env, model, target)
    x = env.inputs("x", 2)
    kind = env.choice("noise", ["none", "scalar", "vector", "matrix", "diagonal"])
    noise, N = noise_of(env, kind, 2, "t")
    p, f = model.ps[-1], model.fields[-1]
    d = measure(p(x, noise))
    env.true(d.p.measure is measure, "measure")
    env.eq(d.x, x, "inputs")
    same_noise(env, d, noise, 2, "noise")
    env.eq(d.mean, ref.mean(f, x), "mean")
    env.eq(d.var, ref.cov(f, f, x) + N, "var")
    # Moving twice is moving once.
    d = measure(d)
    env.eq(d.x, x, "inputs (twice)")
    same_noise(env, d, noise, 2, "noise (twice)")
    env.eq(d.mean, ref.mean(f, x), "mean (twice)")
    env.eq(d.var, ref.cov(f, f, x) + N, "var (twice)")
    # The original has not changed.
    o = p(x, noise)
    env.true(p.measure is model.measure, "measure of the original")
    env.eq(o.mean, model.mean(f, x), "mean of the original")
    env.eq(o.var, model.cov(f, f, x) + N, "var of the original")


@scenario(
    "C23",
    quick=[(k,) for k in NOISES],
    bounds="noise in every form, at one to three inputs of one or two dimensions, moved to a posterior",
)
def noises(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    measure, ref = moved_to(env, model, "posterior")
    n = env.choice("n", [1, 2, 3])
    x = env.inputs("x", n)
    noise, N = noise_of(env, kind, n, "t")
    d = measure(model.ps[0](x, noise))
    env.eq(d.x, x, "inputs")
    same_noise(env, d, noise, n, "noise")
    env.eq(d.var, ref.cov(model.fields[0], model.fields[0], x) + N, "var")
    env.eq(d.mean, ref.mean(model.fields[0], x), "mean")


def check_copy(env, measure, ref, ps, fs, i, x, y, label=""):
    """The `i`th process acts towards all processes according to its field."""
    p, f = ps[i], fs[i]
    env.eq(measure.means[p](x), ref.mean(f, x), f"{label}mean")
    for j, (q, g) in enumerate(zip(ps, fs)):
        env.eq(measure.kernels[p, q](x, y), ref.cov(f, g, x, y), f"{label}cov with {j}")
        env.eq(measure.kernels[q, p](y, x), ref.cov(g, f, y, x), f"{label}cov of {j}")


@scenario(
    "C23",
    quick=[(i, o, t) for t in MEASURES for i in (0, 2) for o in ("p + q", "q - p", "h * p", "shift", "p - c")],
    bounds="a copy of a base process or of a derived one, in the prior, a posterior, or a posterior of one: covariances with all "
    "processes, with a copy of the copy, and with a process made from the copy or from the original afterwards",
)
def copies(env):
    i, name, target = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    measure, ref = moved_to(env, model, target)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    if env.flag("ask before"):
        measure.kernels[model.ps[i], model.ps[0]](x, y)
    c = measure(model.ps[i])
    env.true(c.measure is measure, "measure")
    model.ps.append(c)
    model.fields.append(model.fields[i])
    check_copy(env, measure, ref, model.ps, model.fields, 3, x, y, "copy: ")
    model.ps.append(measure(c))
    model.fields.append(model.fields[i])
    check_copy(env, measure, ref, model.ps, model.fields, 4, x, y, "copy of copy: ")
    # A process made later, of the copy and of another copy.
    of = env.choice("of", [3, 4])
    if target == "itself":
        other = 1
    else:
        model.ps.append(measure(model.ps[1]))
        model.fields.append(model.fields[1])
        other = 5
    apply(env, model, 1, name, 1, of, other)
    check_copy(env, measure, ref, model.ps, model.fields, len(model.ps) - 1, x, y, "made later: ")
    # Data about the copy are data about the process.
    z, v, s = env.inputs("zc", 1), env.vector("vc", 1), env.positive("sc")
    if target == "itself":
        post = measure | (c(z, s), v)
        check_all(env, model, post, model.posterior([(model.fields[i], z)], v, M(env, lambda i, j: s, 1, 1)), x, y, "data about the copy: ")


@scenario(
    "C23",
    quick=[(k, t) for k in ("inputs", "distributions", "reversed", "mixed", "scaled") for t in ("itself", "posterior")],
    bounds="Cartesian products of two correlated processes at shared inputs or at tuples of distributions and inputs, moved to the "
    "measure itself and to a posterior",
)
def products(env):
    kind, target = env.params
    model = Model(env, Measure(), 2)
    (f, g), (F, G) = model.ps, model.fields
    c = cross(f, g)
    a = 1
    if kind == "scaled":
        a = env.scalar("a")
        c = a * c
    measure, ref = moved_to(env, model, target)
    x, y = env.inputs("x", 1), env.inputs("y", 2)
    if kind in ("inputs", "scaled"):
        at, parts = y, [(F, y), (G, y)]
    elif kind == "distributions":
        at, parts = (f(x), g(y)), [(F, x), (G, y)]
    elif kind == "reversed":
        at, parts = (g(y), f(x)), [(G, y), (F, x)]
    else:
        at, parts = (g(x), x), [(G, x), (F, x), (G, x)]
    n = sum(len(z) for _, z in parts)
    noise, N = noise_of(env, env.choice("noise", ["none", "vector", "matrix"]), n, "t")
    d = measure(c(at, noise))
    env.true(d.x is at or kind in ("inputs", "scaled"), "inputs")
    same_noise(env, d, noise, n, "noise")
    mu, K = parts_mean(ref, parts), parts_cov(ref, parts, parts)
    scale = (lambda r, k: M(env, lambda i, j: r[i, j] * a**k, *r.shape)) if kind == "scaled" else lambda r, k: r
    env.eq(d.mean, scale(mu, 1), "mean")
    env.eq(d.var, scale(K, 2) + N, "var")
    # The copy acts as the product towards the other processes.
    q = measure(c)
    X = [(F, x), (G, x)]
    for j, (p, P) in enumerate(zip(model.ps, model.fields)):
        env.eq(measure.kernels[q, p](x, y), scale(parts_cov(ref, X, [(P, y)]), 1), f"covariance of the copy with {j}")
        env.eq(measure.kernels[p, q](y, x), scale(parts_cov(ref, [(P, y)], X), 1), f"covariance of {j} with the copy")
    env.eq(measure.kernels[q, c](x, y), scale(parts_cov(ref, X, [(F, y), (G, y)]), 2), "covariance of the copy with the product")
    env.eq(measure.kernels[c, q](x, y), scale(parts_cov(ref, X, [(F, y), (G, y)]), 2), "covariance of the product with the copy")


TAKEN = ["process", "derived", "posterior", "inputs of two dimensions", "cross", "tuple", "nested", "scaled cross", "posterior cross"]


@scenario(
    "C23",
    quick=[(k, s) for k in TAKEN for s in ("none", "scalar", "vector", "matrix", "diagonal")],
    bounds="subsets by any mask, and subsets of subsets, of three or four values of a process, of a posterior process, and of "
    "Cartesian products at inputs and at tuples, with noise of any form",
)
def masks(env):
    kind, form = env.params
    d = 2 if kind.startswith("inputs") else None
    model = Model(env, Measure(), 2)
    (f, g), (F, G) = model.ps, model.fields
    ref = model
    x, y = env.inputs("x", 3, d), env.inputs("y", 1, d)
    p, at, parts = f, x, [(F, x)]
    if kind == "derived":
        apply(env, model, 0, "h * p", 1, 0, 1)
        p, parts = model.ps[2], [(model.fields[2], x)]
    elif kind.startswith("posterior"):
        measure, ref = moved_to(env, model, "posterior")
        p = measure(f)
    if kind in ("cross", "posterior cross", "scaled cross"):
        p, at, parts = cross(g, f), x[:2], [(G, x[:2]), (F, x[:2])]
        if kind == "posterior cross":
            p = measure(p)
        elif kind == "scaled cross":
            p = 2 * p
    elif kind == "tuple":
        p, at, parts = cross(f, g), (g(x[:2]), f(y)), [(G, x[:2]), (F, y)]
    elif kind == "nested":
        p, at, parts = cross(cross(f, g), f), y, [(F, y), (G, y), (F, y)]
    n = sum(len(z) for _, z in parts)
    noise, N = noise_of(env, form, n, "t")
    mu, K = parts_mean(ref, parts), parts_cov(ref, parts, parts)
    if kind == "scaled cross":
        mu, K = 2 * mu, 4 * K
    K = K + N
    mask = [env.flag(f"keep {i}") for i in range(n)]
    keep = [i for i in range(n) if mask[i]]
    whole = p(at, noise)
    if not keep:
        env.true(B.shape(B.take(whole, np.array(mask)).noise)[0] == 0, "nothing taken")
        return
    part = B.take(whole, np.array(mask))
    env.true(part.p is p, "process")
    env.eq(part.mean, rows(mu, keep), "mean")
    env.eq(part.var, sub(K, keep), "var")
    same_sub = sub(N, keep)
    env.eq(B.dense(part.noise), same_sub, "noise")
    if kind in ("process", "derived", "posterior"):
        env.eq(part.x, rows(x, keep), "inputs")
    if len(keep) > 1:
        # The last one of those.
        last = B.take(part, np.array([False] * (len(keep) - 1) + [True]))
        env.eq(last.mean, rows(mu, keep[-1:]), "mean of a subset")
        env.eq(last.var, sub(K, keep[-1:]), "var of a subset")
    # The distribution itself is not changed.
    env.eq(whole.mean, mu, "mean of the whole")
    env.eq(whole.var, K, "var of the whole")


@scenario(
    "C23",
    quick=[(k,) for k in ("integers", "floats")],
    bounds="subsets by other means than masks are refused",
)
def not_masks(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    d = model.ps[0](env.inputs("x", 2), env.positive("s"))
    env.raises(AssertionError, lambda: B.take(d, np.array([0, 1] if kind == "integers" else [0.0, 1.0])), "not a mask")
