"""C19: declared sizes match actual sizes."""

import numpy as np
from lab import B
from matrix import Zero
from stheno import GP, Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross
from stheno.mo import infer_size

from ..keys import length, long, value
from ..ops import apply, op_names
from ..ref import Model
from ..scenario import scenario
from .c06 import NOISES, noise_of


def check_sizes(env, d, n, label=""):
    """All sizes of a finite-dimensional distribution of size `n`."""
    k = d.p.kernel
    env.true(int(infer_size(k, d.x)) == n, label + "inferred size")
    env.true(tuple(B.shape(d.noise)) == (n, n), label + "size of the noise")
    env.true(d.dim == n, label + "dim")
    env.true(tuple(B.shape(d.mean)) == (n, 1), label + "size of the mean")
    env.true(tuple(B.shape(d.var)) == (n, n), label + "size of the variance")
    env.true(tuple(B.shape(d.var_diag)) == (n,), label + "size of the diagonal of the variance")
    other = d.p(d.x, d.noise)
    env.true([tuple(B.shape(a)) for a in other.marginals()] == [(n,)] * 2, label + "size of marginals")
    other = d.p(d.x, d.noise)
    env.true([tuple(B.shape(a)) for a in other.mean_var] == [(n, 1), (n, n)], label + "size of mean_var")
    env.true(tuple(np.shape(k(d.x))) == (n, n), label + "size of the kernel matrix")
    env.true(tuple(np.shape(k.elwise(d.x))) == (n, 1), label + "size of elwise")
    # Without noise, the variance can be singular.
    if n <= 2 and not isinstance(d.noise, Zero):
        s = d.p.measure.sample(env.random_state("eps"), d)[1]
        env.true(tuple(np.shape(s)) == (n, 1), label + "size of a sample")


@scenario(
    "C19",
    quick=[(o, k) for o in op_names(2) for k in ("none", "scalar")]
    + [("p - q", k) for k in NOISES if k not in ("none", "scalar")],
    bounds="processes made by one operation after two others of the solver's choice, at n = 1, 2, 3 points of one and two dimensions",
)
def singles(env):
    name, kind = env.params
    n = env.choice("n", [1, 2, 3])
    d = 2 if "vector" in name or "select" in name else env.choice("d", [None, 1, 2])
    model = Model(env, Measure(), 2)
    first = env.choice("first", ["p + q", "h * p", "shift", "transform"])
    apply(env, model, 0, first, d or 1, 0, 1)
    apply(env, model, 1, name, d or 1, 2, 1)
    noise, _ = noise_of(env, kind, n)
    check_sizes(env, model.ps[-1](env.inputs("x", n, d), noise), n)


def structure(env, model, kind):
    """Process with multiple outputs. Gives the process and the number of outputs."""
    f, g = model.ps[:2]
    a = env.scalar("a")
    return {
        "f, g": lambda: (cross(f, g), 2),
        "f, f, g": lambda: (cross(f, f, g), 3),
        "g": lambda: (cross(g), 1),
        "(f, g), f": lambda: (cross(cross(f, g), f), 3),
        "f, (g, f)": lambda: (cross(f, cross(g, f)), 3),
        "(f, g), (g, f)": lambda: (cross(cross(f, g), cross(g, f)), 4),
        "((f, g), f), g": lambda: (cross(cross(cross(f, g), f), g), 4),
        "a * (f, g)": lambda: (a * cross(f, g), 2),
        "-(f, g) * a": lambda: (-cross(f, g) * a, 2),
        "(f, g) + (g, f)": lambda: (cross(f, g) + cross(g, f), 2),
        "(f, g) - a * (g, g)": lambda: (cross(f, g) - a * cross(g, g), 2),
        "a * ((f, g), f)": lambda: (a * cross(cross(f, g), f), 3),
        "a * (f, g), g": lambda: (cross(a * cross(f, g), g), 3),
        "f + g, a * f": lambda: (cross(f + g, a * f), 2),
        "later": lambda: (cross(cross(f, g), f.shift(a)), 3),
    }[kind]()


KINDS = [
    "f, g", "f, f, g", "g", "(f, g), f", "f, (g, f)", "(f, g), (g, f)", "((f, g), f), g", "a * (f, g)", "-(f, g) * a",
    "(f, g) + (g, f)", "(f, g) - a * (g, g)", "a * ((f, g), f)", "a * (f, g), g", "f + g, a * f", "later",
]  # fmt: skip


@scenario(
    "C19",
    quick=[(k, w) for k in KINDS for w in ("prior", "copy", "condition", "pseudo")],
    bounds="Cartesian products, nested up to three levels, scaled, summed and joined, in the prior and in posteriors given "
    "a component or the product itself, at n = 1, 2 points, noise of any form",
)
def products(env):
    kind, where = env.params
    model = Model(env, Measure(), 2)
    c, k = structure(env, model, kind)
    f = model.ps[0]
    n = env.choice("n", [1, 2])
    if where == "copy":
        c = model.measure(c)
    elif where == "condition":
        z, s = env.inputs("z", 1), env.positive("s")
        if env.flag("observe product"):
            d, m = c(z, s), k
        else:
            d, m = f(z, s), 1
        check_sizes(env, d, m, "observed: ")
        c = (model.measure | (d, env.vector("v", m)))(c)
    elif where == "pseudo":
        Method = env.choice("method", [PseudoObs, PseudoObsFITC, PseudoObsDTC])
        z, u, s = env.inputs("z", 1), env.inputs("u", 1), env.positive("s")
        c = (model.measure | Method(f(u), f(z, s), env.vector("v", 1)))(c)
    noise, _ = noise_of(env, env.choice("noise", ["none", "scalar", "vector", "matrix"]), n * k, "t")
    check_sizes(env, c(env.inputs("x", n), noise), n * k)


TUPLES = [
    "f", "g f", "x y", "f x", "c", "c f x", "nested", "single", "later", "nested c",
]  # fmt: skip


def tuple_input(env, kind, f, g, c, x, y, k):
    """Tuple of inputs and distributions, and the number of rows. `c` has `k` outputs."""
    a, b = len(x), len(y)
    return {
        "f": lambda: ((f(x),), a),
        "g f": lambda: ((g(x), f(y)), a + b),
        "x y": lambda: ((x, y), k * (a + b)),
        "f x": lambda: ((f(y), x), b + k * a),
        "c": lambda: ((c(x),), k * a),
        "c f x": lambda: ((c(x), f(y), y), k * a + b + k * b),
        "nested": lambda: (((g(x), f(y)), (f(x),)), a + b + a),
        "single": lambda: (((x,),), k * a),
        "later": lambda: (((f + g)(y), g(x)), a + b),
        "nested c": lambda: ((g(y), (x, c(y))), b + k * (a + b)),
    }[kind]()


@scenario(
    "C19",
    quick=[(k, w) for k in TUPLES for w in ("two", "nested", "scaled")] + [(k, "posterior") for k in TUPLES if "c" not in k],
    bounds="products of two or three outputs (plain, nested, scaled, and in the posterior given a component) at tuples of inputs "
    "and of distributions of any processes with 2 and 1 points",
)
def tuples(env):
    kind, which = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    inner = cross(g, f)
    c, k = (cross(inner, f), 3) if which == "nested" else (inner, 2)
    if which == "scaled":
        c = env.scalar("a") * c
        inner = c
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    arg, n = tuple_input(env, kind, f, g, inner, x, y, 2 if "c" in kind else k)
    if kind in ("c f x", "nested c"):
        # Inputs are those of the outer product.
        n += (k - 2) * (len(y) if kind == "c f x" else len(x))
    if which == "posterior":
        c = (model.measure | (f(env.inputs("z", 1), env.positive("s")), env.vector("v", 1)))(c)
    noise, _ = noise_of(env, env.choice("noise", ["none", "scalar", "vector"]), n, "t")
    check_sizes(env, c(arg, noise), n)


@scenario(
    "C19",
    quick=[("obs",), ("measure.logpdf",), ("sample",), ("pseudo",), ("sample posterior",)],
    bounds="joint distributions of up to three distributions of processes with one and more outputs, at 2 and 1 points",
)
def joint(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    m = model.measure
    c, d = cross(f, g), env.scalar("a") * cross(cross(g, f), g)
    x, y, s = env.inputs("x", 2), env.inputs("y", 1), env.positive("s")
    options = [(f(x), 2), (g(y, s), 1), (c(y, s), 2), (d(y), 3), ((f + g)(y), 1)]
    if kind in ("obs", "pseudo"):
        parts = [env.choice("first", options), env.choice("second", options[:4])]
        if env.flag("three"):
            parts.append((c(x, s), 4))
    else:
        # These computations are for small numbers of points only.
        f, g = model.ps
        parts = env.choice(
            "parts",
            [
                [(f(y, s), 1), (c(y, s), 2)],
                [(c(y, s), 2), (g(y, s), 1)],
                [(f(x, s), 2), (g(y, s), 1)],
                [((f + g)(y, s), 1), (f(x, s), 2)],
                [(g(y, s), 1), (cross(g)(y, s), 1), (f(y, s), 1)],
                [(cross(g, f)((g(y),), s), 1), (f(x, s), 2)],
            ],
        )
    n = sum(k for _, k in parts)
    fdds = [p for p, _ in parts]
    if kind in ("obs", "pseudo"):
        ys = [env.vector(f"v{i}", k) for i, (_, k) in enumerate(parts)]
        if kind == "obs":
            o = Obs(*zip(fdds, ys))
        else:
            o = PseudoObs(f(y), *zip([p.p(p.x, s) for p in fdds], ys))
        env.true(tuple(np.shape(o.y)) == (n, 1), "size of the observations")
        env.true(tuple(B.shape(o.fdd.noise)) == (n, n), "size of the noise")
        q = m(o.fdd)
        env.true(int(infer_size(q.p.kernel, q.x)) == n, "inferred size")
        env.true(q.dim == n, "dim")
        env.true(tuple(B.shape(q.mean)) == (n, 1), "size of the mean")
        env.true(tuple(B.shape(q.noise)) == (n, n), "size of the noise under the measure")
    elif kind == "measure.logpdf":
        ys = [env.vector(f"v{i}", k) for i, (_, k) in enumerate(parts)]
        parts = [(p.p(p.x, s), v) for p, v in zip(fdds, ys)]
        env.true(np.shape(m.logpdf(*parts)) == (), "one log-density")
    else:
        if kind == "sample posterior":
            m = m | (f(env.inputs("z", 1), s), env.vector("v", 1))
        res = m.sample(env.random_state("eps"), 2, *fdds)
        env.true([np.shape(a) for a in res[1:]] == [(k, 2) for _, k in parts], "sizes of the samples")


@scenario(
    "C19",
    quick=[(k, w) for k in KINDS for w in ("prior", "condition", "inputs and distributions", "nested", "combined")],
    bounds="ANY number of points, and ANY numbers of points of the elements of tuples: sizes that are inferred and sizes of the noise, "
    "for products that are nested up to three levels, scaled, summed and joined, also in posteriors",
)
def every_length(env):
    kind, where = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    c, k = structure(env, model, kind)
    d = env.choice("d", [(), (1,), (2,)])
    n, m, l = (length(env, s) for s in ("n", "m", "l"))
    x, y, w = (long(env, i, *d) for i in (n, m, l))
    n, m, l = (value(env, i) for i in (n, m, l))
    if where == "condition":
        z, s = env.inputs("z", 2, d[0] if d else None), env.positive("s")
        c = (model.measure | (g(z, s), env.vector("v", 2)))(c)
    if where in ("prior", "condition"):
        arg, size = x, k * n
    elif where == "inputs and distributions":
        arg, size = (x, g(y), f(w), y), k * n + m + l + k * m
    elif where == "nested":
        c2 = cross(g, f, g)
        arg, size = ((x, c2(y)), (f(w),), w), k * n + 3 * m + l + k * l
    else:
        o = Obs((c(x), env.vector("v", 1)), ((f + g)(y), env.vector("v", 1)), (c(w), env.vector("v", 1)))
        q = model.measure(o.fdd)
        env.eq(value(env, infer_size(q.p.kernel, q.x)), k * n + m + k * l, "inferred size")
        return
    env.eq(value(env, infer_size(c.kernel, arg)), size, "inferred size")
    e = c(arg)
    for i in range(2):
        env.eq(value(env, B.shape(e.noise)[i]), size, "size of the noise")
    fresh = GP(env.kernel("k new"), measure=model.measure)
    env.eq(value(env, infer_size(fresh.kernel, y)), m, "inferred size of a new process")
    env.eq(value(env, B.shape(fresh(w).noise)[0]), l, "size of the noise of a new process")
