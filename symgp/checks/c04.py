"""C04: Cartesian products stack processes in order."""

import numpy as np
from lab import B
from stheno import GP, Measure, cross

from ..ops import apply, op_names
from ..ref import M, Model, block, col, inv
from ..scenario import scenario


def parts_mean(ref, parts):
    return np.concatenate([ref.mean(f, x) for f, x in parts], axis=0)


def parts_cov(ref, a, b):
    return block([[ref.cov(f, g, x, y) for g, y in b] for f, x in a])


def parts_elwise(env, ref, a, b):
    out = []
    for (f, x), (g, y) in zip(a, b):
        k = ref.cov(f, g, x, y)
        out.extend(k[i, i] for i in range(k.shape[0]))
    return M(env, lambda i, j: out[i], len(out), 1)


def check_fdd(env, ref, d, parts, label=""):
    """A finite-dimensional distribution against `[(field, inputs), ...]`."""
    env.eq(d.mean, parts_mean(ref, parts), label + "mean")
    env.eq(d.var, parts_cov(ref, parts, parts), label + "var")
    env.eq(d.var_diag, parts_elwise(env, ref, parts, parts)[:, 0], label + "var_diag")


ORDERS = [(0, 1), (1, 0), (0, 0), (2, 0), (1, 2, 0), (0, 1, 1)]


@scenario(
    "C04",
    quick=[(o, n) for o in ORDERS for n in (1, 2)],
    thorough=[((0, 1, 2), 3), ((2, 1, 0, 1), 2)],
    bounds="products of two or three out of two correlated processes and a combination of them, in "
    "any listed order (also repeated), at n points; as an argument of `kernel` also at different inputs",
    jitter=True,
)
def at_inputs(env):
    order, n = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "p - q", 1, 0, 1)
    c = cross(*[model.ps[i] for i in order])
    fs = [model.fields[i] for i in order]
    x, y = env.inputs("x", n), env.inputs("y", 1)
    check_fdd(env, model, c(x), [(f, x) for f in fs])
    X, Y = [(f, x) for f in fs], [(f, y) for f in fs]
    env.eq(c.mean(x), parts_mean(model, X), "mean")
    env.eq(c.kernel(x, y), parts_cov(model, X, Y), "kernel x, y")
    env.eq(c.kernel(y, x), parts_cov(model, Y, X), "kernel y, x")
    env.eq(c.kernel.elwise(x), parts_elwise(env, model, X, X), "elwise")
    # Covariances with single processes.
    m = model.measure
    for j, (q, g) in enumerate(zip(model.ps, model.fields)):
        env.eq(m.kernels[c, q](x, y), parts_cov(model, X, [(g, y)]), f"cov(c, {j})")
        env.eq(m.kernels[q, c](y, x), parts_cov(model, [(g, y)], X), f"cov({j}, c)")


@scenario(
    "C04",
    quick=[(k,) for k in ["fdds", "fdd and input", "inputs", "one fdd", "repeated", "nested tuple"]],
    bounds="products of two correlated processes and one derived process evaluated at tuples of "
    "finite-dimensional distributions and of inputs, at 1 and 2 points",
    jitter=True,
)
def at_tuples(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    apply(env, model, 0, "h * p", 1, 0, 1)
    f, g, h = model.ps
    F, G, H = model.fields
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    c, fs = cross(f, g), [F, G]
    if kind == "fdds":
        # In any order, not every component.
        c = cross(f, g, h)
        arg, parts = (g(x), h(y), f(y)), [(G, x), (H, y), (F, y)]
    elif kind == "one fdd":
        arg, parts = (g(x),), [(G, x)]
    elif kind == "repeated":
        arg, parts = (g(x), g(y), f(x)), [(G, x), (G, y), (F, x)]
    elif kind == "fdd and input":
        arg, parts = (g(x), y), [(G, x), (F, y), (G, y)]
    elif kind == "inputs":
        arg, parts = (x, y), [(F, x), (G, x), (F, y), (G, y)]
    else:
        arg, parts = ((g(x), f(y)), g(y)), [(G, x), (F, y), (G, y)]
    env.eq(c.mean(arg), parts_mean(model, parts), "mean")
    env.eq(c.kernel(arg), parts_cov(model, parts, parts), "kernel")
    env.eq(c.kernel.elwise(arg), parts_elwise(env, model, parts, parts), "elwise")
    X = [(F, x), (G, x)]
    if kind not in ("fdds",):
        env.eq(c.kernel(arg, x), parts_cov(model, parts, X), "kernel arg, x")
        env.eq(c.kernel(x, arg), parts_cov(model, X, parts), "kernel x, arg")
    env.eq(model.measure.kernels[c, f](arg, x), parts_cov(model, parts, [(F, x)]), "cov with f")
    if kind != "nested tuple":
        noise = env.positive("s")
        n = len(parts_mean(model, parts))
        d = c(arg, noise)
        env.eq(d.mean, parts_mean(model, parts), "fdd mean")
        env.eq(d.var, parts_cov(model, parts, parts) + M(env, lambda i, j: noise if i == j else 0, n, n), "fdd var")
        mean, var = c(arg, noise).mean_var
        env.eq(mean, d.mean, "mean_var: mean")
        env.eq(var, d.var, "mean_var: var")


@scenario(
    "C04",
    quick=[(k, n) for k in ["left", "right", "both", "twice"] for n in (1, 2)],
    bounds="products of products, at n points, and at tuples of distributions of components",
    jitter=True,
)
def nested(env):
    kind, n = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    m = model.measure
    if kind == "left":
        inner, c, fs = cross(g, f), None, [G, F, F]
        c = cross(inner, f)
    elif kind == "right":
        inner = cross(f, g)
        c, fs = cross(g, inner), [G, F, G]
    elif kind == "both":
        inner = cross(f, g)
        c, fs = cross(inner, cross(g, f)), [F, G, G, F]
    else:
        inner = cross(f, g)
        c, fs = cross(inner, inner), [F, G, F, G]
    x, y = env.inputs("x", n), env.inputs("y", 1)
    X, Y = [(h, x) for h in fs], [(h, y) for h in fs]
    check_fdd(env, model, c(x), X)
    env.eq(c.kernel(x, y), parts_cov(model, X, Y), "kernel")
    env.eq(m.kernels[c, f](x, y), parts_cov(model, X, [(F, y)]), "cov(c, f)")
    env.eq(m.kernels[f, c](y, x), parts_cov(model, [(F, y)], X), "cov(f, c)")
    inner_parts = lambda z: [(fs[0] if kind == "left" else F, z), (F if kind == "left" else G, z)]  # noqa
    env.eq(m.kernels[inner, c](y, x), parts_cov(model, inner_parts(y), X), "cov(inner, c)")
    # Evaluate the outer product at distributions of the inner one.
    env.eq(c.kernel((inner(x),)), parts_cov(model, inner_parts(x), inner_parts(x)), "at inner fdd")
    env.eq(c.mean((inner(x),)), parts_mean(model, inner_parts(x)), "mean at inner fdd")


@scenario(
    "C04",
    quick=[("observe component", 1), ("observe component", 2), ("observe product", 1), ("observe joint", 1)],
    thorough=[("observe product", 2), ("observe joint", 2)],
    bounds="the posterior of a Cartesian product given a component, the product or other "
    "finite-dimensional distributions, at n observed inputs",
)
def posterior(env):
    kind, n = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    c = cross(g, f)
    x, y, z = env.inputs("x", 2 if n == 1 else 1), env.inputs("y", 1), env.inputs("z", n)
    s = env.positive("s")
    if kind == "observe component":
        d, obs = f(z, s), [(F, z)]
    elif kind == "observe product":
        d, obs = c(z, s), [(G, z), (F, z)]
    else:
        w = env.inputs("w", 1)
        d, obs = c((f(z), g(w)), s), [(F, z), (G, w)]
    k = sum(len(xx) for _, xx in obs)
    v = env.vector("v", k)
    N = M(env, lambda i, j: s if i == j else 0, k, k)
    post = model.measure | (d, v)
    ref = model.posterior(obs, v, N)
    X, Y = [(G, x), (F, x)], [(G, y), (F, y)]
    pc = post(c)
    check_fdd(env, ref, pc(x), X)
    env.eq(pc.kernel(x, y), parts_cov(ref, X, Y), "kernel")
    for q, h in zip(model.ps, model.fields):
        env.eq(post(q).mean(x), ref.mean(h, x), "component mean")
        env.eq(post(q).kernel(x, y), ref.cov(h, h, x, y), "component kernel")
        env.eq(post.kernels[c, q](x, y), parts_cov(ref, X, [(h, y)]), "cov with component")
        env.eq(post.kernels[q, c](y, x), parts_cov(ref, [(h, y)], X), "cov with component (right)")


@scenario(
    "C04",
    quick=[("p + q",), ("c * p",), ("-p",), ("p / c",), ("p - q",)],
    bounds="linear operations on a Cartesian product act on all components, at 2 and 1 points",
    jitter=True,
)
def linear(env):
    (name,) = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    c, a = cross(f, g), env.scalar("a")
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    if name == "c * p":
        r, fs = a * c, [F.times(lambda x: a), G.times(lambda x: a)]
    elif name == "-p":
        r, fs = -c, [F.times(lambda x: -1), G.times(lambda x: -1)]
    elif name == "p / c":
        r, fs = c / a, [F.times(lambda x: 1 / a), G.times(lambda x: 1 / a)]
    elif name == "p + q":
        r, fs = c + cross(g, g), [F + G, G + G]
    else:
        r, fs = cross(g, f) - c, [G + F.times(lambda x: -1), F + G.times(lambda x: -1)]
    X, Y = [(h, x) for h in fs], [(h, y) for h in fs]
    env.eq(r.mean(x), parts_mean(model, X), "mean")
    env.eq(r.kernel(x, y), parts_cov(model, X, Y), "kernel")
    check_fdd(env, model, r(x), X)
    env.eq(model.measure.kernels[r, f](x, y), parts_cov(model, X, [(F, y)]), "cov with f")


@scenario(
    "C04",
    quick=[(2,)],
    bounds="inputs of two dimensions",
    jitter=True,
)
def dims(env):
    (d,) = env.params
    model = Model(env, Measure(), 2)
    c = cross(*model.ps)
    x = env.inputs("x", 2, d)
    check_fdd(env, model, c(x), [(f, x) for f in model.fields])
    env.eq(c((model.ps[1](x),)).mean, model.mean(model.fields[1], x), "mean")


LATER = op_names(1) + ["new", "product"]


@scenario(
    "C04",
    quick=[(o, w) for o in LATER for w in ("plain", "scaled")] + [(o, "nested") for o in ("shift", "h * p", "p + q", "new")],
    thorough=[(o, "nested") for o in LATER if o not in ("shift", "h * p", "p + q", "new")],
    bounds="a process that is made (by any operation) after a Cartesian product of two correlated processes, and "
    "after a multiple of the product: all covariances, also at tuples of distributions, at 2 and 1 points",
)
def later(env):
    name, which = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    m = model.measure
    a = env.scalar("a")
    c, fs = cross(g, f), [G, F]
    if which == "scaled":
        c, fs = a * c, [h.times(lambda x: a) for h in fs]
    elif which == "nested":
        c, fs = cross(c, g), [G, F, G]
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    if name == "new":
        k, mu = env.kernel("knew"), env.mean("mnew")
        p = GP(mu, k, measure=m)
        zero = lambda i, j: M(env, lambda *_: 0, i, j)  # noqa: E731
        d = len(fs)
        env.eq(m.kernels[p, c](x, y), zero(2, d), "cov(p, c)")
        env.eq(m.kernels[c, p](y, x), zero(d, 2), "cov(c, p)")
        env.eq(m.kernels[p, c](x, (f(y), g(x))), zero(2, 3), "cov(p, c) at distributions")
        kx = M(env, lambda i, j: k.value((x[i],), (x[j],)), 2, 2)
        K = parts_cov(model, [(h, x) for h in fs], [(h, x) for h in fs])
        env.eq(cross(p, c)(x).var, block([[kx, zero(2, 2 * d)], [zero(2 * d, 2), K]]), "var of product")
        env.eq(cross(c, p)(x).var, block([[K, zero(2 * d, 2)], [zero(2, 2 * d), kx]]), "var of product")
        return
    if name == "product":
        from .c03 import PModel, add_product

        model2 = PModel(env, Measure(), 2)
        f, g = model2.ps
        c = cross(g, f)
        if which == "scaled":
            c = a * c
        before = model2.measure.kernels[c]
        add_product(model2, 0, 1)
        p = model2.ps[-1]
        P = model2.fields[-1]
        w = a if which == "scaled" else 1
        parts = [model2.fields[1], model2.fields[0]]
        e = np.concatenate([model2.cov(P, h, x, y) * w for h in parts], axis=1)
        env.eq(model2.measure.kernels[p, c](x, y), e, "cov(p, c)")
        env.eq(model2.measure.kernels[c, p](y, x), e.T, "cov(c, p)")
        env.true(model2.measure.kernels[c] is before, "kernel of the product")
        return
    p, P = apply(env, model, 0, name, 1, 0, 1)
    X, Y = [(P, x)], [(h, y) for h in fs]
    env.eq(m.kernels[p, c](x, y), parts_cov(model, X, Y), "cov(p, c)")
    env.eq(m.kernels[c, p](y, x), parts_cov(model, Y, X), "cov(c, p)")
    if which == "plain":
        T = [(F, y), (G, x)]
        env.eq(m.kernels[p, c](x, (f(y), g(x))), parts_cov(model, X, T), "cov(p, c) at distributions")
        env.eq(m.kernels[c, p]((f(y), g(x)), x), parts_cov(model, T, X), "cov(c, p) at distributions")
    d, D = cross(p, c), [P] + fs
    check_fdd(env, model, d(x), [(h, x) for h in D])


@scenario(
    "C04",
    quick=[(w, h) for w in ("plain", "reversed", "mixed", "nested", "copies") for h in ("input", "distributions", "both")],
    bounds="a Cartesian product that is made after conditioning, under the prior and under the posterior, at inputs and at "
    "tuples of distributions; one observation; two inputs and one",
)
def after(env):
    which, how = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    F, G = model.fields
    x, y, z = env.inputs("x", 2), env.inputs("y", 1), env.inputs("z", 1)
    s, v = env.positive("s"), env.vector("v", 1)
    post = model.measure | (f(z, s), v)
    ref = model.posterior([(F, z)], v, M(env, lambda *_: s, 1, 1))
    laws = [("prior", model.measure, model), ("posterior", post, ref)]
    if which == "plain":
        c, fs = cross(f, g), [F, G]
    elif which == "reversed":
        c, fs = cross(g, f), [G, F]
    elif which == "mixed":
        c, fs = cross(f + g, f), [F + G, F]
    elif which == "nested":
        c, fs = cross(cross(f, g), f), [F, G, F]
    else:
        f, g = post(f), post(g)
        c, fs = cross(f, g), [F, G]
        laws = laws[1:]
    if how == "distributions" and which != "nested":
        arg, parts = (g(y), f(x)), [(G, y), (F, x)]
    elif how == "both":
        arg, parts = (y, f(x)), [(h, y) for h in fs] + [(F, x)]
    else:
        arg, parts = x, [(h, x) for h in fs]
    Y = [(h, y) for h in fs]
    if which == "mixed" and how == "both":
        # The sum is not a component by itself.
        arg, parts = (y, c(x)), Y + [(h, x) for h in fs]
    for name, m, law in laws:
        env.eq(m.means[c](arg), parts_mean(law, parts), name + ": mean")
        env.eq(m.kernels[c](arg), parts_cov(law, parts, parts), name + ": kernel")
        env.eq(m.kernels[c](arg, y), parts_cov(law, parts, Y), name + ": kernel, other input")
        env.eq(m.kernels[c](y, arg), parts_cov(law, Y, parts), name + ": kernel, other input (right)")
        env.eq(m.kernels[c].elwise(arg), parts_elwise(env, law, parts, parts), name + ": elwise")
        env.eq(m.kernels[c, g](arg, y), parts_cov(law, parts, [(G, y)]), name + ": cov(c, g)")
        env.eq(m.kernels[g, c](y, arg), parts_cov(law, [(G, y)], parts), name + ": cov(g, c)")
