"""C27: a new process has the law it is given and is independent of all others."""

import numpy as np
from lab import B
from mlkernels import OneKernel, OneMean, ZeroKernel, ZeroMean
from stheno import GP, Measure, Obs, PseudoObs, cross

from ..kernels import coords
from ..ops import apply
from ..ref import M, Model
from ..scenario import scenario
from .c04 import parts_cov

MEANS = ["none", "object", "number", "0", "1", "-2", "0.5", "np.float64(3)", "function", "constant function", "ZeroMean", "OneMean", "2 * OneMean + object"]
KERNELS = ["object", "number", "1", "2", "0.5", "np.float64(3)", "function", "OneKernel", "object + 1", "2 * object", "ZeroKernel", "0"]
# Ways to make a process: where it ends up.
WHERE = ["measure", "named", "context", "explicit in context", "own", "after processes", "after conditioning"]


def mean_of(env, form, tag=""):
    """Argument for the mean, and the mean as a function of coordinates."""
    m = env.mean("m new" + tag)
    a = env.scalar("a" + tag)
    return {
        "none": (None, lambda x: 0),
        "object": (m, m.value),
        "number": (a, lambda x: a),
        "0": (0, lambda x: 0),
        "1": (1, lambda x: 1),
        "-2": (-2, lambda x: -2),
        "0.5": (0.5, lambda x: 0.5),
        "np.float64(3)": (np.float64(3), lambda x: 3),
        "function": (lambda x: m(x), m.value),
        "constant function": (lambda x: 2 * B.ones(x[:, :1]) if B.rank(x) == 2 else 2 * B.ones(x[:, None]), lambda x: 2),
        "ZeroMean": (ZeroMean(), lambda x: 0),
        "OneMean": (OneMean(), lambda x: 1),
        "2 * OneMean + object": (2 * OneMean() + m, lambda x: 2 + m.value(x)),
    }[form]


def kernel_of(env, form, tag=""):
    """Argument for the kernel, and the kernel as a function of coordinates."""
    k, h = env.kernel("k new" + tag), env.mean("h new" + tag)
    b = env.positive("b" + tag)
    return {
        "object": (k, k.value),
        "number": (b, lambda x, y: b),
        "0": (0, lambda x, y: 0),
        "1": (1, lambda x, y: 1),
        "2": (2, lambda x, y: 2),
        "0.5": (0.5, lambda x, y: 0.5),
        "np.float64(3)": (np.float64(3), lambda x, y: 3),
        # Such a process is that function times a standard normal.
        "function": (lambda x: h(x), lambda x, y: h.value(x) * h.value(y)),
        "OneKernel": (OneKernel(), lambda x, y: 1),
        "object + 1": (k + 1, lambda x, y: k.value(x, y) + 1),
        "2 * object": (2 * k, lambda x, y: 2 * k.value(x, y)),
        "ZeroKernel": (ZeroKernel(), lambda x, y: 0),
    }[form]


def mat(env, f, x, y):
    cx, cy = coords(x), coords(y)
    return M(env, lambda i, j: f(cx[i], cy[j]), len(cx), len(cy))


def zeros(env, n, m):
    return M(env, lambda i, j: 0, n, m)


def check_new(env, m, p, mean, kernel, x, y, label=""):
    """The law of a process under a measure."""
    cx = coords(x)
    n = len(cx)
    mu = M(env, lambda i, j: mean(cx[i]), n, 1)
    K = mat(env, kernel, x, x)
    env.eq(m.means[p](x), mu, label + "mean")
    env.eq(m.kernels[p](x, y), mat(env, kernel, x, y), label + "kernel")
    env.eq(m.kernels[p].elwise(x), M(env, lambda i, j: K[i, i], n, 1), label + "elwise")
    s = env.positive("noise")
    d = p(x, s)
    if p.measure is m:
        env.eq(d.mean, mu, label + "mean of distribution")
        env.eq(d.var, K + M(env, lambda i, j: s if i == j else 0, n, n), label + "variance of distribution")


def check_independent(env, m, p, q, x, y, label=""):
    env.eq(m.kernels[p, q](x, y), zeros(env, len(coords(x)), len(coords(y))), label + "covariance")
    env.eq(m.kernels[q, p](y, x), zeros(env, len(coords(y)), len(coords(x))), label + "covariance, reversed")


def make(env, model, where, args):
    """Make a process and tell what measure it should be in."""
    m = model.measure
    if where == "measure":
        return GP(*args, measure=m), m
    if where == "named":
        return GP(*args, measure=m, name="p"), m
    if where == "context":
        with m:
            return GP(*args), m
    if where == "explicit in context":
        with Measure():
            return GP(*args, measure=m), m
    if where == "own":
        return GP(*args), None
    if where == "after processes":
        apply(env, model, 0, "p - q", 1, 0, 1)
        apply(env, model, 1, "shift", 1, 2, 1)
        return GP(*args, measure=m), m
    if where == "after conditioning":
        post = m | (model.ps[0](env.inputs("z", 1), env.positive("s")), env.vector("v", 1))
        post.means[model.ps[1]], post.kernels[model.ps[1]]
        return GP(*args, measure=m), m
    raise KeyError(where)


@scenario(
    "C27",
    quick=[(a, "object", d) for a in MEANS for d in (None, 1, 2)] + [("object", b, d) for b in KERNELS for d in (None, 1, 2)] + [("none", b, 1) for b in KERNELS] + [(a, "number", 1) for a in MEANS],
    bounds="processes with means and kernels in every form, in an existing, a current or an own measure, before and after other "
    "processes are made and data is observed, at 2 and 1 points of one or two dimensions",
)
def constructed(env):
    mean_form, kernel_form, d = env.params
    model = Model(env, Measure(), 2)
    (a, mean), (k, kernel) = mean_of(env, mean_form), kernel_of(env, kernel_form)
    args = (k,) if mean_form == "none" else (a, k)
    p, m = make(env, model, env.choice("where", WHERE), args)
    x, y = env.inputs("x", 2, d), env.inputs("y", 1, d)
    if m is None:
        m = p.measure
        env.true(m is not model.measure, "measure of its own")
        env.true(m.ps == [p], "the only process")
        check_new(env, m, p, mean, kernel, x, y)
        return
    env.true(p.measure is m, "measure")
    check_new(env, m, p, mean, kernel, x, y)
    for i, q in enumerate(model.ps):
        check_independent(env, m, p, q, x, y, f"{i}: ")


AFTER = ["p + q", "p - q", "q - p", "shift", "h * p", "c - p", "stretch", "transform", "copy", "add_gp", "new", "cross"]


@scenario(
    "C27",
    quick=[(o,) for o in AFTER],
    bounds="a new process and processes that are derived from it, from others, or from both: it only correlates with those "
    "derived from it, at 2 and 1 points",
)
def derived(env):
    (name,) = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    (f, g), (F, G) = model.ps, model.fields
    first = env.flag("new first")

    def new():
        return GP(env.mean("m new"), env.kernel("k new"), measure=m)

    k, mu = env.kernel("k new"), env.mean("m new")
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    p = new() if first else None
    # Derive from the others only.
    if name == "copy":
        q = m(f)
    elif name == "add_gp":
        q = m.add_gp(F_mean(env), env.kernel("k added"), lambda j: ZeroKernel())
    elif name == "new":
        q = GP(env.mean("m second"), env.kernel("k second"), measure=m)
    elif name == "cross":
        q = cross(f, g)
    else:
        q, _ = apply(env, model, 0, name, 1, 0, 1)
    p = p or new()
    check_new(env, m, p, mu.value, k.value, x, y)
    n = 2 if name == "cross" else 1
    env.eq(m.kernels[p, q](x, y), zeros(env, 2, n), "covariance with derived")
    env.eq(m.kernels[q, p](y, x), zeros(env, n, 2), "covariance of derived")
    # Derive from the new process and another one.
    h = env.scalar("h")
    r = h * p + g
    for j, o in enumerate((f, g)):
        want = parts_cov(model, [(G, x)], [((F, G)[j], y)])
        env.eq(m.kernels[r, o](x, y), want, f"covariance of sum with {j}")
        env.eq(m.kernels[o, r](y, x), want.T, f"covariance of {j} with sum")
    env.eq(m.kernels[r, p](x, y), h * mat(env, k.value, x, y), "covariance of sum with new")
    env.eq(m.kernels[p, r](x, y), h * mat(env, k.value, x, y), "covariance of new with sum")
    env.eq(m.kernels[r](x, y), h * h * mat(env, k.value, x, y) + parts_cov(model, [(G, x)], [(G, y)]), "kernel of sum")


def F_mean(env):
    return env.mean("m added")


@scenario(
    "C27",
    quick=[(w, d) for w in ("pair", "obs", "several", "vfe", "cross", "steps") for d in ("new first", "new last")],
    bounds="what is observed of other processes, exactly or through inducing points, does not change the law of an independent "
    "process, and what is observed of an independent process does not change the law of the others, at 2 and 1 points, one observation each",
)
def conditioned(env):
    kind, order = env.params
    m = Measure()
    k, mu = env.kernel("k new"), env.mean("m new")
    if order == "new first":
        p = GP(mu, k, measure=m)
        f, g = (GP(env.mean(f"m{i}"), env.kernel(f"k{i}"), measure=m) for i in range(2))
        g = g + f
    else:
        f, g = (GP(env.mean(f"m{i}"), env.kernel(f"k{i}"), measure=m) for i in range(2))
        g = g + f
        p = GP(mu, k, measure=m)
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, s, v = env.inputs("z", 1), env.positive("s"), env.vector("v", 1)
    w, u = env.vector("w", 1), env.inputs("u", 1)

    def condition(m, a, b):
        if kind == "pair":
            return m | (a(z, s), v)
        if kind == "obs":
            return m | Obs(a(z, s), v)
        if kind == "several":
            return m | ((a(z, s), v), (b(u), w))
        if kind == "vfe":
            return m | PseudoObs(b(u), a(z, s), v)
        if kind == "cross":
            return m | (cross(a, b)(z, s), B.concat(v, w))
        return m | (a(z, s), v) | (b(u), w)

    post = condition(m, f, g)
    check_new(env, post, p, mu.value, k.value, x, y)
    for j, q in enumerate((f, g)):
        check_independent(env, post, p, q, x, y, f"{j}: ")
    # The other way around.
    before = [(m.means[q](x), m.kernels[q](x, y)) for q in (f, g)] + [m.kernels[f, g](x, y)]
    post = m | (p(z, s), v)
    for j, q in enumerate((f, g)):
        env.eq(post.means[q](x), before[j][0], f"others: mean of {j}")
        env.eq(post.kernels[q](x, y), before[j][1], f"others: kernel of {j}")
    env.eq(post.kernels[f, g](x, y), before[2], "others: covariance")
    # Log-densities of independent processes add.
    a, b = f(z, s), p(u, s)
    env.eq(m.logpdf((a, v), (b, w)), a.logpdf(v) + b.logpdf(w), "log-density")
