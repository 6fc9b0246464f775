"""C02: cross-covariances are transposes of each other and independent of query order."""

import numpy as np
from stheno import GP, Measure, cross

from ..ops import apply, op_names
from ..ref import Model
from ..scenario import scenario


def transposes(env, m, ps, x, y, label):
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            if i <= j:
                env.eq(
                    np.transpose(dense(m.kernels[p, q](x, y))),
                    m.kernels[q, p](y, x),
                    f"{label}cov {i}, {j}",
                )
        env.eq(m.kernels[p](x, y), m.kernels[p, p](x, y), f"{label}kernel {i}")
        env.eq(np.transpose(dense(m.kernels[p](x))), m.kernels[p](x), f"{label}symmetry {i}")


def dense(a):
    from lab import B

    return B.dense(a)


@scenario(
    "C02",
    quick=[(n,) for n in op_names(1)] + [("product",)],
    bounds="two correlated processes, a process made by any operation, and one made from that by any "
    "of five further operations; in the prior and in the posterior for one observation; at 2 and 1 points",
)
def operations(env):
    (name,) = env.params
    model = Model(env, Measure(), 2)
    m = model.measure
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    if name == "product":
        model.ps.append(model.ps[0] * model.ps[1])
    else:
        apply(env, model, 0, name, 1, 0, 1)
    f, g, p = model.ps
    second = env.choice("second", ["h * p", "p - q", "shift", "product", "transform", "square"])
    if second == "product":
        model.ps.append(p * g)
    elif second == "square":
        model.ps.append(p * p)
    else:
        model.fields = model.ps  # Not used here.
        for op in __import__("symgp.ops", fromlist=["x"]).unary_ops(env, 1, 1):
            if op.name == second:
                model.ps.append(op.real(p))
        if second == "p - q":
            model.ps.append(p - g)
    transposes(env, m, model.ps, x, y, "")
    z, v, s = env.inputs("z", 1), env.vector("v", 1), env.positive("s")
    post = m | (f(z, s), v)
    transposes(env, post, model.ps + [post(p)], x, y, "posterior ")


@scenario(
    "C02",
    quick=[(k,) for k in ["x", "fdds", "tuple"]],
    bounds="Cartesian products with single processes and with each other, at inputs, "
    "finite-dimensional distributions and tuples of them; prior and posterior",
)
def cartesian(env):
    (kind,) = env.params
    model = Model(env, Measure(), 2)
    m, (f, g) = model.measure, model.ps
    c = cross(f, g)
    d = cross(g, f - g, f)
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    z, v, s = env.inputs("z", 1), env.vector("v", 1), env.positive("s")
    for mm, label in [(m, ""), (m | (f(z, s), v), "posterior ")]:
        if kind == "x":
            transposes(env, mm, [f, g, c, d], x, y, label)
        elif kind == "fdds":
            a, b = (f(x), g(y)), (g(x),)
            env.eq(np.transpose(dense(mm.kernels[c](a, b))), mm.kernels[c](b, a), label + "c")
            env.eq(np.transpose(dense(mm.kernels[c, d](a, b))), mm.kernels[d, c](b, a), label + "c, d")
            env.eq(np.transpose(dense(mm.kernels[c, f](a, x))), mm.kernels[f, c](x, a), label + "c, f")
            env.eq(np.transpose(dense(mm.kernels[d, g](b[0], x))), mm.kernels[g, d](x, b[0]), label + "d, g")
        else:
            a = (x, y)
            env.eq(np.transpose(dense(mm.kernels[c](a, y))), mm.kernels[c](y, a), label + "c")
            env.eq(np.transpose(dense(mm.kernels[c, f](a, y))), mm.kernels[f, c](y, a), label + "c, f")
            env.eq(np.transpose(dense(mm.kernels[f, g](a, y))), mm.kernels[g, f](y, a), label + "f, g")


STEPS = 4


def build(env, hook):
    """Build a model in steps and call `hook(step, queries)` after every step."""
    model = Model(env, Measure(), 2)
    m, (f, g) = model.measure, model.ps
    c, h = env.scalar("c"), env.mean("h")
    z, v, s = env.inputs("z", 1), env.vector("v", 1), env.positive("s")
    ps, ms = [f, g], [m]
    hook(0, ps, ms)
    ps.append(f - (lambda x: h(x)) * g)
    ps.append(ps[2] * f)
    hook(1, ps, ms)
    ms.append(m | (g(z, s), v))
    hook(2, ps, ms)
    ps.append((ps[2] + c).shift(c))
    hook(3, ps, ms)
    return ps, ms


def queries(ps, ms):
    qs = []
    for k in range(len(ms)):
        for i in range(len(ps)):
            qs.append((k, i))
            for j in range(len(ps)):
                qs.append((k, i, j))
    return qs


def ask(ps, ms, q, x, y):
    if len(q) == 2:
        return ms[q[0]].means[ps[q[1]]](x)
    return ms[q[0]].kernels[ps[q[1]], ps[q[2]]](x, y)


@scenario(
    "C02",
    quick=[(0, 0, 0), (1, 0, 1), (2, 0, 1), (2, 1, 0), (3, 0, 1), (3, 1, 1), ("fresh", 0, 0)],
    thorough=[(s, k, r) for s in range(STEPS) for k in range(1 + (s > 1)) for r in (0, 1)],
    bounds="histories that build five processes (linear operations, a product) and a posterior in "
    "steps: any mean or cross-covariance is asked for after any step, and all of them at the end in "
    "two orders, against asking for each first on a fresh model",
)
def query_order(env):
    step, measure, rev = env.params
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    base = build(env, lambda *a: None)
    qs = queries(*base)
    if step == "fresh":
        want = [ask(*build(env, lambda *a: None), q, x, y) for q in qs]
        order = qs
        ps, ms = base
    else:

        def hook(k, ps, ms):
            if k == step:
                early = [q for q in queries(ps, ms) if q[0] == measure]
                ask(ps, ms, early[env.choice("early", range(len(early)))], x, y)

        want = [ask(*base, q, x, y) for q in qs]
        ps, ms = build(env, hook)
        order = qs[::-1] if rev else qs
    got = {q: ask(ps, ms, q, x, y) for q in order}
    for q, w in zip(qs, want):
        env.eq(got[q], w, f"query {q}")


@scenario(
    "C02",
    bounds="`add_gp` with arbitrary kernels in a left rule and in a right rule",
)
def explicit_rules(env):
    m = Measure()
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    f = GP(env.mean("mf"), env.kernel("kf"), measure=m)
    left, right = env.kernel("x_l", symmetric=False), env.kernel("x_r", symmetric=False)
    both = env.flag("both")
    if both:
        p = m.add_gp(env.mean("mp"), env.kernel("kp"), lambda j: left, lambda i: right)
    else:
        p = m.add_gp(env.mean("mp"), env.kernel("kp"), lambda j: left)
    if env.flag("order"):
        m.kernels[f, p]
    env.eq(p.mean(x), env.mean("mp")(x), "mean")
    env.eq(m.kernels[p](x, y), env.kernel("kp")(x, y), "kernel")
    env.eq(m.kernels[p, f](x, y), left(x, y), "left")
    if both:
        env.eq(m.kernels[f, p](x, y), right(x, y), "right")
    else:
        env.eq(m.kernels[f, p](x, y), np.transpose(dense(left(y, x))), "right")
        transposes(env, m, [f, p, 2 * p, f + p], x, y, "")
