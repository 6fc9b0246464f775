"""C24: conditioning commutes with building processes."""

from stheno import Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from ..ops import binary_ops, op_names, unary_ops
from ..ref import Model
from ..scenario import scenario


OPS = ["cross", "reversed cross", "double cross"]


def builders(env, names, d=1, step=0):
    """Functions that build processes from the two base processes, in steps."""
    steps = []
    for k, name in enumerate(names, step):
        if name in OPS + ["product", "square"]:
            steps.append((name, None))
        else:
            steps.append((name, next(op for op in unary_ops(env, k, d) + binary_ops() if op.name == name)))

    def build(p, q):
        ps = [p, q]
        for name, op in steps:
            last, other = ps[-1], ps[-2]
            if len(ps) == 2:
                last, other = p, q
            if name == "cross":
                ps.append(cross(last, other))
            elif name == "reversed cross":
                ps.append(cross(other, last))
            elif name == "double cross":
                ps.append(cross(last, other, last))
            elif name == "product":
                ps.append(last * other)
            elif name == "square":
                ps.append(last * last)
            elif op.arity == 1:
                ps.append(op.real(last))
            else:
                ps.append(op.real(last, other))
        return ps[2:]

    return build


DATA = ["none", "one", "pairs", "tuple", "vfe", "fitc", "dtc", "steps", "approximate steps", "missing"]


def conditioning(env, kind, f, g, d=None):
    """Function that conditions a measure of `f` and `g` on data."""
    z, v, s = env.inputs("z", 1, d), env.vector("v", 1), env.positive("s")
    w, u, r = env.inputs("w", 1, d), env.vector("u", 1), env.positive("r")
    z2, v2, s2 = env.inputs("z2", 2, d), env.vector("v2", 2), env.positive_vector("s2", 2)
    approximations = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC, "approximate steps": PseudoObs}
    if kind == "missing":
        y = env.maybe_missing(v2, "v2")

    def condition(m):
        if kind == "none":
            return m
        if kind == "one":
            return m | (f(z2, s2), v2)
        if kind == "missing":
            return m | (g(z2, s2), y)
        if kind == "pairs":
            return m | ((f(z, s), v), (g(w, r), u))
        if kind == "tuple":
            return m | Obs(cross(f, g)((f(z), g(w)), s2), v2)
        if kind == "steps":
            m = m | (f(z, s), v)
            return m | (m(g)(w, r), u)
        m = m | approximations[kind](g(w), f(z, s), v)
        if kind == "approximate steps":
            m = m | (m(f)(z2[:1], r), u)
        return m

    return condition


def check_same(env, post, a, b, others, x, y, label="", linear=True):
    """Processes `a` and `b` are the same, also towards other processes."""
    env.eq(post.means[a](x), post.means[b](x), f"{label}mean")
    kernels = post.kernels
    k = kernels[a, a](x, y)
    env.eq(kernels[b, b](x, y), k, f"{label}kernel")
    if linear:
        # Two products of the same processes are not the same process.
        env.eq(kernels[a, b](x, y), k, f"{label}covariance with the other")
        env.eq(kernels[b, a](x, y), k, f"{label}covariance of the other")
    env.eq(kernels[b, b].elwise(x), kernels[a, a].elwise(x), f"{label}elwise")
    for j, p in enumerate(others):
        env.eq(kernels[a, p](x, y), kernels[b, p](x, y), f"{label}covariance with {j}")
        env.eq(kernels[p, a](y, x), kernels[p, b](y, x), f"{label}covariance of {j}")


@scenario(
    "C24",
    quick=[(o, k) for o in op_names(1) for k in ("one", "pairs", "vfe")]
    + [(o, k) for o in ("p - q", "h * p", "shift", "cross") for k in DATA if k not in ("one", "pairs", "vfe")]
    + [(o, k) for o in OPS for k in ("one", "pairs", "vfe")],
    bounds="one operation on two correlated processes; exact observations of one or both at up to two points, also in steps "
    "and with missing values, and approximate ones; at one and at another input",
)
def once(env):
    name, kind = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    condition = conditioning(env, kind, f, g)
    build = builders(env, [name])
    swap = env.flag("swap") if name not in ("p - q",) else False
    order = (lambda p, q: (q, p)) if swap else lambda p, q: (p, q)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    (before,) = build(*order(f, g))
    post = condition(model.measure)
    pf, pg = post(f), post(g)
    (after,) = build(*order(pf, pg))
    check_same(env, post, before, after, [f, g, pf, pg], x, y)
    check_same(env, post, post(before), after, [before, f], x, y, "moved: ")


PAIRS = [
    ("p - q", "h * p"), ("h * p", "p - q"), ("shift", "p + q"), ("stretch", "q - p"), ("transform", "p + q"), ("p * h", "shift"),
    ("cross", "c * p"), ("cross", "-p"), ("c - p", "cross"), ("p + q", "cross"), ("q - p", "double cross"), ("cross", "shift"),
]  # fmt: skip


@scenario(
    "C24",
    quick=[(p, k) for p in PAIRS for k in ("pairs", "fitc", "steps")],
    bounds="two operations in a row, where both, only the second, or none of them comes before the conditioning",
)
def twice(env):
    names, kind = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    condition = conditioning(env, kind, f, g)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    first, second = builders(env, names[:1]), builders(env, names[1:], step=1)
    # The second operation acts on the result of the first and on the second process.
    (a1,) = first(f, g)
    (a2,) = second(a1, g)
    post = condition(model.measure)
    pf, pg = post(f), post(g)
    (b1,) = first(pf, pg)
    (b2,) = second(b1, pg)
    (c2,) = second(post(a1), pg)
    others = [f, pg]
    check_same(env, post, a2, b2, others, x, y)
    if env.flag("between"):
        check_same(env, post, c2, a2, others, x, y, "between: ")


@scenario(
    "C24",
    quick=[((o,), k) for o in op_names(1) + OPS + ["product", "square"] for k in ("pairs", "dtc")]
    + [(o, k) for o in [("product", "shift"), ("h * p", "product"), ("stretch", "cross"), ("cross", "c * p")] for k in ("one", "steps")],
    bounds="one or two operations on two correlated processes after conditioning, on the processes of the prior, on those of the posterior, "
    "or the second on the result of the first on the other ones; also products of processes",
)
def later(env):
    names, kind = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    condition = conditioning(env, kind, f, g)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    build = builders(env, names)
    post = condition(model.measure)
    pf, pg = post(f), post(g)
    a, b = build(f, g)[-1], build(pf, pg)[-1]
    env.true(post(a).measure is post and b.measure is post, "measures")
    linear = "product" not in names and "square" not in names
    check_same(env, post, a, b, [f, pg], x, y, linear=linear)
    check_same(env, post, post(a), b, [a, g] if linear else [g], x, y, "moved: ", linear=linear)
    if len(names) == 1 and env.flag("fdd"):
        env.eq(post(a)(x).mean, b(x).mean, "mean of distribution")
        env.eq(post(a(x)).var, b(x).var, "variance of distribution")


@scenario(
    "C24",
    quick=[(d, o) for d in (2,) for o in op_names(2)],
    bounds="inputs of two dimensions",
)
def dimensions(env):
    d, name = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    condition = conditioning(env, "pairs", f, g, d)
    build = builders(env, [name], d)
    x, y = env.inputs("x", 2, d), env.inputs("y", 1, d)
    (before,) = build(f, g)
    post = condition(model.measure)
    (after,) = build(post(f), post(g))
    check_same(env, post, before, after, [] if name.startswith("select") else [f], x, y)


@scenario(
    "C24",
    quick=[(o, k) for o in ("p - q", "h * p", "stretch") for k in ("one", "vfe")] + [("cross", "vfe")],
    thorough=[("cross", "one"), ("cross", "steps"), ("p - q", "steps")],
    bounds="finite-dimensional distributions, log-densities and further conditioning on processes built before and after",
)
def consequences(env):
    name, kind = env.params
    model = Model(env, Measure(), 2)
    f, g = model.ps
    condition = conditioning(env, kind, f, g)
    build = builders(env, [name])
    x = env.inputs("x", 1)
    (before,) = build(f, g)
    post = condition(model.measure)
    (after,) = build(post(f), post(g))
    a, b = post(before), after
    k = 2 if name == "cross" else 1
    e, t = env.vector("e", k), env.positive_vector("t", k)
    da, db = a(x, t), b(x, t)
    env.eq(da.mean, db.mean, "mean")
    env.eq(da.var, db.var, "var")
    env.eq(da.logpdf(e), db.logpdf(e), "log-density")
    ca, cb = post | (da, e), post | (db, e)
    w = env.inputs("xc", 1)
    for p in (f, before, a, b):
        env.eq(ca.means[p](w), cb.means[p](w), "mean after")
        env.eq(ca.kernels[p, f](w, x), cb.kernels[p, f](w, x), "covariance after")
