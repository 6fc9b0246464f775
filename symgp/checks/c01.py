"""C01: linear operations yield the exact joint law."""

from fractions import Fraction

import numpy as np
from lab import B
from stheno import Measure, cross

from ..ops import apply, op_names, random_step
from ..ref import Model
from ..scenario import scenario
from .c04 import parts_cov, parts_elwise, parts_mean


def check_last(env, model, x, y, label=""):
    """Compare mean, kernel and all cross-covariances of the newest process."""
    m = model.measure
    p, f = model.ps[-1], model.fields[-1]
    env.true(p.measure is m, label + "measure")
    env.eq(p.mean(x), model.mean(f, x), label + "mean")
    env.eq(p.kernel(x, y), model.cov(f, f, x, y), label + "kernel")
    env.eq(p.kernel.elwise(x, x), model.cov_diag(f, f, x)[:, None], label + "kernel elwise")
    for j, (q, g) in enumerate(zip(model.ps[:-1], model.fields)):
        env.eq(m.kernels[p, q](x, y), model.cov(f, g, x, y), label + f"cov(new, {j})")
        env.eq(m.kernels[q, p](x, y), model.cov(g, f, x, y), label + f"cov({j}, new)")


@scenario(
    "C01",
    quick=[(n, b) for n in op_names(1) for b in (0, 1)],
    thorough=[],
    bounds="programs of two operations over two correlated base processes, the second operation "
    "on the newest process (and any other); one-dimensional inputs at 2 and 1 points",
    jitter=True,
)
def programs(env):
    name, base = env.params
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    apply(env, model, 0, name, 1, base, 1 - base)
    check_last(env, model, x, y, "step 1 ")
    random_step(env, model, 1, 1)
    check_last(env, model, x, y, "step 2 ")


SHORT = ["c - p", "p + h", "p / c", "h * p", "shift", "stretch", "transform", "p + q", "p - q", "q - p"]


@scenario(
    "C01",
    quick=[],
    thorough=[(a, b) for a in SHORT for b in SHORT],
    bounds="programs of three operations (one of each kind) over two correlated base processes, "
    "any operands; one-dimensional inputs at 1 and 1 points",
    jitter=True,
)
def deep_programs(env):
    a, b = env.params
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    apply(env, model, 0, a, 1, 0, 1)
    apply(env, model, 1, b, 1, 2, env.choice("other1", range(3)))
    random_step(env, model, 2, 1, names=SHORT, last=False)
    check_last(env, model, x, y)


@scenario(
    "C01",
    quick=[(n,) for n in op_names(2)],
    thorough=[],
    bounds="programs of two operations with two-dimensional inputs (also selecting dimensions, and "
    "shifting and stretching by vectors) at 2 and 1 points",
    jitter=True,
)
def programs_2d(env):
    (name,) = env.params
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 2, 2), env.inputs("y", 1, 2)
    apply(env, model, 0, name, 2, 0, 1)
    names = ["shift vector", "stretch vector", "select 1, 0", "h * p", "p - q", "transform"]
    if not name.endswith("vector") and name != "select 1, 0":
        # Selecting one dimension gives the operand one-dimensional inputs.
        names.append("select 1")
    if name == "select 1":
        # The operand takes one-dimensional inputs.
        names = ["c - p", "h * p", "shift", "stretch", "p + q"]
        check_last(env, model, x, y, "step 1 ")
    random_step(env, model, 1, 2, names=names, last=True)
    check_last(env, model, x, y, "step 2 ")


def _literals():
    """Operations with numbers and shapes as users write them: `{name: (real, reference)}`."""
    by = lambda a: (lambda f: f.times(lambda x: a))  # noqa: E731
    plus = lambda a: (lambda f: f.plus(lambda x: a))  # noqa: E731
    minus = by(-1)
    half, third = Fraction(1, 2), Fraction(3)
    ops = {
        "p + 0": (lambda p: p + 0, plus(0)),
        "0 + p": (lambda p: 0 + p, plus(0)),
        "p + 1": (lambda p: p + 1, plus(1)),
        "2 - p": (lambda p: 2 - p, lambda f: minus(f).plus(lambda x: 2)),
        "p - 0.5": (lambda p: p - 0.5, plus(-half)),
        "p * 1": (lambda p: p * 1, by(1)),
        "p * 0": (lambda p: p * 0, by(0)),
        "0.0 * p": (lambda p: 0.0 * p, by(0)),
        "-1 * p": (lambda p: -1 * p, by(-1)),
        "3 * p": (lambda p: 3 * p, by(3)),
        "p * -0.5": (lambda p: p * -0.5, by(-half)),
        "p / 2": (lambda p: p / 2, by(half)),
        "p / -0.5": (lambda p: p / -0.5, by(-2)),
        "np.float64(-2) * p": (lambda p: p * np.float64(-2), by(-2)),
        "array + p": (lambda p: p + np.array(1.5), plus(third / 2)),
        "array * p": (lambda p: p * np.array(-1.5), by(-third / 2)),
        "--p": (lambda p: -(-p), by(1)),
        "2 * 3 * p": (lambda p: 2 * (3 * p), by(6)),
        "p / 2 * 2": (lambda p: p / 2 * 2, by(1)),
        "1 + p - 1": (lambda p: 1 + p - 1, plus(0)),
        "shift 0": (lambda p: p.shift(0), lambda f: f.at(lambda x: x)),
        "shift 1": (lambda p: p.shift(1), lambda f: f.at(lambda x: tuple(a - 1 for a in x))),
        "shift -0.5": (lambda p: p.shift(-0.5), lambda f: f.at(lambda x: tuple(a + half for a in x))),
        "shift twice": (lambda p: p.shift(1).shift(-3), lambda f: f.at(lambda x: tuple(a + 2 for a in x))),
        "stretch 1": (lambda p: p.stretch(1), lambda f: f.at(lambda x: x)),
        "stretch 2": (lambda p: p.stretch(2), lambda f: f.at(lambda x: tuple(a / 2 for a in x))),
        "stretch 0.25": (lambda p: p.stretch(0.25), lambda f: f.at(lambda x: tuple(4 * a for a in x))),
        "stretch -2": (lambda p: p.stretch(-2), lambda f: f.at(lambda x: tuple(-a / 2 for a in x))),
        "stretch shift": (lambda p: p.stretch(2).shift(1), lambda f: f.at(lambda x: tuple((a - 1) / 2 for a in x))),
        "shift stretch": (lambda p: p.shift(1).stretch(2), lambda f: f.at(lambda x: tuple(a / 2 - 1 for a in x))),
        "constant function": (lambda p: p + (lambda x: 2 * B.ones(x[:, :1])), plus(2)),
        "constant factor": (lambda p: (lambda x: -2 * B.ones(x[:, :1])) * p, by(-2)),
        "p + p": (lambda p: p + p, by(2)),
        "p - p": (lambda p: p - p, by(0)),
        "p + p + p": (lambda p: p + p + p, by(3)),
        "2 * p - p": (lambda p: 2 * p - p, by(1)),
        "sum": (lambda p: sum([p, p, p]), by(3)),
    }
    three = {
        "select 0": (lambda p: p.select(0), lambda f: f.at(lambda x: (x[0],))),
        "select 2": (lambda p: p.select(2), lambda f: f.at(lambda x: (x[2],))),
        "select 2, 0": (lambda p: p.select(2, 0), lambda f: f.at(lambda x: (x[2], x[0]))),
        "select 1, 1": (lambda p: p.select(1, 1), lambda f: f.at(lambda x: (x[1], x[1]))),
        "select 1, 2, 0": (lambda p: p.select(1, 2, 0), lambda f: f.at(lambda x: (x[1], x[2], x[0]))),
        "select list": (lambda p: p.select([2, 1]), lambda f: f.at(lambda x: (x[2], x[1]))),
        "select twice": (lambda p: p.select(1, 0).select(2, 1), lambda f: f.at(lambda x: (x[1], x[2]))),
        "shift array": (lambda p: p.shift(np.array([1.0, -2.0, 0.0])), lambda f: f.at(lambda x: (x[0] - 1, x[1] + 2, x[2]))),
        "stretch array": (lambda p: p.stretch(np.array([1.0, 2.0, -4.0])), lambda f: f.at(lambda x: (x[0], x[1] / 2, -x[2] / 4))),
        "transform": (lambda p: p.transform(lambda x: x[..., 1:]), lambda f: f.at(lambda x: (x[1], x[2]))),
        "reversed": (lambda p: p.transform(lambda x: x[..., ::-1]), lambda f: f.at(lambda x: x[::-1])),
    }
    del three["select list"]
    return ops, three


@scenario(
    "C01",
    quick=[(n, 1) for n in _literals()[0]] + [(n, 3) for n in _literals()[1]] + [("p - p", 2), ("shift 1", 2), ("stretch 2", 2), ("p * 0", 3)],
    bounds="operations with numbers as users write them (Python and NumPy numbers, also zero, one and negative ones), the same "
    "process twice, and selections and transforms of inputs of three dimensions; then sums with either process and the negation, "
    "at 2 and 1 points",
    jitter=True,
)
def literals(env):
    name, d = env.params
    ops = _literals()
    real, ref = {**ops[0], **ops[1]}[name]
    model = Model(env, Measure(), 2)
    x, y = env.inputs("x", 2, d), env.inputs("y", 1, d)
    p = real(model.ps[0])
    model.ps.append(p)
    model.fields.append(ref(model.fields[0]))
    check_last(env, model, x, y)
    if not name.startswith("select") and name != "transform":
        apply(env, model, 1, env.choice("then", ["p + q", "p - q", "c - p"]), d, 2, env.choice("other", [0, 1]))
        check_last(env, model, x, y, "then ")


PRODUCT_OPS = [n for n in op_names(1) if n not in ("p * h", "c + p", "h + p", "p - c", "c - p")]


@scenario(
    "C01",
    quick=[(n, k) for n in PRODUCT_OPS for k in (1, 2)],
    bounds="one operation on the Cartesian product of two correlated processes (for sums and differences: and on the "
    "reversed product), at k and 1 points: mean, kernel, and covariances with the processes and the products",
    jitter=True,
)
def cartesian_operations(env):
    name, k = env.params
    model = Model(env, Measure(), 2)
    (f, g), (F, G) = model.ps, model.fields
    m = model.measure
    c, r = cross(f, g), cross(g, f)
    x, y = env.inputs("x", k), env.inputs("y", 1)

    # Apply the operation to the product and, as a reference, to its components.
    class Parts:
        pass

    whole, parts = Parts(), []
    whole.ps, whole.fields = [c, r], [F, G]
    p, _ = apply(env, whole, 0, name, 1, 0, 1)
    for a, b in ((F, G), (G, F)):
        part = Parts()
        part.ps, part.fields = [f, g], [a, b]
        parts.append(apply(env, part, 0, name, 1, 0, 1)[1])
    X, Y = [(h, x) for h in parts], [(h, y) for h in parts]
    env.eq(p.mean(x), parts_mean(model, X), "mean")
    env.eq(p.kernel(x, y), parts_cov(model, X, Y), "kernel")
    env.eq(p.kernel.elwise(x), parts_elwise(env, model, X, X), "elwise")
    others = [(f, [F]), (g, [G]), (c, [F, G]), (r, [G, F]), (cross(g, f, g), [G, F, G])]
    for j, (q, hs) in enumerate(others):
        env.eq(m.kernels[p, q](x, y), parts_cov(model, X, [(h, y) for h in hs]), f"covariance with {j}")
        env.eq(m.kernels[q, p](y, x), parts_cov(model, [(h, y) for h in hs], X), f"covariance of {j}")
