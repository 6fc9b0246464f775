"""Operations that build processes: on real processes, and on reference fields."""

from lab import B

from .kernels import coords


def first(v):
    return v


class Op:
    def __init__(self, name, real, ref, arity=1):
        self.name, self.real, self.ref, self.arity = name, real, ref, arity


def _tup(v, d):
    """Scalar or vector as a tuple of `d` coordinates."""
    import numpy as np

    if np.ndim(v) == 0:
        return (v,) * d
    return tuple(v[i] for i in range(d))


def unary_ops(env, tag, d, select=True):
    """All unary operations with fresh arbitrary constants and functions."""
    c = env.scalar(f"c{tag}")
    pos = env.positive(f"l{tag}")
    h = env.mean(f"h{tag}")
    t = [env.mean(f"t{tag}_{i}") for i in range(d)]

    def transform(x):
        return B.concat(*[ti(x) for ti in t], axis=-1)

    fun = lambda x: h(x)  # noqa: E731

    def tcoord(x):
        return tuple(ti.value(x) for ti in t)

    hv = h.value
    ops = [
        Op("p + c", lambda p: p + c, lambda f: f.plus(lambda x: c)),
        Op("c + p", lambda p: c + p, lambda f: f.plus(lambda x: c)),
        Op("p - c", lambda p: p - c, lambda f: f.plus(lambda x: -c)),
        Op("c - p", lambda p: c - p, lambda f: f.times(lambda x: -1).plus(lambda x: c)),
        Op("p + h", lambda p: p + fun, lambda f: f.plus(hv)),
        Op("h + p", lambda p: fun + p, lambda f: f.plus(hv)),
        Op("p - h", lambda p: p - fun, lambda f: f.plus(lambda x: -hv(x))),
        Op("p * c", lambda p: p * c, lambda f: f.times(lambda x: c)),
        Op("c * p", lambda p: c * p, lambda f: f.times(lambda x: c)),
        Op("p / c", lambda p: p / c, lambda f: f.times(lambda x: 1 / c)),
        Op("-p", lambda p: -p, lambda f: f.times(lambda x: -1)),
        Op("p * h", lambda p: p * fun, lambda f: f.times(hv)),
        Op("h * p", lambda p: fun * p, lambda f: f.times(hv)),
        Op(
            "shift",
            lambda p: p.shift(c),
            lambda f: f.at(lambda x: tuple(a - c for a in x)),
        ),
        Op(
            "stretch",
            lambda p: p.stretch(pos),
            lambda f: f.at(lambda x: tuple(a / pos for a in x)),
        ),
        Op("transform", lambda p: p.transform(transform), lambda f: f.at(tcoord)),
    ]
    if d > 1:
        cv = env.vector(f"cv{tag}", d)
        pv = env.positive_vector(f"lv{tag}", d)
        ops += [
            Op("shift vector", lambda p: p.shift(cv), lambda f: f.at(lambda x: tuple(a - b for a, b in zip(x, cv)))),
            Op("stretch vector", lambda p: p.stretch(pv), lambda f: f.at(lambda x: tuple(a / b for a, b in zip(x, pv)))),
        ]
        if select:
            ops += [
                Op("select 1", lambda p: p.select(1), lambda f: f.at(lambda x: (x[1],))),
                Op("select 1, 0", lambda p: p.select(1, 0), lambda f: f.at(lambda x: (x[1], x[0]))),
            ]
    return ops


def binary_ops():
    return [
        Op("p + q", lambda p, q: p + q, lambda f, g: f + g, 2),
        Op("p - q", lambda p, q: p - q, lambda f, g: f + g.times(lambda x: -1), 2),
        Op("q - p", lambda p, q: q - p, lambda f, g: g + f.times(lambda x: -1), 2),
    ]


UNARY_NAMES = [
    "p + c", "c + p", "p - c", "c - p", "p + h", "h + p", "p - h", "p * c", "c * p", "p / c", "-p",
    "p * h", "h * p", "shift", "stretch", "transform",
]  # fmt: skip


def op_names(d, select=True):
    n = list(UNARY_NAMES)
    if d > 1:
        n += ["shift vector", "stretch vector"] + (["select 1", "select 1, 0"] if select else [])
    return n + ["p + q", "p - q", "q - p"]


def apply(env, model, step, name, d, operand, other):
    """Apply an operation and add the result to the model."""
    for op in unary_ops(env, step, d) + binary_ops():
        if op.name == name:
            if op.arity == 1:
                p = op.real(model.ps[operand])
                f = op.ref(model.fields[operand])
            else:
                p = op.real(model.ps[operand], model.ps[other])
                f = op.ref(model.fields[operand], model.fields[other])
            model.ps.append(p)
            model.fields.append(f)
            return p, f
    raise KeyError(name)


def random_step(env, model, step, d, names=None, last=True):
    """One step of a program that the solver chooses: an operation and its operands."""
    names = names or op_names(d)
    name = env.choice(f"op{step}", names)
    n = len(model.ps)
    operand = n - 1 if last else env.choice(f"operand{step}", range(n))
    other = None
    if name in ("p + q", "p - q", "q - p"):
        other = env.choice(f"other{step}", range(n))
    return apply(env, model, step, name, d, operand, other)
