"""C03: products are matched in mean and covariance."""

from stheno import Measure

from ..ops import apply, binary_ops, unary_ops
from ..ref import Field, Model
from ..scenario import scenario
from .c01 import check_last


class PModel(Model):
    """Model in which products are approximated by processes with the same two moments."""

    extra = None

    def base_cov(self, i, j, x, y):
        e = self.extra or {}
        if i in e or j in e:
            return e[i](x, y) if i == j else None
        return Model.base_cov(self, i, j, x, y)

    def multiply(self, a, b):
        """Product of fields `a` and `b`: moments of products of Gaussians."""
        self.extra = self.extra or {}
        key = f"product{len(self.extra)}"
        self.extra[key] = lambda x, y: a.cov(a, x, y) * b.cov(b, x, y) + a.cov(b, x, y) * b.cov(a, x, y)
        lin = a.times(b.mean) + b.times(a.mean)
        return Field(
            self,
            lambda x: a.mean(x) * b.mean(x) + a.cov(b, x, x),
            lin.terms + [(lambda x: 1, key, lambda x: x)],
        )


def add_product(model, i, j):
    p = model.ps[i] * model.ps[j]
    f = model.multiply(model.fields[i], model.fields[j])
    model.ps.append(p)
    model.fields.append(f)


KINDS = ["independent", "correlated", "same", "derived", "zero means"]


@scenario(
    "C03",
    quick=[(k, o) for k in KINDS for o in ("none", "h * p", "p - q", "c - p", "shift", "transform")],
    bounds="a product of independent, correlated, identical or derived factors, and any of six linear "
    "operations on it; covariances with all other processes; at 2 and 1 points",
    jitter=True,
)
def products(env):
    kind, op = env.params
    model = PModel(env, Measure(), 2, correlated=kind not in ("independent",), zero_mean=kind == "zero means")
    x, y = env.inputs("x", 2), env.inputs("y", 1)
    i, j = 0, 1
    if kind == "same":
        j = 0
    if kind == "derived":
        apply(env, model, 0, "p + q", 1, 0, 1)
        i, j = 2, 0
    if env.flag("swap"):
        i, j = j, i
    add_product(model, i, j)
    check_last(env, model, x, y, "product ")
    if op != "none":
        apply(env, model, 1, op, 1, len(model.ps) - 1, 0)
        check_last(env, model, x, y, op + " ")


@scenario(
    "C03",
    quick=[(a, b) for a in ("correlated", "same") for b in ("with factor", "with itself", "with other", "again", "power")],
    thorough=[("independent", b) for b in ("with factor", "with itself", "with other", "again", "power")],
    bounds="products of products and several products of the same factors; three base processes; "
    "at 1 and 1 points",
    jitter=True,
)
def nested(env):
    kind, how = env.params
    model = PModel(env, Measure(), 3, correlated=kind != "independent")
    x, y = env.inputs("x", 1), env.inputs("y", 1)
    add_product(model, 0, 0 if kind == "same" else 1)
    k = len(model.ps) - 1
    if how == "with factor":
        add_product(model, k, 0)
    elif how == "with itself":
        add_product(model, k, k)
    elif how == "with other":
        add_product(model, 2, k)
    elif how == "again":
        # The remainder of one product is independent of that of another.
        add_product(model, 0, 0 if kind == "same" else 1)
    else:
        p = model.ps[0] ** 2 if hasattr(model.ps[0], "__pow__") else model.ps[0] * model.ps[0]
        model.ps.append(p)
        model.fields.append(model.multiply(model.fields[0], model.fields[0]))
    check_last(env, model, x, y)


@scenario(
    "C03",
    quick=[(2,)],
    bounds="two-dimensional inputs at 2 and 1 points",
    jitter=True,
)
def dims(env):
    (d,) = env.params
    model = PModel(env, Measure(), 2)
    x, y = env.inputs("x", 2, d), env.inputs("y", 1, d)
    add_product(model, 0, 1)
    check_last(env, model, x, y)


class Conditioned(PModel):
    """The law of a model given one observation of one of its processes."""

    def __init__(self, prior, which, z, v, s):
        self.__dict__.update(prior.__dict__)
        self.prior, self.extra = prior, None
        self.which, self.z = which, (z[0],)
        g = prior.fields[which]
        self.precision = 1 / (g.cov(g, self.z, self.z) + s)
        self.weight = self.precision * (v[0] - g.mean(self.z))
        self.fields = [
            Field(self, lambda x, f=f: f.mean(x) + f.cov(g, x, self.z) * self.weight, [(lambda x: 1, i, lambda x: x)])
            for i, f in enumerate(prior.fields)
        ]
        self.ps = list(prior.ps)

    def base_cov(self, i, j, x, y):
        e = self.extra or {}
        if i in e or j in e:
            return e[i](x, y) if i == j else None
        f, h, g = self.prior.fields[i], self.prior.fields[j], self.prior.fields[self.which]
        return f.cov(h, x, y) - f.cov(g, x, self.z) * self.precision * g.cov(h, self.z, y)


@scenario(
    "C03",
    quick=[(k, o, w) for k in ("correlated", "same", "independent") for o in ("none", "h * p", "p - q") for w in ("copies", "prior processes")],
    bounds="a product that is made after one observation of a factor, from processes of the posterior or from processes of "
    "the prior (which are part of the posterior too): its law in the posterior and, in the latter case, in the prior; "
    "and a linear operation on it; at 1 and 1 points",
)
def in_posterior(env):
    kind, op, which = env.params
    model = PModel(env, Measure(), 2, correlated=kind != "independent")
    x, y, z = env.inputs("x", 1), env.inputs("y", 1), env.inputs("z", 1)
    v, s = env.vector("v", 1), env.positive("s")
    post = model.measure | (model.ps[0](z, s), v)
    law = Conditioned(model, 0, z, v, s)
    i, j = (0, 0) if kind == "same" else (0, 1)
    if env.flag("swap"):
        i, j = j, i
    if which == "copies":
        law.ps = [post(p) for p in model.ps]
        add_product(law, i, j)
        if op != "none":
            apply(env, law, 1, op, 1, 2, 0)
        laws = [(post, law)]
    else:
        add_product(model, i, j)
        law.fields.append(law.multiply(law.fields[i], law.fields[j]))
        if op != "none":
            apply(env, model, 1, op, 1, 2, 0)
            ref = next(o.ref for o in unary_ops(env, 1, 1) + binary_ops() if o.name == op)
            law.fields.append(ref(law.fields[2]) if op == "h * p" else ref(law.fields[2], law.fields[0]))
        law.ps = model.ps
        laws = [(post, law), (model.measure, model)]
    for m, ref in laws:
        label = "posterior " if m is post else "prior "
        for a, (p, f) in enumerate(zip(ref.ps, ref.fields)):
            env.eq(m.means[p](x), ref.mean(f, x), f"{label}mean {a}")
            for b, (q, g) in enumerate(zip(ref.ps, ref.fields)):
                env.eq(m.kernels[p, q](x, y), ref.cov(f, g, x, y), f"{label}cov {a}, {b}")
