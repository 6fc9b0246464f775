"""C20: processes of different models never mix."""

import numpy as np
from stheno import GP, Measure, Obs, PseudoObs, cross
from stheno.model.gp import assert_same_measure

from ..ops import apply
from ..ref import M, Model, block, col
from ..scenario import scenario
from .c03 import PModel
from .c12 import check_law, check_prior

WAYS = {
    "p + q": 2, "p - q": 2, "p * q": 2, "cross 2": 2, "cross 3": 3, "cross 4": 4, "nested": 3, "combine": 3, "cross of sums": 4,
    "obs 2": 2, "obs 3": 3, "inducing": 2, "sample": 3, "logpdf": 3, "measure.sum": 2, "measure.mul": 2, "assert": 3, "chain": 3,
    "condition": 1, "condition approximately": 1, "inducing only": 1, "one sample": 1, "one logpdf": 1, "call": 1, "distribution": 1,
}  # fmt: skip


def mix(env, way, ps, m, x, v):
    """Combine processes."""
    s = env.positive("s")
    if way == "p + q":
        return ps[0] + ps[1]
    if way == "p - q":
        return ps[0] - ps[1]
    if way == "p * q":
        return ps[0] * ps[1]
    if way == "chain":
        return ps[0] + 2 * ps[1] * (1 + ps[2])
    if way in ("cross 2", "cross 3", "cross 4"):
        return cross(*ps)
    if way == "nested":
        return cross(cross(ps[0], ps[1]), ps[2])
    if way == "cross of sums":
        return cross(ps[0] + ps[1], ps[2] + ps[3])
    if way == "combine":
        from stheno.model.observations import combine

        return combine(*[p(x) for p in ps])
    if way in ("obs 2", "obs 3"):
        return Obs(*[(p(x, s), v) for p in ps])
    if way == "inducing":
        return PseudoObs(tuple(p(x) for p in ps), ps[0](x, s), v)
    if way == "sample":
        return m.sample(env.random_state("eps"), *[p(x, s) for p in ps])
    if way == "logpdf":
        return m.logpdf(*[(p(x, s), v) for p in ps])
    if way == "measure.sum":
        return m.sum(GP(), *ps)
    if way == "measure.mul":
        return m.mul(GP(), *ps)
    if way == "assert":
        return assert_same_measure(*ps)
    # A process on its own under a measure that it is not part of.
    if way == "condition":
        return m | (ps[0](x, s), v)
    if way == "condition approximately":
        return m | PseudoObs(ps[0](x), ps[0](x, s), v)
    if way == "inducing only":
        return m | PseudoObs(ps[0](x), m.ps[0](x, s), v)
    if way == "one sample":
        return m.sample(env.random_state("eps"), ps[0](x, s))
    if way == "one logpdf":
        return m.logpdf(ps[0](x, s), v)
    if way == "call":
        return m(ps[0])
    if way == "distribution":
        return m(ps[0](x, s))
    raise KeyError(way)


FOREIGN = ["other", "posterior", "other posterior", "own measure", "prior"]


@scenario(
    "C20",
    quick=[(w, f) for w in WAYS for f in FOREIGN if WAYS[w] > 1 or f != "prior"],
    bounds="every way to use a process of another model, and to combine two to four processes, of which one, at any position, or several, at any positions, are from "
    "another model: another measure, a measure of their own, a posterior, the prior of a posterior; afterwards all laws, names and "
    "measures of both models are as before, and both can still be extended and conditioned; one-point evaluations",
)
def mixing(env):
    way, foreign = env.params
    k = WAYS[way]
    one, two = Model(env, Measure(), 2, tag="a"), Model(env, Measure(), 2, tag="b")
    x, y, v = env.inputs("x", 1), env.inputs("y", 1), env.vector("v", 1)
    m, n = one.measure, two.measure
    one.ps[0].name, two.ps[0].name = "p", "p"
    z, t, w = env.inputs("z", 1), env.positive("t"), env.vector("w", 1)
    post, post2 = m | (one.ps[0](z, t), w), n | (two.ps[0](z, t), w)
    law, law2 = one.posterior([(one.fields[0], z)], w, M(env, lambda i, j: t, 1, 1)), two.posterior(
        [(two.fields[0], z)], w, M(env, lambda i, j: t, 1, 1)
    )
    home, ps = m, one.ps
    if foreign == "other":
        q = two.ps[0]
    elif foreign == "posterior":
        q = post(one.ps[0])
    elif foreign == "other posterior":
        q = post2(two.ps[1])
    elif foreign == "own measure":
        q = GP(env.mean("m own"), env.kernel("k own"))
    else:
        home, ps, q = post, [post(p) for p in one.ps], one.ps[0]
    mask = env.choice("foreign at", [i for i in range(1, 2**k - 1)]) if k > 1 else 1
    args = [q if mask >> i & 1 else ps[i % 2] for i in range(k)]
    measures = [p.measure for p in one.ps + two.ps + [q] + ps]
    env.raises(Exception, lambda: mix(env, way, args, home, x, v), "combining raises")
    # Nothing has changed.
    env.true(all(p.measure is a for p, a in zip(one.ps + two.ps + [q] + ps, measures)), "measures of processes")
    for model, a, l, label in [(one, post, law, "first "), (two, post2, law2, "second ")]:
        check_prior(env, model, x, y, label)
        check_law(env, model, a, l, x, y, label + "posterior ")
        env.true(model.measure["p"] is model.ps[0] and model.ps[0].name == "p", label + "name")
        r = GP(env.kernel("k new"), measure=model.measure)
        env.true(r.measure is model.measure, label + "measure of a new process")
        # They can still be combined, after which the old law applies.
        s = model.ps[0] + model.ps[1]
        f = model.fields[0] + model.fields[1]
        env.eq(s(x).var, model.cov(f, f, x), label + "sum afterwards")
        env.true(s.measure is model.measure, label + "measure of the sum")
        env.eq(a.kernels[s, model.ps[0]](x, y), l.cov(f, model.fields[0], x, y), label + "sum afterwards in the posterior")


OPS = ["sum", "difference", "product", "cross", "obs"]


@scenario(
    "C20",
    quick=[(o, w) for o in OPS for w in ("prior", "posterior", "before and after", "in context", "after failure")],
    bounds="processes of the same model (made in the prior, in a posterior, before and after conditioning, in a context, derived by two "
    "operations, after a failed attempt) can be combined, which has the right law; at 1 point",
)
def same(env):
    op, where = env.params
    model = PModel(env, Measure(), 2)
    m = model.measure
    x, y, v = env.inputs("x", 1), env.inputs("y", 1), env.vector("v", 1)
    z, t = env.inputs("z", 1), env.positive("t")
    apply(env, model, 0, env.choice("first", ["p * c", "h + p", "shift"]), 1, 0, 1)
    law = model
    ps = model.ps
    if where == "posterior":
        post = m | (model.ps[1](z, t), v)
        law = model.posterior([(model.fields[1], z)], v, M(env, lambda i, j: t, 1, 1))
        m, ps = post, [post(p) for p in model.ps]
    elif where == "before and after":
        m | (model.ps[1](z, t), v)
        apply(env, model, 1, "-p", 1, 0, 1)
        m | (model.ps[0](z, t), v)
        apply(env, model, 2, "p - q", 1, 3, 0)
    elif where == "in context":
        with m:
            ps.append(ps[0] + GP(env.mean("m new"), env.kernel("k new")))
        model.fields.append(None)
        env.true(ps[-1].measure is m, "made in the context")
    elif where == "after failure":
        env.raises(Exception, lambda: ps[0] + GP(env.kernel("k own")), "fails")
    i = env.choice("i", range(len(ps)))
    j = env.choice("j", range(len(ps)))
    p, q, f, g = ps[i], ps[j], model.fields[i], model.fields[j]
    if f is None or g is None:
        # Compare to the measure itself.
        r = {"sum": lambda: p + q, "difference": lambda: p - q, "product": lambda: p * q, "cross": lambda: cross(p, q)}.get(op, lambda: p)()
        env.true(r.measure is m, "measure")
        if op == "sum":
            K = m.kernels[p](x) + m.kernels[q](x) + m.kernels[p, q](x) + m.kernels[q, p](x)
            env.eq(r(x).var, K, "law")
        return
    if op == "cross":
        r = cross(p, q)
        d = r(x)
        env.eq(d.mean, np.concatenate([law.mean(f, x), law.mean(g, x)], axis=0), "mean")
        env.eq(d.var, block([[law.cov(a, b, x) for b in (f, g)] for a in (f, g)]), "var")
    elif op == "obs":
        o = Obs((p(x, t), v), (q(y, t), v))
        r = o.fdd.p
        env.eq(m(o.fdd).mean, np.concatenate([law.mean(f, x), law.mean(g, y)], axis=0), "mean")
        env.eq(o.y, np.concatenate([col(v), col(v)], axis=0), "data")
    elif op == "product":
        r = p * q
        env.eq(r.mean(x), M(env, lambda a, b: law.mean(f, x)[0, 0] * law.mean(g, x)[0, 0] + law.cov(f, g, x)[0, 0], 1, 1), "mean")
    else:
        r = p + q if op == "sum" else p - q
        h = f + g if op == "sum" else f + g.times(lambda x: -1)
        env.eq(r(x).mean, law.mean(h, x), "mean")
        env.eq(r(x).var, law.cov(h, h, x), "var")
    env.true(r.measure is m, "measure")
