"""C28: processes only report to be stationary if their covariance is shift invariant."""

from stheno import GP, Measure, Obs, PseudoObs, cross

from ..ops import apply, op_names
from ..scenario import scenario

# Operations that keep the covariance of a stationary process stationary, and that do not hide it.
KEEP = ["p + c", "c + p", "p - c", "c - p", "p + h", "h + p", "p * c", "c * p", "p / c", "-p", "shift", "stretch"]


class Processes:
    """Two stationary processes and one which is not, all independent."""

    def __init__(self, env):
        self.measure = Measure()
        self.ps = [
            GP(env.mean("m0"), env.stationary_kernel("k0"), measure=self.measure),
            GP(env.mean("m1"), env.stationary_kernel("k1"), measure=self.measure),
            GP(env.mean("m2"), env.kernel("k2"), measure=self.measure),
        ]
        self.fields = [Anything() for _ in range(5)]


class Anything:
    """Absorbs operations: no reference is necessary."""

    def __getattr__(self, name):
        return lambda *args: self

    def __add__(self, other):
        return self


def check_invariant(env, k, x, y, c, label):
    env.eq(k(x + c, y + c), k(x, y), label + ": kernel")
    env.eq(k.elwise(x + c), k.elwise(x), label + ": elwise")


def check_pairs(env, m, ps, x, y, c, label=""):
    """All covariances which are reported to be stationary are."""
    for i, p in enumerate(ps):
        env.true(p.stationary == p.kernel.stationary, label + f"{i}: process and kernel agree")
        for j, q in enumerate(ps):
            k = m.kernels[p, q]
            if k.stationary:
                check_invariant(env, k, x, y, c, label + f"{i}, {j}")


@scenario(
    "C28",
    quick=[(o, d) for d in (1, 2) for o in op_names(d)] + [("product", 1), ("diff", 1), ("copy", 1), ("diff", 2)],
    bounds="one operation on a stationary or other process, and another one on the result, at 2 and 1 points: every kernel and "
    "cross-covariance that is reported to be stationary is invariant under a common shift of both inputs",
)
def operations(env):
    name, d = env.params
    model = Processes(env)
    ps = model.ps
    x, y = env.inputs("x", 2, d), env.inputs("y", 1, d)
    c = env.scalar("shift")
    i, j = env.choice("operands", [(0, 1), (0, 0), (0, 2), (2, 0)])
    if name == "product":
        ps.append(ps[i] * ps[j])
    elif name == "diff":
        p = ps[i].diff(0)
        env.true(p.stationary == p.kernel.stationary, "process and kernel agree")
        check_pairs(env, model.measure, ps + [p], x, y, c)
        return
    elif name == "copy":
        ps.append(model.measure(ps[i]))
    else:
        apply(env, model, 0, name, d, i, j)
    p = ps[3]
    if i == 0 and (name in KEEP or name == "copy"):
        env.true(p.stationary, "is stationary")
    if name in ("p + q", "p - q", "q - p") and (i, j) == (0, 1):
        env.true(p.stationary, "sum is stationary")
    if name in ("p + q", "copy") and i == 2:
        env.true(not p.stationary, "is not stationary")
    check_pairs(env, model.measure, ps, x, y, c)
    if not name.startswith("select"):
        # Shifting a process whose kernel is stationary leaves that kernel as it is.
        q = p.shift(c)
        env.eq(q.kernel(x, y), p.kernel(x - c, y - c), "shift")
        env.eq(model.measure.kernels[q, p](x, y), p.kernel(x - c, y), "covariance with shift")
        ps.append(q)
        ps.append(p + ps[1])
        check_pairs(env, model.measure, ps[3:], x, y, c, "then ")


@scenario(
    "C28",
    quick=[(w,) for w in ("posterior", "vfe", "empty", "cross", "cross later", "scaled cross", "posterior cross")]
    + [("cross with " + o,) for o in op_names(1)] + [("operation on cross", o) for o in KEEP],
    bounds="posteriors, Cartesian products (of any processes, also those derived from each other) and their covariances with processes, at 2 and 1 points",
)
def others(env):
    kind = env.params[0]
    model = Processes(env)
    m, (f, g, h) = model.measure, model.ps
    x, y, c = env.inputs("x", 2), env.inputs("y", 1), env.scalar("shift")
    ps = [f, g, h]
    if kind in ("posterior", "vfe", "empty"):
        z, s = env.inputs("z", 1), env.positive("s")
        if kind == "posterior":
            m = m | Obs(f(z, s), env.vector("v", 1))
        elif kind == "vfe":
            m = m | PseudoObs(f(env.inputs("u", 1)), f(z, s), env.vector("v", 1))
        else:
            m = m | (f(env.inputs("z", 0)), env.vector("v", 0))
        ps = [m(p) for p in ps]
    elif kind == "cross":
        ps.append(cross(f, g))
    elif kind == "cross later":
        ps.append(cross(f, h))
        ps.append(f.shift(c))
    elif kind == "scaled cross":
        ps.append(2 * cross(f, g))
    elif kind.startswith("cross with "):
        # A product of processes that are stationary, but not jointly.
        apply(env, model, 0, kind[len("cross with ") :], 1, 0, 1)
        ps = model.ps
        i = env.choice("with", [0, 1])
        ps.append(cross(ps[i], ps[3]))
        ps.append(ps[4].shift(c))
    elif kind == "operation on cross":
        ps = model.ps
        ps.append(f.stretch(env.scalar("negative")) if env.flag("stretched") else f)
        ps.append(cross(f, ps[-1]))
        apply(env, model, 0, env.params[1], 1, 4, 1)
    elif kind == "posterior cross":
        z, s = env.inputs("z", 1), env.positive("s")
        p = cross(f, g)
        m = m | (f(z, s), env.vector("v", 1))
        ps = [m(q) for q in (f, g, p)]
    for i, p in enumerate(ps):
        env.true(p.stationary == p.kernel.stationary, f"{i}: process and kernel agree")
        for j, q in enumerate(ps):
            k = m.kernels[p, q]
            if k.stationary:
                env.eq(k(x + c, y + c), k(x, y), f"{i}, {j}: kernel")
            else:
                env.true(True, f"{i}, {j}: is not reported to be stationary")
