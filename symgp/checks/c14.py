"""C14: names identify processes uniquely and consistently."""

from stheno import GP, Measure, cross

from ..keys import string
from ..scenario import scenario


def name_of(m, p):
    """Name that a measure reports for a process, or `None`."""
    try:
        return m[p]
    except KeyError:
        return None


def state(ms, ps):
    return [[name_of(m, p) for p in ps] for m in ms]


def same(a, b):
    return (a is None) == (b is None) and (a is None or a == b)


def consistent(env, ms, ps, label):
    """Invariants of all measures."""
    for i, m in enumerate(ms):
        names = []
        for j, p in enumerate(ps):
            n = name_of(m, p)
            if n is None:
                continue
            found = None
            try:
                found = m[n]
            except KeyError:
                pass
            env.true(found is p, f"{label}: the name of process {j} looks it up in measure {i}")
            env.true(not any(n == o for o in names), f"{label}: the name of process {j} is unique in measure {i}")
            names.append(n)
            if p.measure is m:
                env.true(p.name == n, f"{label}: process {j} reports its name")


def expect(env, ms, ps, before, after, label):
    for i in range(len(ms)):
        for j in range(len(ps)):
            a = after[i][j]
            b = before[i][j]
            env.true(same(a, b), f"{label}: name of process {j} in measure {i}")


ACTIONS = ["rename 0", "rename 1", "measure names 0", "measure names 1", "new", "posterior", "posterior names 0", "posterior names 1"]


def step(env, act, n, ms, ps, label):
    """Perform an action with name `n`, and compare to what it should do."""
    before = state(ms, ps)
    target = ms
    if act == "posterior":
        ms.append(ms[0] | (ps[0](env.inputs(f"z{len(ms)}", 1), env.positive(f"s{len(ms)}")), env.vector(f"v{len(ms)}", 1)))
        consistent(env, ms, ps, label)
        expect(env, ms[:-1], ps, before, state(ms, ps), label)
        return
    if act == "new":
        target, j = ms[:1], len(ps)
        p = None
    else:
        j = int(act[-1])
        p = ps[j]
        if act.startswith("measure"):
            target = ms[:1]
        elif act.startswith("posterior"):
            target = ms[-1:]
        else:
            target = [m for m in ms if any(q is p for q in m.ps)]
    taken = any(
        before[i][k] is not None and before[i][k] == n
        for i, m in enumerate(ms)
        if any(m is t for t in target)
        for k in range(len(ps))
        if k != j
    )
    made, sizes = list(ps), [len(m.ps) for m in ms]
    try:
        if act == "new":
            made.append(GP(env.kernel(f"k{j}"), measure=ms[0], name=n))
        elif act.startswith("rename"):
            p.name = n
        else:
            target[0].name(p, n)
        failed = False
    except RuntimeError:
        failed = True
    env.true(failed == taken, f"{label}: raises exactly if the name is taken")
    if failed:
        env.true([len(m.ps) for m in ms] == sizes, f"{label}: no process is added")
        expect(env, ms, ps, before, state(ms, ps), label + " (raised)")
    else:
        if act == "new":
            ps.append(made[-1])
            for row in before:
                row.append(None)
        for i, m in enumerate(ms):
            if any(m is t for t in target):
                before[i][j] = n
        expect(env, ms, ps, before, state(ms, ps), label)
    consistent(env, ms, ps, label)


def probe(env, ms, ps):
    """Looking up an arbitrary name."""
    s = string(env, "probe")
    for i, m in enumerate(ms):
        owner = [p for p in ps if name_of(m, p) is not None and name_of(m, p) == s]
        found = None
        try:
            found = m[s]
        except KeyError:
            pass
        env.true(found is (owner[0] if owner else None), f"arbitrary name in measure {i}")


@scenario(
    "C14",
    quick=[(3, a) for a in ("rename 0", "measure names 0", "new")] + [(3, "posterior")],
    thorough=[(4, a) for a in ("rename 0", "new", "posterior")],
    bounds="all histories of k actions on two processes: setting the name of a process, naming it through the measure "
    "or only in a posterior, new named processes, and conditioning; all names are arbitrary strings; then any name "
    "is looked up",
)
def history(env):
    k, first = env.params
    ms = [Measure()]
    ps = [GP(env.kernel("k0"), measure=ms[0]), GP(env.mean("m1"), env.kernel("k1"), measure=ms[0])]
    for i in range(k):
        act = first if i == 0 else env.choice(f"action {i}", ACTIONS)
        if act.startswith("posterior names") and len(ms) == 1:
            act = act.replace("posterior", "measure")
        step(env, act, string(env, f"name{i}"), ms, ps, f"step {i}")
    probe(env, ms, ps)


@scenario(
    "C14",
    quick=[("distinct",), ("any",), ("any", "conditioned")],
    bounds="three processes, named when they are made, exchange names; all names are arbitrary strings",
)
def exchange(env):
    kind = env.params[0]
    m = Measure()
    a, b, c = (string(env, f"name {i}") for i in "abc")
    ms, ps = [m], []
    for i, n in enumerate((a, b)):
        step(env, "new", n, ms, ps, f"new {i}")
    if len(ps) < 2:
        return
    if len(env.params) > 1:
        step(env, "posterior", None, ms, ps, "posterior")
    # A name that is given up can be taken by another process, and returned.
    step(env, "rename 0", c, ms, ps, "rename")
    step(env, "rename 1", a if kind == "distinct" else string(env, "name d"), ms, ps, "take")
    step(env, "rename 0", b if kind == "distinct" else string(env, "name e"), ms, ps, "swap")
    step(env, "new", c, ms, ps, "reuse")
    probe(env, ms, ps)


@scenario(
    "C14",
    quick=[(w,) for w in ("sum", "multiple", "product", "shift", "cross", "copy")],
    bounds="naming processes that are derived from others, next to named ones; all names are arbitrary strings",
)
def derived(env):
    (way,) = env.params
    m = Measure()
    ms, ps = [m], []
    step(env, "new", string(env, "name a"), ms, ps, "first")
    p = ps[0]
    q = GP(env.kernel("kq"), measure=m)
    r = {
        "sum": lambda: p + q,
        "multiple": lambda: 2 * p,
        "product": lambda: p * q,
        "shift": lambda: p.shift(1),
        "cross": lambda: cross(p, q),
        "copy": lambda: m(p),
    }[way]()
    ps.append(r)
    env.true(name_of(m, r) is None, "a derived process has no name")
    step(env, "rename 1", string(env, "name b"), ms, ps, "name the derived process")
    step(env, "rename 0", string(env, "name c"), ms, ps, "rename the first process")
    step(env, "rename 1", string(env, "name d"), ms, ps, "rename the derived process")
    probe(env, ms, ps)
