"""C18: lazy tables resolve keys by rules, once, and never elsewhere."""

import itertools

from stheno.lazy import LazyMatrix, LazyVector

from ..keys import integer
from ..scenario import scenario


class Built:
    """An element that a rule made."""

    def __init__(self, rule, args):
        self.rule, self.args = rule, args


class Error(Exception):
    """A builder fails."""


class Table:
    """A lazy table next to the definition of what it should do."""

    def __init__(self, env, rank):
        self.env, self.rank = env, rank
        self.real = LazyVector() if rank == 1 else LazyMatrix()
        self.rules, self.store, self.built, self.n, self.fail = [], [], [], 0, None

    def add(self, kind, fixed, domain, later):
        """Add a rule. The domain is a set that changes afterwards."""
        k, indices = len(self.rules), set(domain)
        self.rules.append((kind, fixed, list(domain)))

        def build(*args):
            if self.fail == k:
                raise Error()
            b = Built(k, args)
            self.built.append(b)
            return b

        if kind == "universal":
            self.real.add_rule(indices, build)
        elif kind == "left":
            self.real.add_left_rule(fixed, indices, build)
        else:
            self.real.add_right_rule(fixed, indices, build)
        # The domain was fixed just now.
        indices.update(later)
        if k % 2:
            indices.clear()

    def set(self, key, value):
        self.real[key if self.rank > 1 else key[0]] = value
        self.store = [(k, v) for k, v in self.store if not self.equal(k, key)]
        self.store.append((tuple(key), value))

    @staticmethod
    def equal(a, b):
        return all(x == y for x, y in zip(a, b))

    def expected(self, key):
        for k, v in self.store:
            if self.equal(k, key):
                return "stored", v
        inside = lambda i, domain: any(i == j for j in domain)  # noqa: E731
        for kind in ("universal", "left", "right"):
            for n, (kd, fixed, domain) in enumerate(self.rules):
                if kd != kind:
                    continue
                if kind == "universal" and all(inside(i, domain) for i in key):
                    return "build", (n, key)
                if kind == "left" and key[0] == fixed and inside(key[1], domain):
                    return "build", (n, key[1:])
                if kind == "right" and key[1] == fixed and inside(key[0], domain):
                    return "build", (n, key[:1])
        return "error", None

    def get(self, key, how=None):
        """Look an element up, and compare."""
        env = self.env
        self.n += 1
        label = f"lookup {self.n}"
        what, value = self.expected(key)
        before = len(self.built)
        index = how if how is not None else (key if self.rank > 1 else key[0])
        try:
            result, error = self.real[index], None
        except (RuntimeError, Error, KeyError) as e:
            result, error = None, e
        made = self.built[before:]
        if what == "error":
            env.true(isinstance(error, RuntimeError) and not made, f"{label}: no rule applies")
        elif what == "stored":
            env.true(error is None and result is value and not made, f"{label}: the element that is there")
        elif self.fail == value[0]:
            env.true(isinstance(error, Error) and not made, f"{label}: the builder fails")
        else:
            env.true(error is None and len(made) == 1 and result is made[0], f"{label}: built once")
            ok = made and made[0].rule == value[0] and len(made[0].args) == len(value[1])
            env.true(ok and self.equal(made[0].args, value[1]), f"{label}: by the first rule that applies")
            self.store.append((tuple(key), result))
        return result


KINDS = ["universal", "left", "right"]


@scenario(
    "C18",
    quick=[(ks, 1, e) for ks in itertools.product(KINDS, repeat=2) for e in ("get", "set")]
    + [(ks, 1, "none") for ks in itertools.product(KINDS, repeat=3) if ks.count("universal") < 2],
    thorough=[(ks, 1, "none") for ks in itertools.product(KINDS, repeat=3) if ks.count("universal") == 2]
    + [(ks, 2, e) for ks in itertools.product(KINDS[1:], repeat=2) for e in ("get", "set")],
    bounds="a matrix with rules of the given kinds, of which domains have n elements (universal: n + 1) and then change; "
    "an element that is looked up before and after a rule is added or an element is set; all keys are arbitrary integers",
)
def matrix(env):
    kinds, n, early = env.params
    t = Table(env, 2)
    key = (integer(env, "i"), integer(env, "j"))
    other = (integer(env, "k"), integer(env, "l"))

    def add(r):
        domain = [integer(env, f"domain {r} {a}") for a in range(n + (kinds[r] == "universal"))]
        t.add(kinds[r], integer(env, f"fixed {r}"), domain, key)

    for r in range(len(kinds) - 1):
        add(r)
    if early == "get":
        t.get(key)
    elif early == "set":
        t.set(other, [None, object()][kinds[0] == "left"])
    add(len(kinds) - 1)
    t.get(key)
    t.get(key)
    if early == "set":
        t.get(other)


@scenario(
    "C18",
    quick=[(1, 2), (2, 1)],
    thorough=[(2, 2), (3, 1)],
    bounds="a vector with k rules of n elements each, that then change; lookups of two elements before and after the last "
    "rule is added and an element is set; all keys are arbitrary integers",
)
def vector(env):
    k, n = env.params
    t = Table(env, 1)
    i, j = (integer(env, "i"),), (integer(env, "j"),)
    for r in range(k):
        if r == k - 1:
            t.get(i)
        t.add("universal", None, [integer(env, f"domain {r} {a}") for a in range(n)], i + j)
    t.get(i)
    t.get(j)
    t.set(j, [None, 0, object()][k % 3])
    t.get(i)
    t.get(j)


@scenario(
    "C18",
    quick=[(a, b) for a in KINDS for b in KINDS],
    bounds="a rule that fails, and one that does not, for one element each; all keys are arbitrary integers",
)
def failing(env):
    t = Table(env, 2)
    key = (integer(env, "i"), integer(env, "j"))
    for r, kind in enumerate(env.params):
        t.add(kind, key[0] if kind == "left" else key[1], [key[1], key[0]] if kind == "universal" else [integer(env, f"d{r}")], key)
    t.fail = env.choice("fails", [0, 1])
    t.get(key)
    t.get(key)
    t.fail = None
    t.get(key)
    t.get(key)


@scenario(
    "C18",
    quick=[(1,), (2,)],
    bounds="elements indexed by objects, their identities, and single keys for the diagonal; one set element and one rule",
)
def forms(env):
    (rank,) = env.params
    t = Table(env, rank)

    class Key:
        """Equal to everything, but indexed by identity."""

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    a, b, c = Key(), Key(), Key()
    t.add("universal", None, [id(a), id(b)], [id(c)])
    value = object()
    first = env.choice("first", [a, b, c])
    second = env.choice("second", [a, b, c]) if rank == 2 else None
    form = env.choice("form", ["objects", "identities", "mixed"])
    ids = (id(first),) if rank == 1 else (id(first), id(second))
    where = {
        "objects": first if rank == 1 else (first, second),
        "identities": ids[0] if rank == 1 else ids,
        "mixed": (first,) if rank == 1 else (id(first), second),
    }[form]
    if env.flag("set"):
        t.real[where] = value
        t.store.append((ids, value))
    t.get(ids, where)
    t.get(ids)
    for x in (a, b, c):
        t.get((id(x),) * rank, x)
        t.get((id(x),) * rank, id(x))


@scenario(
    "C18",
    quick=[(1,), (2,)],
    bounds="rules that look other elements up, as measures do; all keys are arbitrary integers",
)
def recursive(env):
    (rank,) = env.params
    i, j, k = (integer(env, n) for n in "ijk")
    table = LazyVector() if rank == 1 else LazyMatrix()
    built = []

    def build(*args):
        built.append(args)
        if not any(a == i for a in args):
            # Goes to the element of `i`.
            return ("next", table[i], args)
        return ("end", args)

    table.add_rule({i, j}, build)
    try:
        first = table[j]
    except RuntimeError:
        first = None
    env.true(first is not None and (first[0] == "end") == (j == i), "the chain of rules")
    env.true(table[i] is (first if first[0] == "end" else first[1]), "the inner element is the same object")
    env.true(table[j] is first, "the outer element is the same object")
    env.true(len(built) == (1 if j == i else 2), "every element is built once")
    try:
        table[k]
        found = True
    except RuntimeError:
        found = False
    env.true(found == (k == i or k == j), "other keys are in no domain")
    env.true(len(built) == (1 if j == i else 2), "no more elements are built")
