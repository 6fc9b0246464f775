"""The interface through which scenarios create inputs and state assertions.

A scenario is a function of an environment. It is executed symbolically (`SymEnv`) and,
for validation and for replays of counterexamples, on plain floats (`ConEnv`).
"""

import contextlib
import math
import zlib

import numpy as np
from lab import B

from . import arr, sym
from .kernels import SKernel, UKernel, UMean, _rng, base_kernel, base_mean


class Failure(Exception):
    """An assertion of a scenario failed in concrete mode."""

    def __init__(self, label, detail):
        Exception.__init__(self, f"{label}: {detail}")
        self.label, self.detail = label, detail


class BaseEnv:
    symbolic = None

    def __init__(self, params):
        self.params = params
        self._kernels = {}
        self._means = {}

    def kernel(self, name, symmetric=True):
        """Uninterpreted kernel."""
        if name not in self._kernels:
            self._kernels[name] = UKernel(self, name, symmetric)
        return self._kernels[name]

    def stationary_kernel(self, name):
        """Uninterpreted stationary kernel."""
        if name not in self._kernels:
            self._kernels[name] = SKernel(self, name)
        return self._kernels[name]

    def mean(self, name):
        """Uninterpreted mean."""
        if name not in self._means:
            self._means[name] = UMean(self, name)
        return self._means[name]

    # Default values of variables, used in concrete mode and for validation.

    def default(self, name, lo, hi):
        u = _rng(f"{name}#{self.variant}")(7)
        v = lo + (hi - lo) * u
        # Stay away from zero, which leads to matrices that are almost singular.
        return v if abs(v) >= 0.2 or lo > 0 else v + math.copysign(0.2, v)

    variant = 0

    def scalar(self, name, lo=-1.5, hi=1.5):
        """Arbitrary real."""
        return self._scalar(name, False, lo, hi)

    def positive(self, name, lo=0.3, hi=1.5):
        """Arbitrary positive real."""
        return self._scalar(name, True, lo, hi)

    def vector(self, name, n, lo=-1.5, hi=1.5):
        return self._array(name, (n,), False, lo, hi)

    def matrix(self, name, n, m, lo=-1.5, hi=1.5):
        return self._array(name, (n, m), False, lo, hi)

    def array(self, name, *shape):
        return self._array(name, shape, False, -1.5, 1.5)

    def positive_vector(self, name, n, lo=0.3, hi=1.5):
        return self._array(name, (n,), True, lo, hi)

    def inputs(self, name, n, d=None):
        """Arbitrary inputs. Of shape `(n,)` or `(n, d)`."""
        return self._array(name, (n,) if d is None else (n, d), False, -2, 2)

    def psd(self, name, n):
        """Arbitrary symmetric matrix. Wherever it is factorised it is assumed positive
        definite."""
        raise NotImplementedError

    @contextlib.contextmanager
    def jitter(self, name="jitter"):
        """Let the constant that is added to diagonals for numerical stability be arbitrary,
        for what must not depend on it."""
        saved, B.epsilon = B.epsilon, self.positive(name)
        try:
            yield
        finally:
            B.epsilon = saved

    def choice(self, name, options):
        """Arbitrary element of a finite list."""
        options = list(options)
        return options[self._choice(name, len(options))]

    def flag(self, name):
        """Arbitrary Boolean."""
        return bool(self._choice(name, 2))

    def eq(self, a, b, label):
        raise NotImplementedError

    def raises(self, exc, f, label):
        """Assert that `f()` raises `exc`."""
        try:
            f()
        except sym.Unsupported:
            raise
        except exc:
            self.true(True, label)
            return
        self.true(False, label + " (no exception)")


def numeric(x):
    """Strip matrix structure."""
    if isinstance(x, (list, tuple)):
        return [numeric(e) for e in x]
    return B.dense(x)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, params, variant=0):
        BaseEnv.__init__(self, params)
        self.variant = variant
        self.obligations = []
        self.values = {}  # Default values of the variables.
        self.nan_flags = set()

    def _reg(self, name, value):
        self.values[name] = value

    def _scalar(self, name, positive, lo, hi):
        v = sym.CTX.var(name, positive)
        self._reg(name, self.default(name, lo, hi))
        return arr.wrap(v)

    def _array(self, name, shape, positive, lo, hi):
        out = np.empty(shape, dtype=object)
        if out.size == 0:
            return np.zeros(shape)
        for ind in np.ndindex(*shape):
            nm = name + str(list(ind)).replace(" ", "")
            out[ind] = sym.CTX.var(nm, positive)
            self._reg(nm, self.default(nm, lo, hi))
        return arr.wrap(out)

    def psd(self, name, n):
        d = default_psd(self, name, n)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                nm = f"{name}[{i},{j}]"
                v = sym.CTX.var(nm)
                self._reg(nm, d[i, j])
                out[i, j] = out[j, i] = v
        return arr.wrap(out)

    def maybe_missing(self, y, name):
        """Let any element of `y` be missing."""
        r = arr.raw(y).copy()
        f = r.reshape(-1)
        for i in range(f.shape[0]):
            fl = f"{name}.missing[{i}]"
            f[i] = sym.S(f[i].n, f[i].d, frozenset([fl]))
        return arr.wrap(r)

    def is_missing(self, name, i):
        """Decide whether element `i` is missing."""
        return sym.CTX.flag(f"{name}.missing[{i}]")

    def _choice(self, name, n):
        return sym.CTX.choice(name, n)

    def kernel_value(self, *a):
        raise AssertionError

    def eq(self, a, b, label):
        a, b = numeric(a), numeric(b)
        if isinstance(a, list) or isinstance(b, list):
            if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
                self.obligations.append((label, "struct", f"{type(a)} versus {type(b)}"))
                return
            for x, y in zip(a, b):
                self.eq(x, y, label)
            return
        sa_, sb_ = np.shape(a), np.shape(b)
        if sa_ != sb_:
            self.obligations.append((label, "shape", f"shape {sa_} versus {sb_}"))
            return
        x = arr.raw(arr.sa(a)).reshape(-1)
        y = arr.raw(arr.sa(b)).reshape(-1)
        self.obligations.append((label, "eq", [(x[i], y[i]) for i in range(len(x))]))

    def true(self, cond, label):
        """Assert a condition: Boolean (decided on the path), or symbolic."""
        if isinstance(cond, sym.SymBool):
            self.obligations.append((label, "cond", cond))
        else:
            self.obligations.append((label, "bool", bool(cond)))

    def between(self, a, lo, hi, label):
        """Assert `lo <= a <= hi` elementwise."""
        for v in arr.raw(arr.sa(a)).reshape(-1):
            for c in (sym.S.of(v) >= lo, sym.S.of(v) <= hi):
                self.true(c, label)

    def assume_pos(self, s):
        """Assume that a scalar is positive."""
        for v in arr.raw(arr.sa(s)).reshape(-1):
            if v.sgn() is None:
                arr._assume_pos(v)
            elif v.sgn() <= 0:
                raise sym.PathAbort("assumption")

    def random_state(self, name="eps"):
        return State(self, name)


def default_psd(env, name, n):
    u = _rng(f"{name}~{env.variant}")
    a = np.array([[u(10 * i + j) - 0.5 for j in range(n + 1)] for i in range(n)])
    return a @ a.T + 0.4 * np.eye(n)


class ConEnv(BaseEnv):
    symbolic = False

    def __init__(self, params, variant=0, values=None, choices=None, flags=None, table=None, rtol=1e-6):
        BaseEnv.__init__(self, params)
        self.variant = variant
        self.given = values or {}
        self.choices = choices or {}
        self.flags = flags or {}
        self.table = table or {}
        self.rtol = rtol
        self.log = []
        self.used = {}

    def _value(self, name, lo, hi):
        v = self.given[name] if name in self.given else self.default(name, lo, hi)
        self.used[name] = v
        return float(v)

    def _scalar(self, name, positive, lo, hi):
        return self._value(name, lo, hi)

    def _array(self, name, shape, positive, lo, hi):
        out = np.zeros(shape)
        for ind in np.ndindex(*shape):
            nm = name + str(list(ind)).replace(" ", "")
            out[ind] = self._value(nm, lo, hi)
        return out

    def psd(self, name, n):
        d = default_psd(self, name, n)
        out = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                nm = f"{name}[{i},{j}]"
                v = self.given.get(nm, d[i, j])
                self.used[nm] = float(v)
                out[i, j] = out[j, i] = v
        return out

    def maybe_missing(self, y, name):
        y = y.copy()
        f = y.reshape(-1)
        for i in range(f.shape[0]):
            if self.is_missing(name, i):
                f[i] = np.nan
        return y

    def is_missing(self, name, i):
        return bool(self.flags.get(f"{name}.missing[{i}]", False))

    def _choice(self, name, n):
        return self.choices.get(name, 0)

    def kernel_value(self, name, symmetric, x, y):
        key = (name, tuple(round(float(v), 9) for v in x), tuple(round(float(v), 9) for v in y))
        if key in self.table:
            return self.table[key]
        return base_kernel(name, symmetric, [float(v) for v in x], [float(v) for v in y])

    def mean_value(self, name, x):
        key = (name, tuple(round(float(v), 9) for v in x))
        if key in self.table:
            return self.table[key]
        return base_mean(name, [float(v) for v in x])

    def eq(self, a, b, label):
        a, b = numeric(a), numeric(b)
        if isinstance(a, list) or isinstance(b, list):
            if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
                raise Failure(label, f"structure {type(a)} versus {type(b)}")
            for x, y in zip(a, b):
                self.eq(x, y, label)
            return
        if np.shape(a) != np.shape(b):
            raise Failure(label, f"shape {np.shape(a)} versus {np.shape(b)}")
        x, y = np.array(a, dtype=float), np.array(b, dtype=float)
        self.log.append((label, x.reshape(-1).tolist()))
        if x.size == 0:
            return
        scale = max(1.0, np.max(np.abs(y[np.isfinite(y)]), initial=0.0))
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(x - y) <= self.rtol * scale) & ~(np.isnan(x) & np.isnan(y))
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Failure(label, f"at {i}: got {x[i]!r}, expected {y[i]!r}")

    def true(self, cond, label):
        self.log.append((label, bool(cond)))
        if not bool(cond):
            raise Failure(label, "condition is false")

    def between(self, a, lo, hi, label):
        a = np.array(numeric(a), dtype=float)
        self.log.append((label, a.reshape(-1).tolist()))
        t = 1e-7 * max(1.0, np.max(np.abs(a), initial=0.0))
        if not (np.all(a >= np.asarray(lo, dtype=float) - t) and np.all(a <= np.asarray(hi, dtype=float) + t)):
            raise Failure(label, f"{a} not between {lo} and {hi}")

    def assume_pos(self, s):
        if not np.all(np.asarray(numeric(s)) > 0):
            raise AssumptionFailed()

    def random_state(self, name="eps"):
        return State(self, name)


class AssumptionFailed(Exception):
    pass


class State(np.random.RandomState):
    """Random state that gives out named values, and is replaced by the next one whenever
    a number is drawn, as the states of functional random number generators are.

    The values that the `k`th state gives depend on `k` only: drawing from a state twice
    gives the same values. What is given out is kept in `book`.
    """

    def __init__(self, env, name, book=None, give=None, k=0):
        np.random.RandomState.__init__(self, 0)
        self.env, self.name, self.k = env, name, k
        self.book = {} if book is None else book
        self.give = give

    def draw(self, shape):
        shape = tuple(int(i) for i in shape)
        key = (self.k, shape)
        if key not in self.book:
            self.book[key] = self.env.array(f"{self.name}{self.k}" + "x".join(map(str, shape)), *shape)
        value = self.book[key] if self.give is None else self.give(key, self.book[key])
        return type(self)(self.env, self.name, self.book, self.give, self.k + 1), value

    def fresh(self, give=None):
        """The same state, which gives out other values."""
        return State(self.env, self.name, self.book, give, self.k)

    def _inplace(self, shape):
        value = self.draw(shape)[1]
        self.k += 1
        return value

    def randn(self, *shape):
        return self._inplace(shape)

    def standard_normal(self, size=None, **kw):
        return self._inplace(_shape(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._inplace(_shape(size))

    def _no(self, *args, **kw):
        raise sym.Unsupported("random numbers that are not normal")

    rand = random_sample = uniform = choice = permutation = randint = seed = _no


def _shape(size):
    if size is None:
        return ()
    return (size,) if isinstance(size, int) else tuple(size)


@B.dispatch
def randn(state: State, dtype: B.NPDType, *shape: B.Int):
    return state.draw(shape)


@B.dispatch
def set_global_random_state(state: State):
    np.random.random = _Random(state)


class _Random:
    """Where LAB looks for the global random state."""

    def __init__(self, state):
        self.__self__ = state


@contextlib.contextmanager
def global_state(state):
    """Let `state` be the global random state."""
    original, np.random.random = np.random.random, _Random(state)
    try:
        yield
    finally:
        np.random.random = original
