"""Symbolic real scalars.

A symbolic scalar `S` is an exact rational function `n / d` with `d` kept as a product of
factors. Besides plain variables, numerators may contain *atoms*:

* `sqrt` atoms `s` with `s * s = p` and `s >= 0` (powers of two or more are rewritten);
* `log` atoms;
* applications of uninterpreted functions (kernels, means, `exp`, `max`, ...), keyed by
  the canonical form of their arguments.

Everything that the program under analysis decides on symbolic values goes through
`SymBool.__bool__`, which asks the current path for a decision.
"""

import math
from fractions import Fraction

from . import poly as P
from .poly import Poly


class Unsupported(Exception):
    """The engine cannot represent an operation symbolically."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Atom:
    __slots__ = ("i", "kind", "name", "args", "meta")

    def __init__(self, i, kind, name, args=(), meta=None):
        self.i, self.kind, self.name, self.args, self.meta = i, kind, name, args, meta

    def __repr__(self):
        if self.kind in ("in", "flag"):
            return self.name
        return f"{self.name}({', '.join(map(str, self.args))})"


class Context:
    """State of the execution of one path."""

    def __init__(self, prefix=(), feasible=None):
        P.reset()
        self.atoms = []
        self.by_key = {}
        self.sqmask = 0
        self.sqdef = {}
        self.signs = {}
        self.factors = []
        self.factor_set = set()
        # Path condition: list of `(poly, op)` with `op` in `> >= == !=`.
        self.cond = []
        self.flag_cond = {}
        self.dens = {}  # Small denominators, which must not be zero.
        self.assumed = 0
        self.prefix = list(prefix)
        self.trace = []  # Decisions made: `(value, alternatives_open, label)`.
        self.decided = {}
        self.feasible = feasible
        self.pi = None
        self.n_branch = 0
        self.choices = {}
        # Steps of the normaliser, to be confirmed by the solver.
        self.lemmas = []
        self.lemma_terms = 0
        self.lemmas_seen = 0

    # Variables and atoms

    def _new(self, kind, name, args=(), meta=None):
        i = P.new_var()
        a = Atom(i, kind, name, args, meta)
        assert i == len(self.atoms)
        self.atoms.append(a)
        return a

    def var(self, name, positive=False):
        key = ("in", name)
        if key not in self.by_key:
            a = self._new("in", name)
            self.by_key[key] = a
            if positive:
                self.assume_sign(P.var(a.i), 1, "positive")
        return S(P.var(self.by_key[key].i))

    def app(self, name, args, meta=None):
        """Application of an uninterpreted function to `S` arguments."""
        key = ("app", name, tuple(a.key() for a in args))
        a = self.by_key.get(key)
        if a is None:
            a = self._new("app", name, tuple(args), meta)
            self.by_key[key] = a
        return S(P.var(a.i))

    def sqrt_atom(self, p):
        key = ("sqrt", p)
        a = self.by_key.get(key)
        if a is None:
            a = self._new("sqrt", "sqrt", (S(p),))
            self.by_key[key] = a
            self.sqmask |= (P.FIELD ^ 1) << (P.W * a.i)
            self.sqdef[a.i] = p
            self.signs[P.var(a.i)] = 1
        return P.var(a.i)

    def log_atom(self, p):
        key = ("log", p)
        a = self.by_key.get(key)
        if a is None:
            a = self._new("log", "log", (S(p),))
            self.by_key[key] = a
        return S(P.var(a.i))

    # Facts

    def sign(self, p):
        """Known sign of polynomial `p`, or `None`."""
        if p.is_zero():
            return 0
        c, m, q = p.content()
        s = 1 if c > 0 else -1
        for i, e in P.mono_vars(m):
            if e % 2:
                si = self.signs.get(P.var(i))
                if si is None:
                    return None
                s *= si
        if q.is_one():
            return s
        sq = self.signs.get(q)
        if sq is None and self._manifestly_positive(q):
            sq = 1
        return None if sq is None else s * sq

    def _manifestly_positive(self, q):
        if len(q.t) > 60:
            return False
        for m, c in q.t.items():
            if c < 0:
                return False
            for i, e in P.mono_vars(m):
                if e % 2 and self.signs.get(P.var(i)) != 1:
                    return False
        return True

    def learn(self, p, s):
        """Record that polynomial `p` has sign `s`."""
        c, m, q = p.content()
        if c < 0:
            s = -s
        unknown = []
        for i, e in P.mono_vars(m):
            if e % 2:
                si = self.signs.get(P.var(i))
                if si is None:
                    unknown.append(P.var(i))
                else:
                    s *= si
        if not q.is_one():
            sq = self.signs.get(q)
            if sq is None and self._manifestly_positive(q):
                sq = 1
            if sq is None:
                unknown.append(q)
            else:
                s *= sq
        if len(unknown) == 1:
            self.signs[unknown[0]] = s
        elif not unknown and s < 0:
            raise PathAbort("contradictory sign")

    def assume_sign(self, p, s, why=""):
        """Assume `s * p > 0`."""
        if self.sign(p) == s:
            return
        self.cond.append((p if s > 0 else -p, ">"))
        self.assumed += 1
        self.learn(p, s)

    # Branching

    def branch(self, key, payload, label):
        """Decide a symbolic condition. `payload` is a list of `(poly, op)` for the true
        branch and for the false branch, or a flag."""
        if key in self.decided:
            return self.decided[key]
        k = len(self.trace)
        self.n_branch += 1
        if k < len(self.prefix):
            value = self.prefix[k]
            open_ = False
        else:
            t, f = self.feasible(self, payload)
            if not t and not f:
                raise PathAbort("infeasible")
            value = bool(t)
            open_ = bool(t and f)
        self.trace.append((value, open_, label))
        self.decided[key] = value
        self.apply(payload, value)
        return value

    def apply(self, payload, value):
        kind = payload[0]
        if kind == "flag":
            self.flag_cond[payload[1]] = value
        else:
            p, op = payload[1], payload[2]
            if not value:
                p, op = negate(p, op)
            self.cond.append((p, op))
            if op == ">":
                self.learn(p, 1)
            elif op == "==":
                pass

    def flag(self, name):
        """Decide a free Boolean."""
        return self.branch(("flag", name), ("flag", name), name)

    def choice(self, name, n):
        """Decide a free integer in `[0, n)`."""
        for i in range(n - 1):
            if self.flag(f"{name}=={i}"):
                self.choices[name] = i
                return i
        self.choices[name] = n - 1
        return n - 1


def negate(p, op):
    return {
        ">": (-p, ">="),
        ">=": (-p, ">"),
        "==": (p, "!="),
        "!=": (p, "=="),
    }[op]


CTX = None
LEMMA_TERMS = 30000  # Budget of terms of recorded steps, per path.


def lemma(lhs, rhs):
    """Record the claim that a sum of products equals a product."""
    c = CTX
    c.lemmas_seen += 1
    if c.lemma_terms > LEMMA_TERMS:
        return
    size = 1
    for f in rhs:
        size *= len(f.t)
    for t in lhs:
        k = 1
        for f in t:
            k *= len(f.t)
        size += k
    if size > 4000 or size <= 4:
        return
    c.lemma_terms += size
    c.lemmas.append((lhs, rhs))


def set_context(ctx):
    global CTX
    CTX = ctx


def ctx():
    return CTX


NO_NAN = frozenset()
NAN_TRUE = frozenset(["<nan>"])


def reduce(p):
    """Rewrite squares of square-root atoms."""
    mask = CTX.sqmask
    if not mask:
        return p
    while True:
        bad = [m for m in p.t if m & mask]
        if not bad:
            return p
        good = dict(p.t)
        groups = {}
        for m in bad:
            c = good.pop(m)
            fac = []
            mm = m
            for i, e in P.mono_vars(m):
                if e >= 2 and i in CTX.sqdef:
                    mm -= (e - e % 2) << (P.W * i)
                    fac.append((i, e // 2))
            groups.setdefault(tuple(fac), {})[mm] = c
        res = Poly(good)
        for fac, t in groups.items():
            q = Poly(t)
            for i, e in fac:
                q = q * CTX.sqdef[i].pow(e)
            res = res + q
        p = res


def cancel(n, d):
    if not d:
        return n, d
    if n.is_zero():
        return n, {}
    out = None
    for f, e in list(d.items()):
        k = e
        while k > 0:
            q = n.divexact(f)
            if q is None:
                break
            lemma([[q, f]], [n])
            n = q
            k -= 1
        if k != e:
            if out is None:
                out = dict(d)
            if k:
                out[f] = k
            else:
                del out[f]
    return n, d if out is None else out


def split_factors(prim):
    """Split a primitive polynomial by the factors seen so far."""
    res = {}
    if prim.is_one():
        return res
    if prim in CTX.factor_set:
        return {prim: 1}
    for f in CTX.factors:
        while len(prim.t) > 1 and prim != f:
            q = prim.divexact(f)
            if q is None:
                break
            res[f] = res.get(f, 0) + 1
            prim = q
        if prim == f:
            break
    if not prim.is_one():
        res[prim] = res.get(prim, 0) + 1
        if prim not in CTX.factor_set:
            CTX.factor_set.add(prim)
            CTX.factors.append(prim)
    return res


def expand_den(d):
    r = P.ONE
    for f, e in d.items():
        r = r * f.pow(e)
    return r


_FLOATS = {}


def _float(c):
    """Convert a float. Multiples of pi and the like become symbolic."""
    if math.isnan(c):
        return S(P.ZERO, {}, NAN_TRUE)
    if math.isinf(c):
        raise Unsupported("infinite constant")
    if c in _FLOATS:
        return _FLOATS[c]()
    return S(P.const(Fraction(c)))


class S:
    """Symbolic real."""

    __slots__ = ("n", "d", "nan", "_k")
    __array_priority__ = 1000

    def __init__(self, n, d=None, nan=NO_NAN):
        self.n = n
        self.d = d if d is not None else {}
        self.nan = nan
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.n, frozenset(self.d.items()))
        return self._k

    # Hash by canonical form: used only for memo keys of the engine.

    def __hash__(self):
        return hash(self.key())

    @staticmethod
    def of(x):
        if type(x) is S:
            return x
        if isinstance(x, bool):
            return S(P.ONE if x else P.ZERO)
        if isinstance(x, int):
            return S(P.const(x))
        if isinstance(x, Fraction):
            return S(P.const(x))
        if isinstance(x, float):
            return _float(x)
        if hasattr(x, "item") and getattr(x, "shape", ()) == ():
            return S.of(x.item())
        if isinstance(x, SymBool):
            return S.of(bool(x))
        if hasattr(x, "__int__") and type(x).__name__ == "Dimension":
            return S.of(int(x))
        raise Unsupported(f"cannot convert {type(x)} to a symbolic scalar")

    def is_const(self):
        return not self.d and self.n.is_const() and not self.nan

    def const(self):
        return Fraction(self.n.const())

    # Arithmetic

    def __neg__(self):
        return S(-self.n, self.d, self.nan)

    def __pos__(self):
        return self

    def __add__(self, other):
        try:
            other = S.of(other)
        except Unsupported:
            return NotImplemented
        nan = self.nan | other.nan if (self.nan or other.nan) else NO_NAN
        if self.n.is_zero() and not nan:
            return other
        if other.n.is_zero() and not nan:
            return self
        if self.d is other.d or self.d == other.d:
            n = self.n + other.n
            n, d = cancel(n, self.d)
            return S(n, d, nan)
        lcm = dict(self.d)
        for f, e in other.d.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        n1, n2 = self.n, other.n
        t1, t2 = [n1], [n2]
        for f, e in lcm.items():
            e1 = e - self.d.get(f, 0)
            if e1:
                n1 = n1 * f.pow(e1)
                t1 += [f] * e1
            e2 = e - other.d.get(f, 0)
            if e2:
                n2 = n2 * f.pow(e2)
                t2 += [f] * e2
        n = n1 + n2
        lemma([t1, t2], [n])
        n, d = cancel(reduce(n), lcm)
        return S(n, d, nan)

    __radd__ = __add__

    def __sub__(self, other):
        try:
            return self + (-S.of(other))
        except Unsupported:
            return NotImplemented

    def __rsub__(self, other):
        try:
            return S.of(other) + (-self)
        except Unsupported:
            return NotImplemented

    def __mul__(self, other):
        try:
            other = S.of(other)
        except Unsupported:
            return NotImplemented
        nan = self.nan | other.nan if (self.nan or other.nan) else NO_NAN
        if self.n.is_zero() or other.n.is_zero():
            return S(P.ZERO, {}, nan)
        n1, d2 = cancel(self.n, other.d)
        n2, d1 = cancel(other.n, self.d)
        n = n1 * n2
        lemma([[n1, n2]], [n])
        r = reduce(n)
        if d1 and d2:
            d = dict(d1)
            for f, e in d2.items():
                d[f] = d.get(f, 0) + e
        else:
            d = d1 or d2
        if r is not n:
            r, d = cancel(r, d)
        return S(r, d, nan)

    __rmul__ = __mul__

    def inv(self):
        if self.n.is_zero():
            raise ZeroDivisionError("symbolic division by zero")
        c, m, q = self.n.content()
        num = expand_den(self.d).scale(Fraction(1) / c)
        den = {}
        for i, e in P.mono_vars(m):
            if i in CTX.sqdef:
                # `1 / s = s / p`.
                num = num * P.var(i).pow(e)
                c2, m2, q2 = CTX.sqdef[i].pow(e).content()
                num = num.scale(Fraction(1) / c2)
                for j, e2 in P.mono_vars(m2):
                    if j in CTX.sqdef:
                        raise Unsupported("nested root in monomial")
                    f = P.var(j)
                    den[f] = den.get(f, 0) + e2
                for f, e2 in split_factors(q2).items():
                    den[f] = den.get(f, 0) + e2
            else:
                f = P.var(i)
                den[f] = den.get(f, 0) + e
        for f, e in split_factors(q).items():
            den[f] = den.get(f, 0) + e
        for f in den:
            if len(f.t) <= 3 and f not in CTX.dens:
                CTX.dens[f] = True
        num = reduce(num)
        num, den = cancel(num, den)
        return S(num, den, self.nan)

    def __truediv__(self, other):
        try:
            other = S.of(other)
        except Unsupported:
            return NotImplemented
        if other.is_const():
            c = other.const()
            if c == 0:
                raise ZeroDivisionError("symbolic division by zero")
            return S(self.n.scale(1 / c), self.d, self.nan)
        return self * other.inv()

    def __rtruediv__(self, other):
        try:
            return S.of(other) / self
        except Unsupported:
            return NotImplemented

    def __pow__(self, k):
        if isinstance(k, S):
            if not k.is_const():
                raise Unsupported("symbolic exponent")
            k = k.const()
        k = Fraction(k)
        if k.denominator == 1:
            k = int(k)
            b = self if k >= 0 else self.inv()
            r = S(P.ONE)
            for _ in range(abs(k)):
                r = r * b
            return r
        if k == Fraction(1, 2):
            return self.sqrt()
        if k == Fraction(-1, 2):
            return self.sqrt().inv()
        raise Unsupported("fractional exponent")

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    # Roots, logarithms, and friends

    def _pieces(self):
        """Pieces of which the product is `self`: a constant and polynomials with a known
        positive sign, plus at most one piece of which the sign is unknown."""
        c, m, q = self.n.content()
        pieces = {}
        for i, e in P.mono_vars(m):
            pieces[P.var(i)] = e
        if not q.is_one():
            for f, e in split_factors(q).items():
                pieces[f] = pieces.get(f, 0) + e
        for f, e in self.d.items():
            pieces[f] = pieces.get(f, 0) - e
        known, unknown = {}, []
        for f, e in pieces.items():
            if e == 0:
                continue
            s = CTX.sign(f)
            if s is not None:
                if s < 0 and e % 2:
                    c = -c
                known[f if s > 0 else -f] = e
            else:
                unknown.append((f, e))
        return c, known, unknown

    def sqrt(self):
        if self.nan:
            return S(P.ZERO, {}, self.nan)
        if self.n.is_zero():
            return S(P.ZERO)
        c, known, unknown = self._pieces()
        res = S(P.ONE)
        odd = []
        for f, e in unknown:
            k, r = divmod(e, 2)
            if k:
                res = res * (_abs_of(f) ** k)
            if r:
                odd.append(f)
        if odd:
            # The radicand is assumed nonnegative (a square root of a negative number is
            # NaN in the real code), so the sign of the product is that of `c`.
            rest = P.ONE
            for f in odd:
                rest = rest * f
            if c < 0:
                rest, c = -rest, -c
            CTX.assume_sign(rest, 1, "radicand")
            res = res * _sqrt_plain(rest)
        if c < 0:
            raise Unsupported("square root of a negative number")
        for f, e in known.items():
            k, r = divmod(e, 2)
            if k:
                res = res * (S(f) ** k)
            if r:
                res = res * _sqrt_plain(f)
        return res * _sqrt_const(Fraction(c))

    def log(self):
        if self.nan:
            return S(P.ZERO, {}, self.nan)
        c, known, unknown = self._pieces()
        res = S(P.ZERO)
        if unknown:
            n, d = P.ONE, P.ONE
            for f, e in unknown:
                if e > 0:
                    n = n * f.pow(e)
                else:
                    d = d * f.pow(-e)
            if c < 0:
                n, c = -n, -c
            CTX.assume_sign(n * d, 1, "log")
            if d.is_one():
                res = res + CTX.log_atom(n)
            else:
                # `log(n / d) = log(n * d) - log(d^2)`, and `n * d > 0`.
                res = res + CTX.log_atom(n * d) - CTX.log_atom(d * d)
        if c <= 0:
            raise Unsupported("logarithm of a nonpositive number")
        for f, e in known.items():
            vs = f.vars()
            if len(f.t) == 1 and len(vs) == 1 and vs[0] in CTX.sqdef:
                res = res + S(CTX.sqdef[vs[0]]).log() * Fraction(e, 2)
            else:
                res = res + CTX.log_atom(f) * e
        c = Fraction(c)
        for k, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, e in _factor_int(k):
                res = res + CTX.log_atom(P.const(p)) * (s * e)
        return res

    def exp(self):
        if self.nan:
            return S(P.ZERO, {}, self.nan)
        if self.n.is_zero():
            return S(P.ONE)
        new = ("app", "exp", (self.key(),)) not in CTX.by_key
        r = CTX.app("exp", (self,))
        if new:
            CTX.assume_sign(r.n, 1, "exp")
        return r

    def _fn(self, name):
        if self.nan:
            return S(P.ZERO, {}, self.nan)
        return CTX.app(name, (self,))

    def sin(self):
        return self._fn("sin")

    def cos(self):
        return self._fn("cos")

    def tanh(self):
        return self._fn("tanh")

    def log1p(self):
        return (self + 1).log()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(P.ZERO)

    def __abs__(self):
        if self.nan:
            return self
        s = self.sgn()
        if s is not None:
            return self if s >= 0 else -self
        return -self if bool(self < 0) else self

    def sgn(self):
        s = CTX.sign(self.n)
        if s is None:
            return None
        for f, e in self.d.items():
            if e % 2:
                sf = CTX.sign(f)
                if sf is None:
                    return None
                s *= sf
        return s

    def maximum(self, other):
        other = S.of(other)
        if self.nan or other.nan:
            return S(P.ZERO, {}, self.nan | other.nan)
        s = (self - other).sgn()
        if s is not None:
            return self if s >= 0 else other
        a, b = self, other
        if repr_key(a) > repr_key(b):
            a, b = b, a
        return CTX.app("max", (a, b))

    def minimum(self, other):
        return -((-self).maximum(-S.of(other)))

    # Comparisons

    def _cmp(self, other, op):
        if type(other).__name__ == "SA":
            return NotImplemented
        try:
            other = S.of(other)
        except Unsupported:
            return NotImplemented
        if self.nan or other.nan:
            for f in self.nan | other.nan:
                if f in ("<nan>",) or CTX.flag(f):
                    return op == "!="
        if op in ("<", "<=", ">", ">=") and not self.is_const() and other.is_const():
            # Tolerances are zero, as rounding errors are.
            c = other.const()
            if 0 < abs(c) <= TOLERANCE:
                op, other = (op[0] + "=" if (op[0] == "<") == (c > 0) else op[0]), S.of(0)
        diff = self - other
        p = diff.n
        if op in ("==", "!="):
            if p.is_zero():
                return op == "=="
            if p.is_const() or CTX.sign(p):
                return op == "!="
            return SymBool(p, op)
        s = diff.sgn()
        if s is not None:
            return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]
        for f, e in diff.d.items():
            if e % 2:
                sf = CTX.sign(f)
                if sf is None:
                    p = p * f
                elif sf < 0:
                    p = -p
        if op in ("<", "<="):
            p = -p
        return SymBool(p, ">" if op in ("<", ">") else ">=")

    def __lt__(self, other):
        return self._cmp(other, "<")

    def __le__(self, other):
        return self._cmp(other, "<=")

    def __gt__(self, other):
        return self._cmp(other, ">")

    def __ge__(self, other):
        return self._cmp(other, ">=")

    def __eq__(self, other):
        return self._cmp(other, "==")

    def __ne__(self, other):
        return self._cmp(other, "!=")

    def __bool__(self):
        return bool(self != 0)

    def isnan(self):
        if not self.nan:
            return False
        for f in sorted(self.nan):
            if f == "<nan>" or CTX.flag(f):
                return True
        return False

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("concretisation of a symbolic value to float")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported("concretisation of a symbolic value to int")

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported("concretisation of a symbolic value to int")

    def __repr__(self):
        return show(self)


def repr_key(s):
    return (sorted(s.n.t.items(), key=str).__repr__(), len(s.d))


def _abs_of(f):
    s = CTX.sign(f)
    if s is not None:
        return S(f) if s >= 0 else -S(f)
    return abs(S(f))


def _sqrt_plain(f):
    r = f.sqrt()
    if r is not None:
        return _abs_of(r)
    return S(CTX.sqrt_atom(f))


def _sqrt_const(c):
    r = P._csqrt(c)
    if r is not None:
        return S(P.const(r))
    # `sqrt(a / b) = sqrt(a * b) / b`, with the square part taken out.
    k, out, sf = c.numerator * c.denominator, 1, 1
    for p, e in _factor_int(k):
        out *= p ** (e // 2)
        if e % 2:
            sf *= p
    return S(CTX.sqrt_atom(P.const(sf))) * Fraction(out, c.denominator)


def _factor_int(k):
    res, p = [], 2
    while k > 1 and p < 1000:
        e = 0
        while k % p == 0:
            k //= p
            e += 1
        if e:
            res.append((p, e))
        p += 1
    if k > 1:
        res.append((k, 1))
    return res


#: Constants up to this size that values are compared with are tolerances.
TOLERANCE = Fraction(1, 10**9)


class SymBool:
    """A symbolic Boolean: `p op 0`."""

    __slots__ = ("p", "op")

    def __init__(self, p, op):
        self.p, self.op = p, op

    def base(self):
        """Sign and polynomial `q` such that `self.p` is that sign times `q` times a
        positive constant."""
        c, m, q = self.p.content()
        return 1 if c > 0 else -1, Poly({k + m: v for k, v in q.t.items()})

    def __bool__(self):
        s, base = self.base()
        op = self.op
        if op in ("==", "!="):
            r = CTX.branch(("==", base), ("cmp", base, "=="), "eq")
            return r if op == "==" else not r
        # Canonical: decide `base > 0`, `base < 0` in terms of strict comparisons.
        if op == ">":
            if s > 0:
                return CTX.branch((">", base), ("cmp", base, ">"), "gt")
            return CTX.branch((">", -base), ("cmp", -base, ">"), "lt")
        if s > 0:
            return not CTX.branch((">", -base), ("cmp", -base, ">"), "lt")
        return not CTX.branch((">", base), ("cmp", base, ">"), "gt")

    def __invert__(self):
        p, op = negate(self.p, self.op)
        return SymBool(p, op)

    def __and__(self, other):
        return bool(self) and bool(other)

    __rand__ = __and__

    def __or__(self, other):
        return bool(self) or bool(other)

    __ror__ = __or__

    def __eq__(self, other):
        return bool(self) == bool(other)

    def __hash__(self):
        return hash((self.p, self.op))

    def __repr__(self):
        return f"({show_poly(self.p)} {self.op} 0)"


def select(c, x, y):
    """`x` if `c` else `y`. A maximum or a minimum does not need a case distinction."""
    if isinstance(c, SymBool) and c.op in (">", ">="):
        x, y = S.of(x), S.of(y)
        if not (x.nan or y.nan):
            d = x > y
            if isinstance(d, SymBool):
                s, base = c.base()
                t, other = d.base()
                if base == other:
                    return x.maximum(y) if s == t else x.minimum(y)
                if base == -other:
                    return x.minimum(y) if s == t else x.maximum(y)
    return x if bool(c) else y


# Printing


def show_poly(p, limit=8):
    if p.is_zero():
        return "0"
    out = []
    for k, (m, c) in enumerate(p.t.items()):
        if k >= limit:
            out.append(f"... ({len(p.t)} terms)")
            break
        vs = "*".join(
            str(CTX.atoms[i]) + (f"^{e}" if e > 1 else "") for i, e in P.mono_vars(m)
        )
        out.append(f"{c}*{vs}" if vs and c != 1 else (vs or str(c)))
    return " + ".join(out)


def show(s, limit=8):
    if s.nan:
        return "nan?" + ",".join(sorted(s.nan))
    n = show_poly(s.n, limit)
    if not s.d:
        return n
    d = " * ".join(f"({show_poly(f, limit)})^{e}" for f, e in s.d.items())
    return f"({n}) / ({d})"


def symbolic_pi():
    c = CTX
    if c.pi is None:
        c.pi = c.var("pi", positive=True)
    return c.pi


for k in (0.25, 0.5, 1, 2, 4):
    _FLOATS[k * math.pi] = lambda k=k: symbolic_pi() * Fraction(k)
for j in (-1, 0, 1):
    for k in (1, -1):
        for q in (1, 0.5):
            _FLOATS[q * (k * math.log(2 * math.pi) + j)] = lambda k=k, j=j, q=q: (
                ((symbolic_pi() * 2).log() * k + j) * Fraction(q)
            )
