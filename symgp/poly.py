"""Exact sparse multivariate polynomials over the rationals.

A monomial is one Python integer: variable number `i` owns the bit field
`[W * i, W * (i + 1))`, of which the top bit is a guard bit (so divisibility of two
monomials is one subtraction). Multiplying monomials is integer addition, and comparing
the integers is a lexicographic monomial order.
"""

import heapq
from fractions import Fraction
from math import gcd, isqrt

W = 12  # Bits per variable; exponents must stay below 2 ** (W - 1).
FIELD = (1 << W) - 1

_state = {"n": 0, "guard": 0}


def new_var():
    """Allocate a polynomial variable and return its number."""
    i = _state["n"]
    _state["n"] = i + 1
    _state["guard"] |= 1 << (W * i + W - 1)
    return i


def reset():
    _state["n"] = 0
    _state["guard"] = 0


def mono_vars(m):
    """Iterate over `(variable, exponent)` of a monomial."""
    i = 0
    while m:
        e = m & FIELD
        if e:
            yield i, e
            m >>= W
            i += 1
        else:
            # Skip zero fields quickly.
            low = (m & -m).bit_length() - 1
            k = low // W
            m >>= W * k
            i += k


def norm(c):
    """Normalise a coefficient to an `int` when possible."""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    """Immutable polynomial. `t` maps monomials to nonzero coefficients."""

    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Poly)
            and len(self.t) == len(other.t)
            and hash(self) == hash(other)
            and self.t == other.t
        )

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and 0 in self.t)

    def const(self):
        return self.t.get(0, 0)

    def is_one(self):
        return len(self.t) == 1 and self.t.get(0) == 1

    def lead(self):
        m = max(self.t)
        return m, self.t[m]

    def vars(self):
        allm = 0
        for m in self.t:
            allm |= m
        return [i for i, _ in mono_vars(allm)]

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, other):
        a, b = self.t, other.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = norm(v)
                else:
                    del r[m]
        return Poly(r)

    def __sub__(self, other):
        return self + (-other)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: norm(v * c) for m, v in self.t.items()})

    def shift(self, m0, c=1):
        """Multiply by the term `c * m0`."""
        return Poly({m + m0: norm(v * c) for m, v in self.t.items()})

    def __mul__(self, other):
        a, b = self.t, other.t
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return ZERO
        if len(a) == 1:
            ((m0, c0),) = a.items()
            if m0 == 0 and c0 == 1:
                return other if b is other.t else self
            return Poly({m + m0: norm(v * c0) for m, v in b.items()})
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                v = get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        return Poly({m: norm(c) for m, c in r.items() if c})

    def pow(self, n):
        r, b = ONE, self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def content(self):
        """Return `(c, m, p)` with `self = c * m * p`, `p` primitive with a positive
        leading integer coefficient and no monomial factor."""
        num, den = 0, 1
        allmin = None
        guard = _state["guard"]
        for m, c in self.t.items():
            if type(c) is Fraction:
                num = gcd(num, c.numerator)
                den = den * c.denominator // gcd(den, c.denominator)
            else:
                num = gcd(num, c)
            if allmin is None:
                allmin = m
            elif allmin:
                allmin = mono_gcd(allmin, m)
        c = Fraction(num, den)
        if self.t[max(self.t)] < 0:
            c = -c
        inv = 1 / c
        p = {m - allmin: norm(v * inv) for m, v in self.t.items()}
        return norm(c), allmin, Poly(p)

    def divexact(self, other):
        """Return `self / other` if the division is exact, and otherwise `None`."""
        if not self.t:
            return ZERO
        b = other.t
        guard = _state["guard"]
        lb = max(b)
        cb = b[lb]
        if len(b) == 1:
            r = {}
            for m, c in self.t.items():
                if ((m | guard) - lb) & guard != guard:
                    return None
                r[m - lb] = _div(c, cb)
            return Poly(r)
        la, ta, tb = max(self.t), min(self.t), min(b)
        if ((la | guard) - lb) & guard != guard:
            return None
        if ((ta | guard) - tb) & guard != guard:
            return None
        rem = dict(self.t)
        heap = [-m for m in rem]
        heapq.heapify(heap)
        rest = [(m, c) for m, c in b.items() if m != lb]
        q = {}
        while heap:
            m = -heapq.heappop(heap)
            c = rem.pop(m, 0)
            if not c:
                continue
            if ((m | guard) - lb) & guard != guard:
                return None
            qm = m - lb
            if qm < 0:
                return None
            qc = _div(c, cb)
            q[qm] = qc
            for m2, c2 in rest:
                mm = qm + m2
                v = rem.get(mm)
                if v is None:
                    rem[mm] = norm(-qc * c2)
                    heapq.heappush(heap, -mm)
                else:
                    # Entries which become zero stay in the heap and are skipped.
                    rem[mm] = norm(v - qc * c2)
        return Poly(q)

    def sqrt(self):
        """Return `q` with `q * q == self` and positive leading coefficient if such a
        polynomial exists, and otherwise `None`."""
        if not self.t:
            return ZERO
        m, c = self.lead()
        r0 = _csqrt(c)
        if r0 is None or any(e % 2 for _, e in mono_vars(m)):
            return None
        mt = min(self.t)
        if any(e % 2 for _, e in mono_vars(mt)) or _csqrt(self.t[mt]) is None:
            return None
        lm = m >> 1
        guard = _state["guard"]
        q = Poly({lm: r0})
        rem = self - q * q
        while rem.t:
            m, c = rem.lead()
            if ((m | guard) - lm) & guard != guard or m - lm >= min(q.t):
                return None
            t = Poly({m - lm: _div(c, 2 * r0)})
            rem = rem - (q.scale(2) + t) * t
            q = q + t
        return q

    def diff(self, i):
        """Formal partial derivative with respect to variable `i`."""
        r = {}
        one = 1 << (W * i)
        for m, c in self.t.items():
            e = (m >> (W * i)) & FIELD
            if e:
                r[m - one] = norm(c * e)
        return Poly(r)

    def eval(self, val):
        """Evaluate with `val[i]` the value of variable `i`."""
        res = 0
        for m, c in self.t.items():
            v = c if not isinstance(c, Fraction) else c
            for i, e in mono_vars(m):
                x = val[i]
                if isinstance(x, float) and isinstance(v, Fraction):
                    v = float(v)
                v = v * x**e
            res = res + (float(v) if isinstance(res, float) and isinstance(v, Fraction) else v)
            if isinstance(v, float) and isinstance(res, Fraction):
                res = float(res)
        return res


def mono_gcd(a, b):
    r, i = 0, 0
    while a and b:
        ea, eb = a & FIELD, b & FIELD
        if ea and eb:
            r |= (ea if ea < eb else eb) << (W * i)
        a >>= W
        b >>= W
        i += 1
    return r


def _div(a, b):
    if type(a) is int and type(b) is int:
        q, r = divmod(a, b)
        return q if r == 0 else Fraction(a, b)
    return norm(Fraction(a) / b)


def _csqrt(c):
    """Exact square root of a rational constant, or `None`."""
    if c < 0:
        return None
    c = Fraction(c)
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return norm(Fraction(a, b))
    return None


ZERO = Poly({})
ONE = Poly({0: 1})


def const(c):
    return Poly({0: norm(c)}) if c else ZERO


def var(i):
    return Poly({1 << (W * i): 1})
