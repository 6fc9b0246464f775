"""Symbolic strings and integers of which only equality can be observed.

Every comparison that the code makes, also inside of dictionaries and sets, is a branch
that the solver decides.
"""

import zlib

import numpy as np
from lab.shape import Dimension

from . import arr, sym


def _same(a, b):
    return bool(sym.S.of(a.code) == sym.S.of(b.code))


class SymStr(str):
    """Symbolic string."""

    def __new__(cls, name, code):
        self = str.__new__(cls, f"<{name}>")
        self.code = code
        return self

    def __hash__(self):
        return 12345

    def __eq__(self, other):
        if self is other:
            return True
        if isinstance(other, SymStr):
            return _same(self, other)
        if isinstance(other, str):
            return False  # Arbitrary strings, other than those in the code.
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r


class SymInt(int):
    """Symbolic integer."""

    def __new__(cls, name, code):
        self = int.__new__(cls, 777)
        self.name, self.code = name, code
        return self

    def __hash__(self):
        return 12345

    def __eq__(self, other):
        if self is other:
            return True
        if isinstance(other, SymInt):
            return _same(self, other)
        raise sym.Unsupported("comparison of a symbolic integer to a number")

    def __ne__(self, other):
        return not self.__eq__(other)

    def __repr__(self):
        return f"<{self.name}>"

    def _no(self, *args):
        raise sym.Unsupported("arithmetic with a symbolic integer")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __neg__ = __floordiv__ = __mod__ = __index__ = __bool__ = _no


def string(env, name):
    """Arbitrary, not empty, string."""
    v = env.scalar(name)
    return SymStr(name, arr.raw(v)[()]) if env.symbolic else f"s{v!r}"


def integer(env, name):
    """Arbitrary integer."""
    v = env.scalar(name)
    return SymInt(name, arr.raw(v)[()]) if env.symbolic else hash(repr(v)) % (1 << 50)


class SymLen(int):
    """Symbolic number of elements."""

    def __new__(cls, code):
        self = int.__new__(cls, 7)
        self.code = sym.S.of(code)
        return self

    @staticmethod
    def _code(o):
        if isinstance(o, Dimension):
            o = o.dim
        if isinstance(o, SymLen):
            return o.code
        if isinstance(o, (int, np.integer)):
            return sym.S.of(o)
        raise sym.Unsupported("arithmetic with a symbolic length")

    def __add__(self, o):
        return SymLen(self.code + self._code(o))

    def __mul__(self, o):
        return SymLen(self.code * self._code(o))

    __radd__, __rmul__ = __add__, __mul__

    def __sub__(self, o):
        return SymLen(self.code - self._code(o))

    def __rsub__(self, o):
        return SymLen(self._code(o) - self.code)

    def __hash__(self):
        return 12345

    def __eq__(self, o):
        return True if self is o else bool(self.code == self._code(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return bool(self.code < self._code(o))

    def __le__(self, o):
        return bool(self.code <= self._code(o))

    def __gt__(self, o):
        return bool(self.code > self._code(o))

    def __ge__(self, o):
        return bool(self.code >= self._code(o))

    def __bool__(self):
        return bool(self.code != sym.S.of(0))

    def __repr__(self):
        return f"<length {self.code}>"

    def _no(self, *args):
        raise sym.Unsupported("use of a symbolic length as a number")

    __floordiv__ = __truediv__ = __mod__ = __index__ = __int__ = __neg__ = __pow__ = _no


class _Long(np.ndarray):
    """Array of which only the shape may be used, which has a symbolic length."""

    @property
    def shape(self):
        return self._shape

    def __len__(self):
        return self._shape[0]

    def _no(self, *args, **kw):
        raise sym.Unsupported("use of the elements of an array of symbolic length")

    __getitem__ = __array_ufunc__ = _no

    def __array_function__(self, func, types, args, kwargs):
        if func is np.expand_dims:
            axis = args[1] if len(args) > 1 else kwargs["axis"]
            shape = list(self._shape)
            shape.insert(axis + len(shape) + 1 if axis < 0 else axis, 1)
            return _make(tuple(shape))
        if func is np.shape:
            return self._shape
        if func is np.ndim:
            return len(self._shape)
        self._no()


def _make(shape):
    a = np.zeros((1,) * len(shape)).view(_Long)
    a._shape = shape
    return a


def length(env, name):
    """Arbitrary positive number of elements."""
    default = 2 + zlib.crc32(name.encode()) % 5  # In concrete mode, it must be an integer.
    v = env.positive(name, default, default)
    return SymLen(arr.raw(v)[()]) if env.symbolic else max(1, min(50, round(v)))


def long(env, n, *dims):
    """Inputs of a length from :func:`length`. Their elements must not be used."""
    if not env.symbolic:
        return np.linspace(-1, 1, n * int(np.prod(dims, dtype=int))).reshape(n, *dims)
    return _make((n,) + dims)


def value(env, n):
    """Length as a scalar."""
    if isinstance(n, Dimension):
        n = n.dim
    if not env.symbolic:
        return float(n)
    return arr.wrap(n.code if isinstance(n, SymLen) else sym.S.of(int(n)))
