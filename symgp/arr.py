"""Symbolic NumPy arrays.

`SA` is a subclass of `numpy.ndarray` with `object` elements of type `S` that reports
itself as `float64`. All ufuncs and NumPy functions on it are intercepted. Functions which
NumPy and SciPy implement in LAPACK are implemented here exactly, in the field of symbolic
scalars.
"""

import numpy as np
import scipy.linalg as sla

from . import poly as P
from . import sym
from .sym import S, SymBool, Unsupported

FLOAT = np.dtype(np.float64)
_asarray = np.asarray
_base = np.ndarray
_obj_dtype = np.dtype(object)


def raw(x):
    """Get the underlying object array of `x`."""
    if isinstance(x, SA):
        return x.view(_base)
    return x


def to_s(x):
    return x if type(x) is S else S.of(x)


_vec_of = np.frompyfunc(to_s, 1, 1)


def wrap(x):
    """Wrap a NumPy result."""
    if isinstance(x, (SA, LB)):
        return x
    if type(x) is S:
        out = np.empty((), dtype=object)
        out[()] = x
        return out.view(SA)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, _base):
        if _base.dtype.__get__(x) == _obj_dtype:
            flat = x.ravel()
            kinds = {type(e) for e in flat}
            if kinds and all(k is SymBool or k is bool or k is np.bool_ for k in kinds):
                out = np.empty(x.shape, dtype=bool)
                o = out.reshape(-1)
                for i, e in enumerate(flat):
                    o[i] = bool(e)
                return out
            out = np.empty(x.shape, dtype=object)
            o = out.reshape(-1)
            for i, e in enumerate(flat):
                o[i] = to_s(e)
            return out.view(SA)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def sa(x):
    """Convert anything to a symbolic array."""
    if isinstance(x, SA):
        return x
    a = np.empty(np.shape(x), dtype=object)
    b = _asarray(x, dtype=object)
    if a.shape == ():
        a[()] = to_s(b[()] if isinstance(b, np.ndarray) else b)
    else:
        o, f = a.reshape(-1), b.reshape(-1)
        for i in range(f.shape[0]):
            o[i] = to_s(f[i])
    return a.view(SA)


def is_sym(x):
    return isinstance(x, (SA, S))


def _deep_raw(x):
    if isinstance(x, LB):
        return x.decide()
    if isinstance(x, SA):
        return x.view(_base)
    if type(x) is tuple:
        return tuple(_deep_raw(e) for e in x)
    if type(x) is list:
        return [_deep_raw(e) for e in x]
    if type(x) is dict:
        return {k: _deep_raw(v) for k, v in x.items()}
    return x


_UFUNC = {}


def _method(name):
    return np.frompyfunc(lambda x: getattr(to_s(x), name)(), 1, 1)


_UFUNC[np.sqrt] = _method("sqrt")
_UFUNC[np.log] = _method("log")
_UFUNC[np.log1p] = _method("log1p")
_UFUNC[np.exp] = _method("exp")
_UFUNC[np.sin] = _method("sin")
_UFUNC[np.cos] = _method("cos")
_UFUNC[np.tanh] = _method("tanh")
_UFUNC[np.absolute] = np.frompyfunc(lambda x: abs(to_s(x)), 1, 1)
_UFUNC[np.fabs] = _UFUNC[np.absolute]
_UFUNC[np.conjugate] = np.frompyfunc(to_s, 1, 1)
_UFUNC[np.positive] = np.frompyfunc(to_s, 1, 1)
_UFUNC[np.square] = np.frompyfunc(lambda x: to_s(x) * x, 1, 1)
_UFUNC[np.reciprocal] = np.frompyfunc(lambda x: to_s(x).inv(), 1, 1)
_UFUNC[np.isnan] = np.frompyfunc(lambda x: to_s(x).isnan(), 1, 1)
_UFUNC[np.isfinite] = np.frompyfunc(lambda x: not to_s(x).isnan(), 1, 1)
_UFUNC[np.isinf] = np.frompyfunc(lambda x: False, 1, 1)
_UFUNC[np.maximum] = np.frompyfunc(lambda x, y: to_s(x).maximum(to_s(y)), 2, 1)
_UFUNC[np.fmax] = _UFUNC[np.maximum]
_UFUNC[np.minimum] = np.frompyfunc(lambda x, y: to_s(x).minimum(to_s(y)), 2, 1)
_UFUNC[np.fmin] = _UFUNC[np.minimum]
_UFUNC[np.sign] = np.frompyfunc(
    lambda x: S.of(1 if to_s(x) > 0 else (-1 if to_s(x) < 0 else 0)), 1, 1
)
_BOOL_RESULT = {np.isnan, np.isfinite, np.isinf}
for _n, _op in {
    "add": lambda a, b: to_s(a) + b,
    "subtract": lambda a, b: to_s(a) - b,
    "multiply": lambda a, b: to_s(a) * b,
    "true_divide": lambda a, b: to_s(a) / b,
    "power": lambda a, b: to_s(a) ** b,
    "float_power": lambda a, b: to_s(a) ** b,
}.items():
    _UFUNC[getattr(np, _n)] = np.frompyfunc(_op, 2, 1)
_UFUNC[np.negative] = np.frompyfunc(lambda a: -to_s(a), 1, 1)
_CMP = {
    np.less: "__lt__",
    np.less_equal: "__le__",
    np.greater: "__gt__",
    np.greater_equal: "__ge__",
    np.equal: "__eq__",
    np.not_equal: "__ne__",
}
_LAZY = {}
for _u in (np.less, np.less_equal, np.greater, np.greater_equal):
    _LAZY[_u] = np.frompyfunc(lambda a, b, m=_CMP[_u]: getattr(to_s(a), m)(to_s(b)), 2, 1)
for _u, _m in _CMP.items():
    _UFUNC[_u] = np.frompyfunc(lambda a, b, m=_m: bool(getattr(to_s(a), m)(to_s(b))), 2, 1)
    _BOOL_RESULT.add(_u)
_REDUCE_INIT = {np.add: 0, np.multiply: 1}


def matmul(a, b):
    a, b = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a[None, :]
    if vb:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(
            f"matmul: mismatch in core dimension: {a.shape[-1]} versus {b.shape[-2]}"
        )
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, batch + a.shape[-2:])
    b = np.broadcast_to(b, batch + b.shape[-2:])
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    out = np.empty(batch + (n, m), dtype=object)
    for ind in np.ndindex(*batch):
        ai, bi, oi = a[ind], b[ind], out[ind]
        for i in range(n):
            for j in range(m):
                acc = S.of(0)
                for l in range(k):
                    acc = acc + to_s(ai[i, l]) * to_s(bi[l, j])
                oi[i, j] = acc
    if va:
        out = out[..., 0, :]
    if vb:
        out = out[..., 0]
    return wrap(out)


class LB(np.ndarray):
    """Comparisons which are not yet decided. Any use other than selecting between two
    arrays decides them."""

    @property
    def dtype(self):
        return np.dtype(bool)

    def __array_finalize__(self, obj):
        pass

    def decide(self):
        return _as_bool(self.view(_base))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        inputs = [_deep_raw(x) if isinstance(x, LB) else x for x in inputs]
        return getattr(ufunc, method)(*inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.where:
            return wrap(where(*args, **kwargs))
        return func(*_decided(args), **_decided(kwargs))

    def astype(self, dtype, copy=True, **kw):
        return self.decide().astype(dtype)

    def any(self, *args, **kw):
        return self.decide().any(*args, **kw)

    def all(self, *args, **kw):
        return self.decide().all(*args, **kw)

    def sum(self, *args, **kw):
        return self.decide().sum(*args, **kw)

    def nonzero(self):
        return self.decide().nonzero()

    def tolist(self):
        return self.decide().tolist()

    def item(self, *args):
        return bool(self.view(_base).item(*args))

    def __bool__(self):
        return self.item()

    def __iter__(self):
        return iter(self.decide())

    def __getitem__(self, key):
        return self.decide()[key]


def _decided(x):
    if isinstance(x, LB):
        return x.decide()
    if type(x) in (list, tuple):
        return type(x)(_decided(y) for y in x)
    if type(x) is dict:
        return {k: _decided(v) for k, v in x.items()}
    return x


class SA(np.ndarray):
    """Symbolic array."""

    @property
    def dtype(self):
        return FLOAT

    @property
    def T(self):
        return np.transpose(self)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop("dtype", None)
        kw.pop("casting", None)
        if kw.get("where", True) is True:
            kw.pop("where", None)
        ins = [_deep_raw(x) for x in inputs]
        if any(isinstance(x, _base) and x.dtype.kind in "US" for x in ins):
            return NotImplemented
        if ufunc is np.matmul and method == "__call__":
            res = matmul(*inputs)
        elif ufunc in (np.logical_and, np.logical_or, np.logical_not):
            ins = [_as_bool(x) for x in ins]
            return getattr(ufunc, method)(*ins, **kw)
        elif method == "__call__":
            f = _UFUNC.get(ufunc)
            if f is None:
                raise Unsupported(f"ufunc {ufunc.__name__}")
            for x in inputs:
                if not isinstance(x, (_base, S, int, float, np.generic, list, tuple)):
                    if type(x).__name__ == "Dimension":
                        continue
                    return NotImplemented
            ins = [int(x) if type(x).__name__ == "Dimension" else x for x in ins]
            if ufunc in _LAZY:
                res = _LAZY[ufunc](*ins)
                if isinstance(res, _base) and any(type(r) is SymBool for r in res.flat):
                    return res.view(LB)
                return _as_bool(res) if isinstance(res, _base) else np.bool_(bool(res))
            res = f(*ins)
            if ufunc in _BOOL_RESULT:
                if isinstance(res, _base):
                    return res.astype(bool)
                return np.bool_(res)
        elif method == "reduce":
            if ufunc in _REDUCE_INIT:
                f = _UFUNC[ufunc]
                x = ins[0]
                axis = kw.pop("axis", 0)
                keepdims = kw.pop("keepdims", False)
                kw.pop("initial", None)
                res = _reduce(f, x, axis, keepdims, S.of(_REDUCE_INIT[ufunc]))
            elif ufunc in (np.maximum, np.minimum):
                axis = kw.pop("axis", 0)
                keepdims = kw.pop("keepdims", False)
                res = _reduce(_UFUNC[ufunc], ins[0], axis, keepdims, None)
            else:
                raise Unsupported(f"reduction {ufunc.__name__}")
        elif method == "outer":
            a, b = ins
            a, b = _asarray(a), _asarray(b)
            res = _UFUNC[ufunc](a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == "accumulate" and ufunc is np.add:
            res = ins[0].copy()
            ax = kw.get("axis", 0)
            mv = np.moveaxis(res, ax, 0)
            for i in range(1, mv.shape[0]):
                mv[i] = _UFUNC[np.add](mv[i - 1], mv[i])
        else:
            raise Unsupported(f"ufunc method {ufunc.__name__}.{method}")
        res = wrap(res)
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            if not isinstance(tgt, SA):
                raise Unsupported("in-place write of symbolic values to a float array")
            tgt.view(_base)[...] = res.view(_base)
            return tgt
        return res

    def __array_function__(self, func, types, args, kwargs):
        f = _FUNCS.get(func)
        if f is not None:
            return wrap(f(*args, **kwargs))
        if func.__module__ and func.__module__.startswith("numpy.linalg"):
            raise Unsupported(f"numpy.linalg function {func.__name__}")
        if func in _BLOCKED:
            raise Unsupported(f"numpy function {func.__name__}")
        kwargs = dict(kwargs)
        kwargs.pop("dtype", None) if func not in (np.astype,) else None
        res = func(*_deep_raw(args), **_deep_raw(kwargs))
        return wrap(res)

    def astype(self, dtype, copy=True, **kw):
        dtype = np.dtype(dtype)
        if dtype == FLOAT or dtype == _obj_dtype:
            return self.copy() if copy else self
        if dtype.kind == "f":
            f = np.frompyfunc(
                lambda x: x if x.is_const() else sym.CTX.app(f"round_{dtype.name}", (x,)), 1, 1
            )
            return wrap(f(self.view(_base)))
        if dtype.kind == "c":
            return self
        raise Unsupported(f"cast to {dtype}")

    def __getitem__(self, key):
        key = _deep_raw(key)
        return wrap(self.view(_base)[key])

    def __setitem__(self, key, value):
        key = _deep_raw(key)
        self.view(_base)[key] = sa(value).view(_base)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def copy(self, order="C"):
        return self.view(_base).copy().view(SA)

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *args):
        return self.view(_base).item(*args)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __bool__(self):
        return bool(self.item())

    def __repr__(self):
        return "SA(" + repr(self.view(_base).tolist()) + ")"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __reduce__(self):
        raise Unsupported("pickling")

    # Methods that NumPy implements without dispatching.

    def sum(self, axis=None, keepdims=False, **kw):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, keepdims=False, **kw):
        return np.prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, keepdims=False, **kw):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, keepdims=False, **kw):
        return np.max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, keepdims=False, **kw):
        return np.min(self, axis=axis, keepdims=keepdims)

    def dot(self, other):
        return np.dot(self, other)

    def trace(self, *a, **kw):
        return np.trace(self, *a, **kw)

    def diagonal(self, *a, **kw):
        return np.diagonal(self, *a, **kw)

    def tolist(self):
        return self.view(_base).tolist()

    def all(self, *a, **kw):
        return _as_bool(self.view(_base)).all(*a, **kw)

    def any(self, *a, **kw):
        return _as_bool(self.view(_base)).any(*a, **kw)


def _as_bool(x):
    if isinstance(x, _base) and x.dtype == _obj_dtype:
        out = np.empty(x.shape, dtype=bool)
        o, f = out.reshape(-1), x.reshape(-1)
        for i in range(f.shape[0]):
            o[i] = bool(f[i])
        return out
    return x


def _reduce(f, x, axis, keepdims, init):
    x = _asarray(x)
    nd = x.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, tuple):
        axes = tuple(a % nd for a in axis)
    else:
        if nd == 0:
            axes = ()
        else:
            if not -nd <= axis < nd:
                raise np.exceptions.AxisError(axis, nd)
            axes = (axis % nd,)
    rest = [i for i in range(nd) if i not in axes]
    y = np.transpose(x, rest + list(axes))
    k = int(np.prod([x.shape[i] for i in range(x.ndim) if i not in rest], dtype=int))
    y = y.reshape(tuple(x.shape[i] for i in rest) + (k,))
    out = np.empty(y.shape[:-1], dtype=object)
    for ind in np.ndindex(*out.shape):
        row = y[ind]
        if init is None and row.shape[0] == 0:
            raise ValueError("zero-size array to reduction operation")
        acc = init
        for e in row:
            acc = to_s(e) if acc is None else f(acc, e)
        out[ind] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else x.shape[i] for i in range(nd)])
    return out


# Linear algebra


def _batched(core, *arrs, ranks):
    arrs = [_asarray(_deep_raw(a)) for a in arrs]
    batch = np.broadcast_shapes(*[a.shape[: a.ndim - r] for a, r in zip(arrs, ranks)])
    arrs = [np.broadcast_to(a, batch + a.shape[a.ndim - r :]) for a, r in zip(arrs, ranks)]
    res = {}
    for ind in np.ndindex(*batch):
        res[ind] = core(*[a[ind] for a in arrs])
    first = next(iter(res.values())) if res else None
    if first is None:
        raise Unsupported("empty batch")
    if isinstance(first, tuple):
        outs = []
        for k in range(len(first)):
            o = np.empty(batch + np.shape(first[k]), dtype=object)
            for ind, r in res.items():
                o[ind] = r[k]
            outs.append(wrap(o))
        return tuple(outs)
    o = np.empty(batch + np.shape(first), dtype=object)
    for ind, r in res.items():
        o[ind] = r
    return wrap(o)


def _square(a):
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")


def _cholesky1(a):
    n = a.shape[0]
    L = np.empty((n, n), dtype=object)
    zero = S.of(0)
    for i in range(n):
        for j in range(n):
            L[i, j] = zero
    # `a = U D U^T` first, so that roots are only taken of pivots.
    for j in range(n):
        p = to_s(a[j, j])
        for k in range(j):
            p = p - L[j, k] * L[j, k]
        if not p.nan:
            if p.n.is_zero():
                raise np.linalg.LinAlgError("Matrix is not positive definite")
            s = p.sgn()
            if s is None:
                _assume_pos(p)
            elif s <= 0:
                raise np.linalg.LinAlgError("Matrix is not positive definite")
        r = p.sqrt()
        L[j, j] = r
        rinv = r.inv() if j + 1 < n else None
        for i in range(j + 1, n):
            v = to_s(a[i, j])
            for k in range(j):
                v = v - L[i, k] * L[j, k]
            L[i, j] = v * rinv
    return L


def _assume_pos(p):
    """Assume that `p > 0`, spreading the fact over the denominator."""
    c = sym.CTX
    poly = p.n
    for f, e in p.d.items():
        if e % 2:
            s = c.sign(f)
            if s is None:
                poly = poly * f
            elif s < 0:
                poly = -poly
    c.assume_sign(poly, 1, "pivot")


def cholesky(a, *, upper=False):
    a = _asarray(_deep_raw(a))
    _square(a)
    L = _batched(_cholesky1, a, ranks=(2,))
    return np.swapaxes(L, -1, -2) if upper else L


def _det1(a):
    """Determinant by fraction-free elimination with exact arithmetic (Laplace for small
    sizes)."""
    n = a.shape[0]
    if n == 0:
        return S.of(1)
    if n == 1:
        return to_s(a[0, 0])
    if n == 2:
        return to_s(a[0, 0]) * a[1, 1] - to_s(a[0, 1]) * a[1, 0]
    tot = S.of(0)
    for j in range(n):
        e = to_s(a[0, j])
        if e.n.is_zero() and not e.nan:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = e * _det1(m)
        tot = tot + (t if j % 2 == 0 else -t)
    return tot


def det(a):
    a = _asarray(_deep_raw(a))
    _square(a)
    return _batched(lambda x: _box(_det1(x)), a, ranks=(2,))


def _box(s):
    o = np.empty((), dtype=object)
    o[()] = s
    return o


def slogdet(a):
    a = _asarray(_deep_raw(a))
    _square(a)

    def core(x):
        d = _det1(x)
        if d > 0:
            return _box(S.of(1)), _box(d.log())
        return _box(S.of(-1)), _box((-d).log())

    return _batched(core, a, ranks=(2,))


def _solve1(a, b):
    """Gauss-Jordan elimination. Pivots are assumed nonzero (singular systems raise in the
    real code)."""
    n = a.shape[0]
    a, b = a.copy(), b.copy()
    for i in range(n):
        for j in range(n):
            a[i, j] = to_s(a[i, j])
    for c in range(n):
        p = None
        for r in range(c, n):
            if not a[r, c].n.is_zero():
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if p != c:
            a[[c, p]] = a[[p, c]]
            b[[c, p]] = b[[p, c]]
        inv = a[c, c].inv()
        for r in range(n):
            if r != c and not a[r, c].n.is_zero():
                f = a[r, c] * inv
                for j in range(c, n):
                    a[r, j] = a[r, j] - f * a[c, j]
                for j in range(b.shape[1]):
                    b[r, j] = to_s(b[r, j]) - f * b[c, j]
    for r in range(n):
        inv = a[r, r].inv()
        for j in range(b.shape[1]):
            b[r, j] = to_s(b[r, j]) * inv
    return b


def solve(a, b):
    a, b = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    _square(a)
    vec = b.ndim == 1
    if vec:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("solve: mismatch in core dimension")
    res = _batched(lambda x, y: _solve1(x.astype(object), y.astype(object)), a, b, ranks=(2, 2))
    return res[..., 0] if vec else res


def inv(a):
    a = _asarray(_deep_raw(a))
    _square(a)
    n = a.shape[-1]
    return solve(a, np.broadcast_to(np.eye(n), a.shape))


def _tri1(a, b, lower, unit):
    n = a.shape[0]
    x = np.empty(b.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        d = None if unit else to_s(a[i, i]).inv()
        for j in range(b.shape[1]):
            v = to_s(b[i, j])
            for k in range(i) if lower else range(i + 1, n):
                v = v - to_s(a[i, k]) * x[k, j]
            x[i, j] = v if unit else v * d
    return x


_real_solve_triangular = sla.solve_triangular


def solve_triangular(
    a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True
):
    if not (isinstance(a, SA) or isinstance(b, SA)):
        return _real_solve_triangular(
            a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal, check_finite=check_finite
        )
    a, b = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    _square(a)
    vec = b.ndim == 1
    if vec:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(f"shapes of a {a.shape} and b {b.shape} are incompatible")
    if trans in (1, 2, "T", "C"):
        a, lower = np.swapaxes(a, -1, -2), not lower
    res = _batched(lambda x, y: _tri1(x, y, lower, unit_diagonal), a, b, ranks=(2, 2))
    return res[..., 0] if vec else res


_real_cho_solve = sla.cho_solve
_real_cho_factor = sla.cho_factor
_real_sla_cholesky = sla.cholesky
_real_block_diag = sla.block_diag


def sla_cholesky(a, lower=False, **kw):
    if not isinstance(a, SA):
        return _real_sla_cholesky(a, lower=lower, **kw)
    L = cholesky(a)
    return L if lower else np.swapaxes(L, -1, -2)


def cho_factor(a, lower=False, **kw):
    if not isinstance(a, SA):
        return _real_cho_factor(a, lower=lower, **kw)
    return sla_cholesky(a, lower=lower), lower


def cho_solve(c_and_lower, b, **kw):
    c, lower = c_and_lower
    if not (isinstance(c, SA) or isinstance(b, SA)):
        return _real_cho_solve(c_and_lower, b, **kw)
    L = c if lower else np.swapaxes(c, -1, -2)
    y = solve_triangular(sa(L), b, lower=True)
    return solve_triangular(np.swapaxes(sa(L), -1, -2), y, lower=False)


def _svd1(a, compute_uv=True):
    """Exact SVD of diagonal and of symmetric positive-definite 2x2 matrices."""
    n, m = a.shape
    if n != m:
        raise Unsupported("SVD of a non-square matrix")
    for known, u, s in getattr(sym.CTX, "spectra", ()):
        if known.shape == a.shape and all((to_s(a[i, j]) - known[i, j]).n.is_zero() for i in range(n) for j in range(n)):
            return u.copy(), s.copy(), u.T.copy()
    diag = all(
        to_s(a[i, j]).n.is_zero() for i in range(n) for j in range(n) if i != j
    )
    if diag:
        u = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                u[i, j] = S.of(1 if i == j else 0)
        s = np.empty((n,), dtype=object)
        for i in range(n):
            s[i] = to_s(a[i, i])
            if s[i].sgn() is None:
                _assume_pos(s[i])
            elif s[i].sgn() < 0:
                raise Unsupported("SVD of an indefinite matrix")
        return u, s, u.T.copy()
    if n == 2 and (to_s(a[0, 1]) - a[1, 0]).n.is_zero():
        p, q, r = to_s(a[0, 0]), to_s(a[0, 1]), to_s(a[1, 1])
        disc = ((p - r) ** 2 + q * q * 4).sqrt()
        l1, l2 = (p + r + disc) / 2, (p + r - disc) / 2
        # Eigenvectors: rows of the rotation that diagonalises.
        v = (q, l1 - p)
        nrm = (v[0] * v[0] + v[1] * v[1]).sqrt().inv()
        c, s_ = v[0] * nrm, v[1] * nrm
        u = np.empty((2, 2), dtype=object)
        u[0, 0], u[1, 0], u[0, 1], u[1, 1] = c, s_, -s_, c
        s = np.empty((2,), dtype=object)
        s[0], s[1] = l1, l2
        for x in s:
            if x.sgn() is None:
                _assume_pos(x)
        return u, s, u.T.copy()
    raise Unsupported("SVD of a general symbolic matrix")


def register_spectrum(a, u, s):
    """State the singular-value decomposition of a positive-definite matrix."""
    if not hasattr(sym.CTX, "spectra"):
        sym.CTX.spectra = []
    sym.CTX.spectra.append(tuple(np.array(_deep_raw(x), dtype=object) for x in (a, u, s)))


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    u, s, vh = _batched(_svd1, a, ranks=(2,))
    return (u, s, vh) if compute_uv else s


def eigh(a, UPLO="L"):
    u, s, vh = _batched(_svd1, a, ranks=(2,))
    return s, u


def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    d = np.diagonal(_deep_raw(a), offset=offset, axis1=axis1, axis2=axis2)
    return _reduce(_UFUNC[np.add], d, -1, False, S.of(0))


def np_sum(a, axis=None, keepdims=False, **kw):
    return _reduce(_UFUNC[np.add], _deep_raw(a), axis, keepdims, S.of(0))


def np_prod(a, axis=None, keepdims=False, **kw):
    return _reduce(_UFUNC[np.multiply], _deep_raw(a), axis, keepdims, S.of(1))


def np_mean(a, axis=None, keepdims=False, **kw):
    r = _asarray(_deep_raw(a))
    t = _reduce(_UFUNC[np.add], r, axis, keepdims, S.of(0))
    k = r.size // max(_asarray(t).size, 1)
    return wrap(t) / k


def np_max(a, axis=None, keepdims=False, **kw):
    return _reduce(_UFUNC[np.maximum], _deep_raw(a), axis, keepdims, None)


def np_min(a, axis=None, keepdims=False, **kw):
    return _reduce(_UFUNC[np.minimum], _deep_raw(a), axis, keepdims, None)


def where(cond, *ab):
    if not ab:
        raise Unsupported("np.where with one argument")
    c = cond.view(_base) if isinstance(cond, LB) else _asarray(_deep_raw(cond))
    a, b = (_asarray(_deep_raw(x), dtype=object) for x in ab)
    if not (isinstance(c, _base) and c.dtype == _obj_dtype):
        return np.where(c, a, b)
    c, a, b = np.broadcast_arrays(c, a, b)
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = sym.select(c[i], a[i], b[i])
    return out


def np_all(a, axis=None, **kw):
    return np.all(_as_bool(_asarray(_deep_raw(a))), axis=axis, **kw)


def np_any(a, axis=None, **kw):
    return np.any(_as_bool(_asarray(_deep_raw(a))), axis=axis, **kw)


def zeros_like(a, dtype=None, **kw):
    return np.zeros(np.shape(_deep_raw(a)), dtype=dtype or float)


def ones_like(a, dtype=None, **kw):
    return np.ones(np.shape(_deep_raw(a)), dtype=dtype or float)


def full_like(a, v, dtype=None, **kw):
    o = np.empty(np.shape(_deep_raw(a)), dtype=object)
    o[...] = _deep_raw(v)
    return o


def einsum(*args, **kw):
    eq, ops = args[0], [_asarray(_deep_raw(x)) for x in args[1:]]
    if "." in eq:
        raise Unsupported("einsum with ellipsis")
    if "->" not in eq:
        lhs = eq
        letters = lhs.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    else:
        lhs, out = eq.split("->")
    ins = lhs.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = S.of(0)
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            t = S.of(1)
            for s, o in zip(ins, ops):
                t = t * to_s(o[tuple(env[c] for c in s)])
            acc = acc + t
        res[oi] = acc
    return res


def tensordot(a, b, axes=2):
    a, b = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [i % a.ndim for i in ax_a]
    ax_b = [i % b.ndim for i in ax_b]
    ra = [i for i in range(a.ndim) if i not in ax_a]
    rb = [i for i in range(b.ndim) if i not in ax_b]
    sa_, sb_ = [a.shape[i] for i in ra], [b.shape[i] for i in rb]
    k = int(np.prod([a.shape[i] for i in ax_a], dtype=int))
    x = np.transpose(a, ra + ax_a).reshape(-1, k)
    y = np.transpose(b, ax_b + rb).reshape(k, -1)
    return np.reshape(matmul(x, y).view(_base), sa_ + sb_)


def np_dot(a, b, out=None):
    x, y = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    if x.ndim == 0 or y.ndim == 0:
        return wrap(_UFUNC[np.multiply](x, y))
    if x.ndim <= 2 and y.ndim <= 2:
        return matmul(x, y)
    raise Unsupported("np.dot of high rank")


def np_outer(a, b, out=None):
    x, y = _asarray(_deep_raw(a)).reshape(-1), _asarray(_deep_raw(b)).reshape(-1)
    return _UFUNC[np.multiply](x[:, None], y[None, :])


def np_kron(a, b):
    x, y = _asarray(_deep_raw(a)), _asarray(_deep_raw(b))
    r = _UFUNC[np.multiply](x[:, None, :, None], y[None, :, None, :])
    return r.reshape(x.shape[0] * y.shape[0], x.shape[1] * y.shape[1])


def np_tri(upper):
    def f(m, k=0):
        x = _asarray(_deep_raw(m)).copy()
        for i in range(x.shape[-2]):
            for j in range(x.shape[-1]):
                if (j - i < k) if upper else (j - i > k):
                    x[..., i, j] = S.of(0)
        return x

    return f


def np_array_like(a, *args, **kw):
    return a.copy()


def np_isnan_any(*a, **kw):
    raise Unsupported("nan function")


def np_std(a, axis=None, keepdims=False, ddof=0, **kw):
    return np.sqrt(np_var(a, axis, keepdims, ddof))


def np_var(a, axis=None, keepdims=False, ddof=0, **kw):
    m = wrap(np_mean(a, axis, True))
    d = a - m
    r = _asarray(_deep_raw(a))
    t = np_sum(d * d, axis, keepdims)
    k = r.size // max(_asarray(t).size, 1)
    return wrap(t) / (k - ddof)


def concatenate(arrs, axis=0, **kw):
    arrs = [_asarray(_deep_raw(a), dtype=object) for a in arrs]
    return np.concatenate(arrs, axis=axis)


_FUNCS = {
    np.linalg.cholesky: cholesky,
    np.linalg.det: det,
    np.linalg.slogdet: slogdet,
    np.linalg.solve: solve,
    np.linalg.inv: inv,
    np.linalg.svd: svd,
    np.linalg.eigh: eigh,
    np.linalg.norm: lambda a, *k, **kw: np.sqrt(np_sum(a * a)) if not k and not kw else np_isnan_any(),
    np.trace: trace,
    np.sum: np_sum,
    np.prod: np_prod,
    np.mean: np_mean,
    np.std: np_std,
    np.var: np_var,
    np.max: np_max,
    np.amax: np_max,
    np.min: np_min,
    np.amin: np_min,
    np.where: where,
    np.all: np_all,
    np.any: np_any,
    np.zeros_like: zeros_like,
    np.ones_like: ones_like,
    np.full_like: full_like,
    np.einsum: einsum,
    np.tensordot: tensordot,
    np.dot: np_dot,
    np.outer: np_outer,
    np.kron: np_kron,
    np.triu: np_tri(True),
    np.tril: np_tri(False),
    np.concatenate: concatenate,
    np.copy: np_array_like,
    np.real: lambda a: a,
    np.imag: lambda a: np.zeros(np.shape(_deep_raw(a))),
    np.clip: lambda a, lo=None, hi=None, **kw: _clip(a, lo, hi),
    np.nan_to_num: np_isnan_any,
    np.cumsum: lambda a, axis=None, **kw: np.add.accumulate(
        a if axis is not None else np.reshape(a, (-1,)), axis=axis or 0
    ),
}
_BLOCKED = {
    np.sort,
    np.argsort,
    np.argmax,
    np.argmin,
    np.quantile,
    np.round,
    np.unique,
    np.searchsorted,
}


def _clip(a, lo, hi):
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


def _np_array(*args, **kw):
    raise Unsupported("np.array")


def _deferring(name):
    base = getattr(np.ndarray, name)

    def op(self, other):
        # A scalar stands for a Python number, which leaves unknown objects to them.
        if self.ndim == 0 and not isinstance(other, (_base, S, int, float, complex, np.generic, list, tuple)):
            if type(other).__name__ != "Dimension":
                return NotImplemented
        return base(self, other)

    op.__name__ = name
    return op


for _n in ("add", "sub", "mul", "truediv", "pow", "matmul"):
    setattr(SA, f"__{_n}__", _deferring(f"__{_n}__"))
