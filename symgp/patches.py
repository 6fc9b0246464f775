"""Stubs that are installed while code runs symbolically.

Every stub is part of the claim of each check and is listed in DESIGN.md:

* LAPACK routines -> exact linear algebra over the symbolic field (`arr.py`);
* `B.epsilon` (jitter) -> 0, `B.pi` and `log(2 pi)` -> symbolic constants;
* automatic differentiation of kernels and means -> exact symbolic derivatives, with the
  stabilising perturbation of 1e-14 left out;
* random number generation -> arbitrary (symbolic) draws.
"""

import contextlib

import numpy as np
import scipy.linalg as sla

from . import arr, sym
from .arr import SA
from .sym import S

STUBS = [
    "numpy.linalg.{cholesky,solve,inv,det,slogdet,svd(2x2 or diagonal)} and "
    "scipy.linalg.{solve_triangular,cho_solve,cho_factor,cholesky}: exact arithmetic in "
    "the symbolic field; pivots of Cholesky factorisations assumed positive",
    "lab B.epsilon = 0 (no jitter), B.pi and B.log_2_pi symbolic",
    "automatic differentiation in mlkernels (TensorFlow): exact symbolic derivatives",
    "random normal draws: free symbolic values",
    "floating-point arithmetic: exact real arithmetic; tolerances (constants up to 1e-9 in comparisons): zero",
    "matrix.ops.algorithms.align, which finds equal columns of low-rank matrices: finds identical columns",
]

_real_array = np.array
_real_asarray = np.asarray


def _has_sym(x):
    if isinstance(x, (SA, S)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(e) for e in x)
    return False


def _np_array(x, *args, **kw):
    if isinstance(x, (SA, S)):
        return arr.sa(x).copy()
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return arr.wrap(_real_array(arr._deep_raw(x), dtype=object))
    return _real_array(x, *args, **kw)


def _np_asarray(x, *args, **kw):
    if isinstance(x, SA):
        return x
    if isinstance(x, S):
        return arr.sa(x)
    if isinstance(x, (list, tuple)) and _has_sym(x):
        return arr.wrap(_real_array(arr._deep_raw(x), dtype=object))
    return _real_asarray(x, *args, **kw)


def _stub_dkx(k_elwise, i):
    from .derivs import kernel_derivative

    return kernel_derivative(k_elwise, i, None, True)


def _stub_dkx_elwise(k_elwise, i):
    from .derivs import kernel_derivative

    return kernel_derivative(k_elwise, i, None, False)


def _stub_dky(k_elwise, i):
    from .derivs import kernel_derivative

    return kernel_derivative(k_elwise, None, i, True)


def _stub_dky_elwise(k_elwise, i):
    from .derivs import kernel_derivative

    return kernel_derivative(k_elwise, None, i, False)


def _stub_align(real):
    def align(a, b):
        import lab

        a, b = lab.dense(a), lab.dense(b)
        if not (_has_sym(a) or _has_sym(b)):
            return real(a, b)
        cols_a, cols_b = ([tuple(map(sym.repr_key, map(S.of, c))) for c in arr.raw(arr.sa(x)).T] for x in (a, b))
        perms = [], [], [], []
        left = list(range(len(cols_b)))
        for i, c in enumerate(cols_a):
            j = next((j for j in left if cols_b[j] == c), -1)
            if j >= 0:
                left.remove(j)
            for perm, k in zip(perms, (i, j, i, -1)):
                perm.append(k)
        for j in left:
            for perm, k in zip(perms, (-1, j, -1, j)):
                perm.append(k)
        return perms

    return align


def fast_dispatch():
    """Make multiple dispatch and warnings cheaper, without changing what they decide.

    The dispatcher tests instances against plain classes through `beartype`; the answer
    depends on the type of the object only, and is remembered here. The warnings about
    conversions to dense matrices inspect the stack on every call.
    """
    import sys as _sys
    import types
    import typing

    import plum._signature as ps

    if getattr(ps, "_symgp", False):
        return
    slow = ps.is_bearable
    memo, plain = {}, {}

    def is_plain(hint):
        if hint is typing.Any:
            return True
        if typing.get_origin(hint) in (typing.Union, types.UnionType):
            return all(map(is_plain, typing.get_args(hint)))
        return isinstance(hint, type) and typing.get_origin(hint) is None

    def is_bearable(obj, hint):
        key = (type(obj), id(hint))
        r = memo.get(key)
        if r is None:
            r = slow(obj, hint)
            if id(hint) not in plain:
                plain[id(hint)] = (is_plain(hint), hint)  # Keep it alive.
            if plain[id(hint)][0]:
                memo[key] = r
        return r

    import gc

    from plum import Function
    from plum._type import resolve_type_hint

    # Remember which method is chosen for which types of arguments, wherever that depends
    # on these types only.
    for f in [o for o in gc.get_objects() if type(o) is Function]:
        try:
            f._resolve_pending_registrations()
            types_ = [resolve_type_hint(t) for m in f._resolver.methods for t in m.signature.types]
            types_ += [
                resolve_type_hint(m.signature.varargs)
                for m in f._resolver.methods
                if m.signature.has_varargs
            ]
            if not f._resolver.is_faithful and all(map(is_plain, types_)):
                f._resolver.is_faithful = True
        except Exception:  # noqa: BLE001
            continue

    ps.is_bearable = is_bearable
    ps._symgp = True
    for name, mod in list(_sys.modules.items()):
        if name.startswith(("matrix", "lab", "mlkernels", "stheno")) and hasattr(mod, "warn_upmodule"):
            mod.warn_upmodule = lambda *a, **k: None


@contextlib.contextmanager
def installed():
    """Install the stubs."""
    import lab
    import mlkernels.kernels.derivative as kd
    import mlkernels.means.derivative as md
    from lab import B

    from .derivs import mean_derivative

    fast_dispatch()
    saved = []

    def patch(obj, name, value):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    patch(sla, "solve_triangular", arr.solve_triangular)
    patch(sla, "cho_solve", arr.cho_solve)
    patch(sla, "cho_factor", arr.cho_factor)
    patch(sla, "cholesky", arr.sla_cholesky)
    patch(np, "array", _np_array)
    patch(np, "asarray", _np_asarray)
    mods = {id(m): m for m in (lab, B) if hasattr(m, "epsilon")}
    eps = B.epsilon
    for m in mods.values():
        patch(m, "epsilon", 0)
        patch(m, "pi", m.pi)
        patch(m, "log_2_pi", m.log_2_pi)
    from matrix.ops import add as _  # noqa: F401
    import sys

    mod = sys.modules["matrix.ops.add"]
    patch(mod, "align", _stub_align(mod.align))
    patch(kd, "perturb", lambda x: x)
    patch(kd, "dkx", _stub_dkx)
    patch(kd, "dkx_elwise", _stub_dkx_elwise)
    patch(kd, "dky", _stub_dky)
    patch(kd, "dky_elwise", _stub_dky_elwise)
    if hasattr(md, "DerivativeMean"):
        patch(md.DerivativeMean, "__call__", mean_derivative)
    try:
        yield
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)


def constants():
    """Make pi symbolic in the current path."""
    import lab
    from lab import B

    for m in {id(m): m for m in (lab, B)}.values():
        m.pi = arr.wrap(sym.symbolic_pi())
        m.log_2_pi = arr.wrap((sym.symbolic_pi() * 2).log())
