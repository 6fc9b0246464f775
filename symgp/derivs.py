"""Exact derivatives of symbolic scalars."""

import numpy as np
from lab import B

from . import arr, sym
from . import poly as P
from .kernels import kernel_app, mean_app
from .sym import S, Unsupported


def diff(s, v):
    """Derivative of `s` with respect to variable number `v`."""
    memo = {}

    def dvar(i):
        if i in memo:
            return memo[i]
        a = sym.CTX.atoms[i]
        if a.kind == "in":
            r = S.of(1 if i == v else 0)
        elif a.kind == "sqrt":
            r = ds(a.args[0]) / (S(P.var(i)) * 2)
        elif a.kind == "log":
            r = ds(a.args[0]) / a.args[0]
        elif a.kind == "app":
            r = S.of(0)
            for k, arg in enumerate(a.args):
                da = ds(arg)
                if not da.n.is_zero():
                    r = r + dapp(a, i, k) * da
        else:
            raise Unsupported("derivative of " + a.kind)
        memo[i] = r
        return r

    def dapp(a, i, k):
        if a.meta and a.meta[0] == "kernel":
            _, name, symmetric, dx, dy, n = a.meta
            dx, dy = list(dx), list(dy)
            if k < n:
                dx[k] += 1
            else:
                dy[k - n] += 1
            return kernel_app(name, symmetric, tuple(dx), tuple(dy), a.args[:n], a.args[n:])
        if a.meta and a.meta[0] == "mean":
            _, name, dx = a.meta
            dx = list(dx)
            dx[k] += 1
            return mean_app(name, tuple(dx), a.args)
        if a.name == "exp":
            return S(P.var(i))
        if a.name == "sin":
            return a.args[0].cos()
        if a.name == "cos":
            return -a.args[0].sin()
        raise Unsupported("derivative of " + a.name)

    def dpoly(p):
        r = S.of(0)
        for i in p.vars():
            di = dvar(i)
            if not di.n.is_zero():
                r = r + S(p.diff(i)) * di
        return r

    def ds(x):
        num = dpoly(x.n)
        if not x.d:
            return num
        inv = S(P.ONE, x.d)
        res = num * inv
        for f, e in x.d.items():
            df = dpoly(f)
            if not df.n.is_zero():
                res = res - x * df * S(f).inv() * e
        return res

    return ds(s)


def subst(s, v, expr):
    """Substitute `expr` for variable number `v` in `s`."""
    memo = {}

    def vmap(i):
        if i in memo:
            return memo[i]
        a = sym.CTX.atoms[i]
        if a.kind == "in":
            r = expr if i == v else S(P.var(i))
        else:
            args = tuple(sub(x) for x in a.args)
            if a.kind == "sqrt":
                r = args[0].sqrt()
            elif a.kind == "log":
                r = args[0].log()
            elif a.meta and a.meta[0] == "kernel":
                _, name, symmetric, dx, dy, n = a.meta
                r = kernel_app(name, symmetric, dx, dy, args[:n], args[n:])
            elif a.meta and a.meta[0] == "mean":
                r = mean_app(a.meta[1], a.meta[2], args)
            elif a.name in ("exp", "sin", "cos", "tanh"):
                r = getattr(args[0], a.name)()
            else:
                r = sym.CTX.app(a.name, args)
        memo[i] = r
        return r

    def subpoly(p):
        r = S.of(0)
        for m, c in p.t.items():
            t = S.of(c)
            for i, e in P.mono_vars(m):
                t = t * vmap(i) ** e
            r = r + t
        return r

    def sub(x):
        r = subpoly(x.n)
        for f, e in x.d.items():
            r = r * subpoly(f).inv() ** e
        return r

    return sub(s)


_asarray = np.asarray


def _fresh():
    c = sym.CTX
    k = getattr(c, "n_fresh", 0)
    c.n_fresh = k + 1
    s = c.var(f"@d{k}")
    (v,) = s.n.vars()
    return s, v


def _partial(f, z, i):
    """Partial derivative of scalar `f` (of a row) at row `z` in coordinate `i`."""
    t, v = _fresh()
    row = list(z)
    old = S.of(row[i])
    row[i] = t
    return subst(diff(f(row), v), v, old)


def kernel_derivative(k_elwise, i, j, pw):
    def f(x, y):
        cx = _asarray(arr._deep_raw(B.uprank(x)))
        cy = _asarray(arr._deep_raw(B.uprank(y)))

        def at(a, b):
            def value(ra, rb):
                out = k_elwise(arr.sa([ra]), arr.sa([rb]))
                return S.of(arr.raw(arr.sa(B.dense(out)))[0, 0])

            if i is not None:
                return _partial(lambda r: value(r, list(b)), a, i)
            return _partial(lambda r: value(list(a), r), b, j)

        if pw:
            out = np.empty((len(cx), len(cy)), dtype=object)
            for p, a in enumerate(cx):
                for q, b in enumerate(cy):
                    out[p, q] = at(a, b)
        else:
            out = np.empty((len(cx), 1), dtype=object)
            for p, (a, b) in enumerate(zip(cx, cy)):
                out[p, 0] = at(a, b)
        return arr.wrap(out)

    return f


def mean_derivative(self, x):
    i = self.derivs[0]
    cx = _asarray(arr._deep_raw(B.uprank(x)))
    out = np.empty((len(cx), 1), dtype=object)
    for p, a in enumerate(cx):
        out[p, 0] = _partial(
            lambda r: S.of(arr.raw(arr.sa(B.dense(self[0](arr.sa([r])))))[0, 0]), a, i
        )
    return arr.wrap(out)
