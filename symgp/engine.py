"""Path exploration, proof obligations, and the solver."""

import math
import os
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
from lab import B

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import arr, patches, sym  # noqa: E402
from . import poly as P  # noqa: E402
from .env import AssumptionFailed, ConEnv, Failure, SymEnv  # noqa: E402
from .kernels import base_kernel, base_mean  # noqa: E402
from .sym import S, Unsupported  # noqa: E402


class Stats:
    """Counters of one scenario. All measured."""

    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.branches = 0
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.feasibility = 0
        self.solver_s = 0.0
        self.validated = 0
        self.validation_skipped = 0
        self.syntactic = 0
        self.max_terms = 0
        self.assumptions = 0
        self.atoms = 0
        self.lemmas = 0
        self.lemmas_certified = 0
        self.undecided = []
        self.functions = set()

    def merge(self, other):
        for k, v in other.__dict__.items():
            if isinstance(v, set):
                getattr(self, k).update(v)
            elif isinstance(v, list):
                getattr(self, k).extend(v)
            elif k == "max_terms":
                self.max_terms = max(self.max_terms, v)
            else:
                setattr(self, k, getattr(self, k) + v)


# Conversion to z3


class Z:
    """z3 view of the variables of one path."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.v = {}
        self.flags = {}

    def var(self, i):
        if i not in self.v:
            self.v[i] = z3.Real(f"v{i}")
        return self.v[i]

    def flag(self, name):
        if name not in self.flags:
            self.flags[name] = z3.Bool(name)
        return self.flags[name]

    def poly(self, p):
        if p.is_zero():
            return z3.RealVal(0)
        terms = []
        for m, c in p.t.items():
            fac = []
            if c != 1 or m == 0:
                fac.append(z3.Q(c.numerator, c.denominator) if isinstance(c, Fraction) else z3.RealVal(c))
            for i, e in P.mono_vars(m):
                fac.extend([self.var(i)] * e)
            terms.append(fac[0] if len(fac) == 1 else z3.Product(*fac))
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def cond(self, p, op):
        e = self.poly(p)
        return {">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0}[op]

    def path(self, definitions=True):
        """Path condition, and the definitions of the atoms that occur in it."""
        cs = [self.cond(p, op) for p, op in self.ctx.cond]
        for f, v in self.ctx.flag_cond.items():
            cs.append(self.flag(f) if v else z3.Not(self.flag(f)))
        return cs

    def dens(self):
        """Small denominators are not zero."""
        return [self.poly(f) != 0 for f in self.ctx.dens if not self.ctx.sign(f)]

    def definitions(self):
        """Definitions of all atoms that were mentioned to the solver so far."""
        cs, done = [], set()
        while True:
            todo = [i for i in self.v if i not in done]
            if not todo:
                return cs
            for i in todo:
                done.add(i)
                a = self.ctx.atoms[i]
                if a.kind == "sqrt":
                    v = self.var(i)
                    cs += [v >= 0, v * v == self.poly(a.args[0].n)]
                elif a.kind == "in" and a.name == "pi":
                    v = self.var(i)
                    cs += [v > z3.Q(31415, 10000), v < z3.Q(31416, 10000)]
                elif a.kind == "app" and a.name == "max":
                    v = self.var(i)
                    x, y = (self.rational(b) for b in a.args)
                    cs += [v >= x, v >= y, z3.Or(v == x, v == y)]
                elif a.kind == "app" and a.name == "exp":
                    cs.append(self.var(i) > 0)

    def rational(self, s):
        e = self.poly(s.n)
        for f, k in s.d.items():
            for _ in range(k):
                e = e / self.poly(f)
        return e


class Solver:
    """Queries, with counters."""

    def __init__(self, stats, timeout_ms):
        self.stats = stats
        self.timeout = timeout_ms

    def check(self, constraints, timeout=None, tactic=None, kind="queries"):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout or self.timeout))
        t0 = time.time()
        for c in constraints:
            s.add(c)
        r = s.check()
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, kind, getattr(self.stats, kind) + 1)
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        if r == z3.sat:
            self.stats.sat += 1
            return "sat", s.model()
        self.stats.unknown += 1
        return "unknown", None


def make_feasible(solver):
    def feasible(ctx, payload):
        z = Z(ctx)
        base = z.path()
        if payload[0] == "flag":
            # A fresh Boolean: both values are possible whenever the path is.
            t = z.flag(payload[1])
            r1, _ = solver.check([t] + [c for c in base if z3.is_bool(c)][:0], kind="feasibility")
            r2, _ = solver.check([z3.Not(t)], kind="feasibility")
            return r1 != "unsat", r2 != "unsat"
        c = z.cond(payload[1], payload[2])
        base = base + z.dens()
        defs = z.definitions()
        r1, _ = solver.check(base + defs + [c], timeout=2000, kind="feasibility")
        r2, _ = solver.check(base + defs + [z3.Not(c)], timeout=2000, kind="feasibility")
        return r1 != "unsat", r2 != "unsat"

    return feasible


# Numerical values


class Valuation:
    """Float values for the variables of a path, from the default inputs."""

    def __init__(self, ctx, env, values=None):
        self.ctx, self.env = ctx, env
        self.values = values if values is not None else env.values
        self.val = {}

    def var(self, i):
        if i in self.val:
            return self.val[i]
        a = self.ctx.atoms[i]
        if a.kind == "in":
            if a.name == "pi":
                r = math.pi
            else:
                r = self.values[a.name]
        elif a.kind == "sqrt":
            x = self.scalar(a.args[0])
            if x < 0:
                raise ValueError("negative radicand")
            r = math.sqrt(x)
        elif a.kind == "log":
            r = math.log(self.scalar(a.args[0]))
        elif a.meta:
            xs = [self.scalar(b) for b in a.args]
            r = app_value(a, xs)
        elif a.name == "max":
            r = max(self.scalar(a.args[0]), self.scalar(a.args[1]))
        elif a.name in ("exp", "sin", "cos", "tanh"):
            r = getattr(math, a.name)(self.scalar(a.args[0]))
        elif a.name.startswith("round_"):
            r = float(getattr(np, a.name[6:])(self.scalar(a.args[0])))
        else:
            raise ValueError("no value for " + a.name)
        r = float(r)
        self.val[i] = r
        return r

    def poly(self, p):
        tot = 0.0
        for m, c in p.t.items():
            v = float(c)
            for i, e in P.mono_vars(m):
                v *= self.var(i) ** e
            tot += v
        return tot

    def scalar(self, s):
        r = self.poly(s.n)
        for f, e in s.d.items():
            r /= self.poly(f) ** e
        return r


def app_value(a, xs):
    """Value of an uninterpreted kernel or mean, or a derivative of one."""
    if a.meta[0] == "kernel":
        _, name, symmetric, dx, dy, n = a.meta
        if not any(dx) and not any(dy):
            return base_kernel(name, symmetric, xs[:n], xs[n:])
        import mpmath

        f = lambda *z: base_kernel(name, symmetric, z[:n], z[n:], mpmath)  # noqa: E731
        return float(mpmath.diff(f, tuple(map(mpmath.mpf, xs)), tuple(dx) + tuple(dy)))
    _, name, dx = a.meta
    if not any(dx):
        return base_mean(name, xs)
    import mpmath

    f = lambda *z: base_mean(name, z, mpmath)  # noqa: E731
    return float(mpmath.diff(f, tuple(map(mpmath.mpf, xs)), tuple(dx)))


def holds(val, ctx):
    """Check that the path condition holds under a valuation."""
    try:
        for p, op in ctx.cond:
            x = val.poly(p)
            ok = {">": x > 1e-12, ">=": x >= -1e-12, "==": abs(x) < 1e-9, "!=": abs(x) > 1e-9}[op]
            if not ok:
                return False
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    return True


# Obligations


def split_logs(s, ctx):
    """Write `s` as `s0 + sum(c_i log(a_i))`. Returns `None` if it is not of that form."""
    logs = [i for i in s.n.vars() if ctx.atoms[i].kind == "log"]
    if not logs:
        return s, {}
    rest, coef = P.ZERO, {i: {} for i in logs}
    t0 = {}
    for m, c in s.n.t.items():
        hit = [(i, e) for i, e in P.mono_vars(m) if ctx.atoms[i].kind == "log"]
        if not hit:
            t0[m] = c
        elif len(hit) == 1 and hit[0][1] == 1:
            i = hit[0][0]
            coef[i][m - (1 << (P.W * i))] = c
        else:
            return None
    cs = {}
    den = sym.expand_den(s.d)
    for i, t in coef.items():
        q = P.Poly(t).divexact(den)
        if q is None or not q.is_const():
            return None
        cs[i] = Fraction(q.const())
    n, d = sym.cancel(P.Poly(t0), s.d)
    return S(n, d), cs


def sides(a, b):
    """Polynomials `l`, `r` such that `a == b` iff `l == r` (nonzero denominators)."""
    common = {}
    for f in set(a.d) | set(b.d):
        common[f] = max(a.d.get(f, 0), b.d.get(f, 0))
    l, r = a.n, b.n
    for f, e in common.items():
        ea, eb = e - a.d.get(f, 0), e - b.d.get(f, 0)
        if ea:
            l = l * f.pow(ea)
        if eb:
            r = r * f.pow(eb)
    return l, r, list(common)


class Decider:
    """Decides the obligations of one path with the solver."""

    def __init__(self, ctx, env, solver, stats):
        self.ctx, self.env, self.solver, self.stats = ctx, env, solver, stats
        self.z = Z(ctx)
        self.true_on_path = False

    def decide(self, ob):
        """Returns `("ok" | "fail" | "unknown", detail)`."""
        label, kind, data = ob
        if kind == "bool":
            # The condition was evaluated on this path. The solver has to confirm that
            # the path exists for a failure, and has nothing left to do otherwise: that is
            # the same query for all conditions that are true on this path.
            if data and self.true_on_path:
                return "ok", ""
            r, _ = self.solver.check(
                self.z.path() + self.z.definitions() + [z3.BoolVal(not data)], timeout=5000
            )
            self.true_on_path = self.true_on_path or (data and r == "unsat")
            return ("ok", "") if r == "unsat" else ("fail", "condition is false")
        if kind in ("shape", "struct"):
            return "fail", data
        if kind == "cond":
            p, op = sym.negate(data.p, data.op)
            q = self.z.cond(p, op)
            base = self.z.path()
            r, m = self.solver.check(base + self.z.definitions() + [q])
            return ("ok", "") if r == "unsat" else ("fail" if r == "sat" else "unknown", "condition")
        # Equalities.
        clauses, dens = [], set()
        for a, b in data:
            if a.nan or b.nan:
                na = any(f == "<nan>" or self.ctx.flag_cond.get(f, True) for f in a.nan)
                nb = any(f == "<nan>" or self.ctx.flag_cond.get(f, True) for f in b.nan)
                if na != nb:
                    return "fail", "NaN"
                if na:
                    continue
                a, b = S(a.n, a.d), S(b.n, b.d)
            d = None
            sa, sb = split_logs(a, self.ctx), split_logs(b, self.ctx)
            if sa is None or sb is None:
                sa, sb = (a, {}), (b, {})
            l, r, ds = sides(sa[0], sb[0])
            self.stats.max_terms = max(self.stats.max_terms, len(l.t), len(r.t))
            if l == r:
                self.stats.syntactic += 1
            clauses.append(self.z.poly(l) != self.z.poly(r))
            dens.update(ds)
            if sa[1] or sb[1]:
                l, r = self.exponentiate(sa[1], sb[1])
                clauses.append(self.z.poly(l) != self.z.poly(r))
        self.stats.obligations += max(0, len(data) - 1)
        if not clauses:
            return "ok", ""
        side = [self.z.poly(f) != 0 for f in dens]
        goal = z3.Or(*clauses) if len(clauses) > 1 else clauses[0]
        # First, without the path condition: a sufficient condition, and cheap.
        r, m = self.solver.check([goal], timeout=3000)
        if r != "unsat":
            base = self.z.path()
            r, m = self.solver.check(base + self.z.definitions() + side + [goal])
        if r == "unsat":
            self.stats.discharged += max(0, len(data) - 1)
            return "ok", ""
        bad = []
        for k, (a, b) in enumerate(data):
            if a.nan or b.nan:
                continue
            if (a - b).n.is_zero():
                continue
            bad.append(f"element {k}: got {sym.show(a, 4)}, expected {sym.show(b, 4)}")
        return ("fail" if r == "sat" else "unknown"), "; ".join(bad[:2])

    def certify(self, budget_s):
        """Have the solver confirm steps of the normaliser."""
        st, lemmas = self.stats, self.ctx.lemmas
        st.lemmas += self.ctx.lemmas_seen
        t0, i = time.time(), 0
        prod = lambda fs: z3.Product(*map(self.z.poly, fs)) if len(fs) > 1 else self.z.poly(fs[0])  # noqa
        while i < len(lemmas) and time.time() - t0 < budget_s:
            batch = lemmas[i : i + 20]
            i += 20
            goal = z3.Or(*[z3.Sum(*map(prod, lhs)) != prod(rhs) for lhs, rhs in batch])
            r, _ = self.solver.check([goal], timeout=5000)
            if r == "sat":
                st.undecided.append("the solver refutes a step of the normaliser")
                return
            if r == "unsat":
                st.lemmas_certified += len(batch)

    def exponentiate(self, ca, cb):
        """`sum(ca_i log(a_i)) == sum(cb_i log(a_i))` as an equality of products."""
        diff = {}
        for i, c in ca.items():
            diff[i] = diff.get(i, 0) + c
        for i, c in cb.items():
            diff[i] = diff.get(i, 0) - c
        den = 1
        for c in diff.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        l, r = P.ONE, P.ONE
        for i, c in diff.items():
            k = int(c * den)
            p = self.ctx.atoms[i].args[0].n
            if k > 0:
                l = l * p.pow(k)
            elif k < 0:
                r = r * p.pow(-k)
        return l, r


class Outcome:
    def __init__(self):
        self.stats = Stats()
        self.candidates = []  # Possible violations.
        self.samples = []
        self.wall = 0.0
        self.labels = {}


def traced_functions(tracer, repo):
    return tracer


class FunctionTracer:
    """Records which functions of the code under test are executed."""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co not in self._codes:
                    self._codes.add(co)
                    fn = co.co_filename
                    if fn.startswith(self.root):
                        self.seen.add(f"{os.path.relpath(fn, self.root)}:{co.co_qualname}")

        self._codes = set()
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


REPO_PKG = os.environ.get("STHENO_ROOT", "/repo")


def run_symbolic(scenario, params, budget_s=200, timeout_ms=30000, max_paths=100000, validate=True):
    """Execute all paths of a scenario and decide all obligations."""
    out = Outcome()
    st = out.stats
    solver = Solver(st, timeout_ms)
    feasible = make_feasible(solver)
    t0 = time.time()
    stack = [[]]
    tracer = FunctionTracer(REPO_PKG)
    first = True
    while stack:
        if time.time() - t0 > budget_s or st.paths >= max_paths:
            st.undecided.append(f"budget exhausted with {len(stack)} open paths")
            break
        prefix = stack.pop()
        ctx = sym.Context(prefix, feasible)
        sym.set_context(ctx)
        env = SymEnv(params)
        exc = None
        aborted = False
        with patches.installed():
            patches.constants()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if st.paths < 3:
                        with tracer:
                            scenario(env)
                    else:
                        scenario(env)
            except sym.PathAbort:
                aborted = True
            except Exception as e:
                sys.setprofile(None)
                exc = e
                tb = traceback.format_exc()
        st.branches += ctx.n_branch
        for k in range(len(prefix), len(ctx.trace)):
            if ctx.trace[k][1]:
                stack.append([t[0] for t in ctx.trace[:k]] + [not ctx.trace[k][0]])
        if aborted:
            st.cut += 1
            continue
        st.paths += 1
        st.assumptions += ctx.assumed
        st.atoms += len(ctx.atoms)
        dec = Decider(ctx, env, solver, st)
        failed = False
        if exc is not None:
            st.obligations += 1
            failed = True
            out.candidates.append(
                candidate(ctx, env, "exception", "unsupported" if isinstance(exc, Unsupported) else "exception", f"{type(exc).__name__}: {exc}", tb)
            )
        if not env.obligations and exc is None:
            st.undecided.append("path without obligations")
        for ob in env.obligations:
            st.obligations += 1
            out.labels[ob[0]] = out.labels.get(ob[0], 0) + 1
            r, detail = dec.decide(ob)
            if r == "ok":
                st.discharged += 1
            else:
                failed = True
                out.candidates.append(candidate(ctx, env, ob[0], r, detail, None))
        if st.paths <= 2 or st.paths % 32 == 0:
            dec.certify(0.1 * (time.time() - t0) + 0.3)
        if len(out.samples) < 2 and env.obligations:
            out.samples.append(sample(ctx, env))
        if validate and not failed and (st.paths <= 8 or st.paths % 16 == 0):
            validate_path(scenario, params, ctx, env, st, out)
        if len(out.candidates) >= 6:
            break
    st.functions |= tracer.seen
    out.wall = time.time() - t0
    return out


def candidate(ctx, env, label, kind, detail, tb):
    """A possible violation, with concrete inputs for a replay."""
    choices = dict(ctx.choices)
    flags = {k: v for k, v in ctx.flag_cond.items()}
    vals = []
    for variant in range(6):
        values = variant_values(env, variant)
        v = Valuation(ctx, env, values)
        if holds(v, ctx):
            vals.append(values)
        if len(vals) >= 2:
            break
    if not vals or any(op == "==" for _, op in ctx.cond):
        m = model_values(ctx, env)
        if m is not None:
            vals.insert(0, m)
    if not vals:
        vals.append(dict(env.values))
    return {
        "label": label,
        "kind": kind,
        "detail": str(detail)[:2000],
        "traceback": tb,
        "choices": choices,
        "flags": flags,
        "values": vals,
        "decisions": [(str(t[2]), t[0]) for t in ctx.trace],
    }


def variant_values(env, variant):
    if variant == 0:
        return dict(env.values)
    res = {}
    from .kernels import _rng

    for i, (k, v) in enumerate(sorted(env.values.items())):
        u = _rng(f"{k}@{variant}")(3)
        res[k] = v * (0.6 + 0.8 * u)
    return res


def model_values(ctx, env):
    """Inputs that satisfy the path condition, from the solver: pin as many inputs as
    possible to their generic values."""
    z = Z(ctx)
    s = z3.Solver()
    s.set("timeout", 5000)
    try:
        s.add(*z.path())
        s.add(*z.dens())
        s.add(*z.definitions())
        if s.check() != z3.sat:
            return None
        ins = [i for i in list(z.v) if ctx.atoms[i].kind == "in" and ctx.atoms[i].name in env.values]
        for i in ins:
            s.push()
            v = Fraction(env.values[ctx.atoms[i].name]).limit_denominator(1000)
            s.add(z.var(i) == z3.Q(v.numerator, v.denominator))
            if s.check() != z3.sat:
                s.pop()
        if s.check() != z3.sat:
            return None
        m = s.model()
        res = dict(env.values)
        for i in ins:
            x = m.eval(z.var(i), model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            res[ctx.atoms[i].name] = float(x.as_fraction())
        return res
    except z3.Z3Exception:
        return None


def sample(ctx, env):
    obs = []
    for label, kind, data in env.obligations[:6]:
        if kind == "eq" and data:
            a, b = data[0]
            obs.append(f"{label}: {sym.show(a, 3)} == {sym.show(b, 3)} (+{len(data) - 1} more elements)")
        else:
            obs.append(f"{label}: {kind} {str(data)[:100]}")
    return {
        "params": repr(env.params),
        "choices": dict(ctx.choices),
        "decisions": [f"{t[2]}={t[0]}" for t in ctx.trace][:20],
        "assumed_signs": len([1 for _ in ctx.cond]),
        "variables": len(ctx.atoms),
        "obligations": [o[:300] for o in obs],
    }


def validate_path(scenario, params, ctx, env, st, out):
    """Run the same scenario on plain floats through the real code without stubs, and
    compare with the symbolic results evaluated at the same inputs."""
    values = None
    for variant in range(6):
        vv = variant_values(env, variant)
        val = Valuation(ctx, env, vv)
        if holds(val, ctx):
            values = vv
            break
    if values is None:
        m = model_values(ctx, env)
        if m is not None:
            val = Valuation(ctx, env, m)
            if holds(val, ctx):
                values = m
    if values is None:
        st.validation_skipped += 1
        return

    def run():
        con = ConEnv(params, values=values, choices=ctx.choices, flags=ctx.flag_cond)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            scenario(con)
        return con

    try:
        con = run()
    except AssumptionFailed:
        st.validation_skipped += 1
        return
    except Exception as e:
        eps, B.epsilon = B.epsilon, 0.0
        try:
            run()
            st.validation_skipped += 1  # Only the regularisation of matrices made a difference.
            return
        except Exception:
            pass
        finally:
            B.epsilon = eps
        out.candidates.append(
            candidate(ctx, env, "validation", "concrete", f"{type(e).__name__}: {e}", traceback.format_exc())
        )
        return
    got = [(l, v) for l, v in con.log if isinstance(v, list)]
    want = [(l, d) for l, k, d in env.obligations if k == "eq"]
    if [l for l, _ in got] != [l for l, _ in want]:
        # `between` logs too: compare only when the sequences line up.
        got = [g for g in got if g[0] in {l for l, _ in want}]
        if [l for l, _ in got] != [l for l, _ in want]:
            st.validation_skipped += 1
            return
    for (l, xs), (_, data) in zip(got, want):
        for x, (a, b) in zip(xs, data):
            if a.nan or math.isnan(x):
                continue
            try:
                y = val.scalar(a)
            except (ValueError, ZeroDivisionError, OverflowError):
                st.validation_skipped += 1
                return
            if abs(x - y) > 1e-5 * max(1.0, abs(y)):
                st.undecided.append(f"engine disagrees with the code at {l}: {x} versus {y}")
                return
    st.validated += 1
