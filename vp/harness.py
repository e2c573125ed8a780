"""Contracts: one specification function, two readings.

A contract is a Python function  spec(V, **case).  It builds the inputs allowed
by the precondition through V, calls the real function, and states the
postconditions through V.eq / V.true / V.raises.

 * SymV:  inputs are symbolic (all dimensions, all values); each postcondition
   is an obligation discharged by the term normaliser and z3 on every path.
 * ConV:  inputs are concrete and random (or taken from a replay file); the
   postconditions are evaluated on the unmodified package under CPython/numpy.
"""
import fnmatch
import functools
import inspect
import itertools
import json
import os
import random
import sys
import time
import traceback
import warnings
import numpy as np

INTFRAC = float(os.environ.get("VP_INTFRAC", "0.04"))  # share of arrays of integer dtype in concrete runs
FLOATS = ("C08", "C09", "C15", "C16", "C18")  # in-place arithmetic: NumPy refuses integer arrays with an exception

REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, fns, cases, modes, trials, budget, bound, note, tol, when=None):
        self.when = when
        self.prop, self.name, self.fn, self.fns = prop, name, fn, fns
        self.cases = cases
        self.modes = modes
        self.trials = trials
        self.budget = budget
        self.bound = bound
        self.note = note
        self.tol = tol

    def tasks(self):
        ks = list(self.cases)
        for vals in itertools.product(*[self.cases[k] for k in ks]):
            case = dict(zip(ks, vals))
            if self.when is None or self.when(**case):
                yield case


def contract(prop, fns=(), cases=None, modes=("sym", "con"), trials=25, budget=60, bound=None, note="", tol=1e-7,
             when=None):
    """fns: the functions of /repo this contract specifies.
    bound: dims to make concrete (name -> list of values) if the symbolic run
    leaves the supported subset: the result is then labelled bounded."""
    def deco(f):
        name = f.__name__
        assert (prop, name) not in REGISTRY, name
        REGISTRY[(prop, name)] = Contract(prop, name, f, tuple(fns), cases or {}, modes, trials, budget, bound,
                                          note or (f.__doc__ or "").strip(), tol, when)
        return f
    return deco


class Skip(BaseException):
    """precondition not met by this trial"""


class Violated(Exception):
    pass


# ===================================================================== symbolic
class SymV:
    symbolic = True

    def __init__(self, fixed=None):
        from . import core, arrays, terms, shim, rules, assumed
        self.core, self.arrays, self.T, self.shim, self.rules, self.assumed = \
            core, arrays, terms, shim, rules, assumed
        self.P = core.PATH
        self.fixed = fixed or {}
        self.obl = []
        self.failhints = {}
        self.names = set()
        self.np = assumed.module("numpy")
        self.la = assumed.module("scipy.linalg")
        self.choices = {}
        self.dimmemo = {}
        import opinf
        self.opinf = opinf

    # inputs
    def dim(self, name, lo=1, hi=5, split=True):
        if name not in self.dimmemo:
            self.dimmemo[name] = self._dim(name, lo, hi, split)
        return self.core.mk(self.core.ip(self.dimmemo[name]))

    def _dim(self, name, lo, hi, split):
        if name in self.fixed:
            v = self.fixed[name]
            if isinstance(v, (list, tuple)):
                v = v[self.P.choose(len(v), name)]
            self.choices["dim:" + name] = v
            return v
        c = self.core
        self.P.dims[name] = lo
        self.P.assume(c.zvar(name) >= lo)
        x = c.SI(c.IP.var(name))
        if split and lo == 1:
            if self.P.choose(2, name + "==1?") == 0:
                self.P.assume(c.zvar(name) >= 2)
                self.P.dims[name] = 2
            else:
                self.P.assume(c.zvar(name) == 1)
                self.P.learn_eq(c.IP.var(name) - c.IP.const(1))
                return 1
        return c.mk(c.IP.var(name))

    def array(self, name, *shape, sign=None):
        assert name not in self.names, name
        self.names.add(name)
        return self.arrays.fresh_array(name, shape, "f", sign)

    def spd(self, name, n):
        """an arbitrary symmetric positive definite matrix, given by its square root"""
        R = self.array(name, n, n)
        self.P.sym2.add(name)
        W = self.tab((n, n), lambda i, j: self.sum(n, lambda k: R[i, k] * R[k, j]))
        self.P.memo.setdefault("spd", []).append((W, R))
        return W

    def nonzero(self, name, *shape):
        """an array of nonzero reals"""
        return self.array(name, *shape, sign="nz")

    def descending(self, name, n):
        """n positive reals in descending order"""
        x = self.array(name, n, sign="pos")
        self.P.desc.add(name)
        return x

    def generic(self, name, *shape):
        """real entries in general position (no degenerate statistics)"""
        return self.array(name, *shape)

    def locs(self, name, p, n):
        """p arbitrary indices in [0, n)"""
        return self.arrays.index_array(name, p, n)

    def real(self, name, sign=None):
        return self.array(name, sign=sign).item()

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        c = self.core
        if isinstance(n, int) and n == 1:
            return 0
        v = self.P.fresh("i_" + name)
        self.P.assume(c.inrange(v, n))
        return c.mk(c.IP.var(v))

    def choice(self, name, opts):
        opts = list(opts)
        if name in self.fixed:
            v = self.fixed[name]
            self.choices[name] = opts.index(v) if v in opts else v
            return v
        i = self.P.choose(len(opts), name) if len(opts) > 1 else 0
        self.choices[name] = i
        return opts[i]

    def assume(self, cond):
        if cond is True or cond is np.True_:
            return
        if cond is False or cond is np.False_:
            raise self.core.PathEnd("precondition")
        self.P.assume(cond)
        if self.P.check() == self.core.z3.unsat:
            raise self.core.PathEnd("precondition")
        self.P._learn(self.core.z3.simplify(self.core.zb(cond)))

    def assume_eq(self, name, lhs, rhs):
        """assume two arrays equal, as a rewrite rule (precondition such as V^T V = I)"""
        a, b = self.arrays.asarr(lhs), self.arrays.asarr(rhs)
        ok = self.assumed.equation_rule(name, lambda i: a.get(i), list(a.shape), lambda i: b.get(i))
        if not ok:
            raise self.core.Unsupported("precondition not expressible as a rewrite rule")

    # constructions used in specifications
    def tab(self, shape, f):
        """the array with elements f(i, j, ...)"""
        A, mk, po = self.arrays.A, self.core.mk, self.arrays.po
        return A(shape, lambda idx: po(f(*[mk(i) for i in idx])), "f")

    def sum(self, n, f):
        """sum of f(i) for i in range(n)"""
        core, T = self.core, self.T
        a = self.arrays
        return a.SR(T.psum(lambda v: a.po(f(core.mk(v))), core.IP.const(0), core.ip(n)))

    def mm(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = r @ x
        return r

    def inv(self, G):
        return self.assumed.inverse(G)

    def col(self, x, j):
        return x[:, j]

    def eye(self, n):
        return self.np.eye(n)

    def simp(self, x):
        """the same array, with its elements rewritten by the assumed contracts"""
        f = x.snap()
        return self.arrays.A(x.shape, lambda i: self.rules.reduce(f(i)), x.kind)

    def copy(self, x):
        if isinstance(x, self.arrays.A):
            return x.frozen()
        if isinstance(x, (list, tuple)):
            return [self.copy(y) for y in x]
        if isinstance(x, np.ndarray):
            return x.copy()
        return x

    # obligations
    def _add(self, label, ok, why="", definite=False, t=0.0):
        self.obl.append((label, ok, why, definite, t))
        return ok

    def same_shape(self, label, a, b):
        sa, sb = tuple(a), tuple(b)
        if len(sa) != len(sb):
            self._add(label + ".shape", False, f"shapes {sa} and {sb}", True)
            return False
        for p, q in zip(sa, sb):
            if not self.arrays.surely_eq(p, q):
                self._add(label + ".shape", False, f"shapes {sa} and {sb}", False)
                return False
        return True

    def eq(self, label, a, b, tol=None):
        t0 = time.time()
        A, asarr = self.arrays.A, self.arrays.asarr
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                any(isinstance(x, (A, np.ndarray, list, tuple)) for x in list(a) + list(b)):
            if len(a) != len(b):
                return self._add(label, False, "lengths differ", True)
            return all([self.eq(f"{label}[{i}]", x, y) for i, (x, y) in enumerate(zip(a, b))])
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self._add(label, a is b or a == b, f"{a!r} vs {b!r}", True)
        try:
            a, b = asarr(a), asarr(b)
        except self.core.Unsupported as ex:
            return self._add(label, False, f"unsupported: {ex}")
        if not self.same_shape(label, a.shape, b.shape):
            return False
        fails = []

        def case():
            idx = []
            for k in range(a.ndim):
                s = a.struct.get(k) or b.struct.get(k)
                if s is None and not self.P.feasible(self.core.cmp0(self.core.ip(a.shape[k]), "gt")):
                    return
                idx.append(self.arrays.axis_skolem(a.shape[k], s, f"{label}{k}"))
            fa, fb = a.get(tuple(idx)), b.get(tuple(idx))
            if a.kind == "b" or b.kind == "b":
                za, zb_ = self.core.zb_(fa), self.core.zb_(fb)
                if not self.P.entails(za == zb_):
                    fails.append(("Boolean elements differ", False, path_hints(self.P, self)))
                return
            r = self.T.is_zero(fa - fb)
            if not r.ok:
                fails.append((r.why, r.definite, path_hints(self.P, self)))

        try:
            self.P.locally(case)
        except self.core.Unsupported as ex:
            return self._add(label, False, f"unsupported: {ex}", t=time.time() - t0)
        if not fails:
            return self._add(label, True, t=time.time() - t0)
        why, definite, h = max(fails, key=lambda f: f[1])
        self.failhints[label] = h
        return self._add(label, False, why, definite, time.time() - t0)

    def true(self, label, cond):
        t0 = time.time()
        if isinstance(cond, (bool, np.bool_)):
            return self._add(label, bool(cond), "" if cond else "is False", not cond)
        if isinstance(cond, self.core.SB):
            ok = self.P.entails(cond.z)
            return self._add(label, ok, "" if ok else "not entailed: " + str(cond.z)[:200], t=time.time() - t0)
        return self._add(label, bool(cond), "", False)

    def shape(self, label, x, shape):
        ok = self.same_shape(label, x.shape, shape)
        if ok:
            self._add(label + ".shape", True)
        return ok

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            return self._add(label, True)
        except (self.core.Unsupported,):
            raise
        except Exception as ex:
            return self._add(label, False, f"raised {type(ex).__name__}: {ex}")
        return self._add(label, False, "did not raise", True)

    def note(self, s):
        self.P.notes.append(("note", s))

    def differ(self, ds):
        """precondition: not all of ds are equal"""
        c = self.core
        z = c.z3.Or(*[c.cmp0(c.ip(x) - c.ip(ds[0]), "ne") for x in ds[1:]])
        self.P.assume(z)
        return self.P.check() != c.z3.unsat

    def instantiate(self, *idx):
        """use the array equalities the code tested at this index"""
        ix = tuple(self.core.ip(i) for i in idx)
        for z, shape, fa, fb in self.P.memo.get("alleq", []):
            if len(shape) == len(ix):
                inr = [self.core.cmp0(self.core.ip(d) - i, "gt") for d, i in zip(shape, ix)]
                try:
                    e = self.T.real_cmp(self.T.inv_rewrite(fa(ix) - fb(ix)), "eq")
                except self.core.Unsupported:
                    continue
                self.P.assume(self.core.z3.Implies(self.core.z3.And(z, *inr), e))
        if self.P.check() == self.core.z3.unsat:
            raise self.core.PathEnd("contradiction")

    def nonsingular(self, G):
        """precondition: G is nonsingular (recorded; used by inv)"""
        return None

    def is_sym(self):
        return True


# ==================================================================== concrete
class ConV:
    symbolic = False

    def __init__(self, rng, hints=None, tol=1e-7):
        import opinf
        import scipy.linalg
        self.opinf = opinf
        self.np = np
        self.la = scipy.linalg
        self.rng = rng
        self.hints = hints or {}
        self.log = {}
        self.fails = []
        self.nobl = 0
        self.tol = tol
        self.ints = False

    def dim(self, name, lo=1, hi=5, split=True):
        if "dim:" + name in self.log:
            return self.log["dim:" + name]
        h = self.hints.get("dim:" + name)
        v = int(h) if h is not None else int(self.rng.integers(lo, hi + 1))
        if h is None and lo == 1 and self.rng.random() < 0.1:
            v = 1
        v = max(lo, min(v, max(hi, 12)))
        self.log["dim:" + name] = v
        return v

    def array(self, name, *shape, sign=None):
        x = self.rng.normal(size=shape)
        s = self.rng.random()
        if s < 0.15:
            x = x * 3.0
        elif s < 0.21 + INTFRAC:
            x = np.round(x * 2)
            if sign == "pos":
                x[x == 0] = 1.0
        if sign in ("pos", "nonneg"):
            x = np.abs(x) + (0.1 if sign == "pos" else 0)
        if self.ints and sign is None and 0.21 <= s < 0.21 + INTFRAC:
            x = x.astype(int)
        if x.ndim >= 1 and x.size:
            s = self.rng.random()
            if x.ndim >= 2 and s < 0.2:
                x = np.asfortranarray(x)
            elif s < 0.3:  # a view with negative strides
                x = np.ascontiguousarray(x[::-1])[::-1]
            elif s < 0.4:  # every other element of a longer array
                y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
                y[..., ::2] = x
                x = y[..., ::2]
        return x

    def spd(self, name, n):
        M = self.rng.normal(size=(n, n))
        return M.T @ M + np.eye(n)

    def descending(self, name, n):
        return np.sort(np.abs(self.rng.normal(size=n)) * self.rng.choice([0.1, 1.0, 20.0]) + 0.01)[::-1].copy()

    def nonzero(self, name, *shape):
        x = self.array(name, *shape)
        return np.where(x == 0, 0.5, x)

    def generic(self, name, *shape):
        return self.rng.normal(size=shape) * self.rng.choice([0.1, 1.0, 20.0]) + self.rng.choice([0.0, 1.0, -5.0])

    def locs(self, name, p, n):
        return self.rng.integers(0, n, p)

    def real(self, name, sign=None):
        x = float(self.rng.normal())
        if sign in ("pos", "nonneg"):
            x = abs(x) + 0.1
        return x

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        return int(self.rng.integers(0, n))

    def choice(self, name, opts):
        opts = list(opts)
        h = self.hints.get(name)
        i = int(h) if isinstance(h, int) and 0 <= h < len(opts) else int(self.rng.integers(0, len(opts)))
        self.log[name] = i
        return opts[i]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def assume_eq(self, name, a, b):
        if not np.allclose(a, b, rtol=1e-8, atol=1e-8):
            raise Skip()

    def tab(self, shape, f):
        out = np.empty(shape)
        for idx in itertools.product(*[range(n) for n in shape]):
            out[idx] = f(*idx)
        return out

    def sum(self, n, f):
        return sum((f(i) for i in range(n)), 0.0)

    def simp(self, x):
        return x

    def mm(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = r @ x
        return r

    def inv(self, G):
        return np.linalg.inv(G)

    def instantiate(self, *idx):
        pass

    def nonsingular(self, G):
        G = np.atleast_2d(G)
        if np.linalg.cond(G) > 1e4:
            raise Skip()

    def eye(self, n):
        return np.eye(n)

    def copy(self, x):
        if isinstance(x, np.ndarray):
            return x.copy()
        if isinstance(x, (list, tuple)):
            return [self.copy(y) for y in x]
        return x

    def _fail(self, label, why):
        self.fails.append((label, why))
        return False

    def shape(self, label, x, shape):
        self.nobl += 1
        if tuple(np.shape(x)) != tuple(shape):
            return self._fail(label + ".shape", f"shape {np.shape(x)}, expected {tuple(shape)}")
        return True

    def eq(self, label, a, b, tol=None):
        self.nobl += 1
        tol = tol or self.tol
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(
                isinstance(x, (np.ndarray, list, tuple)) for x in list(a) + list(b)):
            if len(a) != len(b):
                return self._fail(label, f"lengths {len(a)} and {len(b)}")
            return all([self.eq(f"{label}[{i}]", x, y, tol) for i, (x, y) in enumerate(zip(a, b))])
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            ok = a is b or (a is not None and b is not None and a == b)
            return True if ok else self._fail(label, f"{a!r} vs {b!r}")
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self._fail(label, f"shapes {a.shape} and {b.shape}")
        if a.size == 0:
            return True
        if a.dtype == bool or b.dtype == bool:
            return True if (a == b).all() else self._fail(label, "Boolean arrays differ")
        try:
            a, b = a.astype(float), b.astype(float)
        except (TypeError, ValueError):
            ok = bool(np.all(a == b))
            return True if ok else self._fail(label, "values differ")
        bad = ~(np.isfinite(a) & np.isfinite(b))
        if bad.any():
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            if not same[bad].all():
                return self._fail(label, "non-finite values differ")
            a, b = a[~bad], b[~bad]
            if a.size == 0:
                return True
        scale = max(np.abs(a).max(), np.abs(b).max(), 1.0)
        d = np.abs(a - b).max()
        if d > tol * scale:
            return self._fail(label, f"max difference {d:.3g} (scale {scale:.3g})")
        return True

    def true(self, label, cond):
        self.nobl += 1
        return True if bool(np.all(cond)) else self._fail(label, "is False")

    def raises(self, label, exc, f):
        self.nobl += 1
        try:
            f()
        except exc:
            return True
        except Exception as ex:
            return self._fail(label, f"raised {type(ex).__name__}: {ex}")
        return self._fail(label, "did not raise")

    def note(self, s):
        pass


# ==================================================================== running
def load_contracts(prop=None):
    import importlib
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    if d not in sys.path:
        sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_") and (prop is None or f.startswith(prop.lower())):
            importlib.import_module(f[:-3])


def run_symbolic(c, case, budget, fixed=None):
    from . import core, shim
    seen = {}
    npaths = 0
    stats = {"queries": 0, "ztime": 0.0}
    cover = False
    cov = set()
    rules_used = {}
    t0 = time.time()
    unsupported = []
    exceptions = []

    def run():
        V = SymV(fixed)
        V.case = case
        core.PATH._V = V
        try:
            c.fn(V, **case)
        except Skip:
            raise core.PathEnd("precondition")
        return V

    def on_path(out, P):
        nonlocal npaths, cover
        stats["queries"] += P.queries
        stats["ztime"] += P.ztime
        for r in P.rules:
            if r.used:
                rules_used[r.name] = rules_used.get(r.name, 0) + r.used
        V = getattr(P, "_V", None)
        if out[0] in ("done",):
            npaths += 1
            if not P.feasible(True):
                pass
            cover = True
        elif out[0] == "infeasible" or out[0] == "exception" and str(P.solver.check()) == "unsat":
            return
        hints = path_hints(P, V) if out[0] != "infeasible" else {}
        for label, ok, why, definite, t in (V.obl if V else []):
            o = seen.setdefault(label, {"ok": True, "paths": 0, "why": "", "definite": False, "hints": None, "t": 0.0})
            o["paths"] += 1
            o["t"] += t
            if not ok and o["ok"]:
                o.update(ok=False, why=why, definite=definite, hints=V.failhints.get(label) or hints)
        if out[0] == "unsupported":
            fr = where(out[2])
            unsupported.append(f"{out[1]} {fr}")
        elif out[0] == "exception":
            fr = where(out[2])
            exceptions.append((f"{out[1]} {fr}", hints))

    outs = core.explore(run, budget_s=budget, on_path=on_path)
    over = [o for o in outs if o[0] == "budget"]
    if over:
        unsupported.append(f"time or path budget exhausted with {over[0][1]} paths left")
    return {"obligations": seen, "paths": npaths, "unsupported": unsupported[:5], "n_unsupported": len(unsupported),
            "exceptions": exceptions[:5], "stats": stats, "cover": cover, "time": time.time() - t0,
            "rules": rules_used, "assumed": dict(shim.ASSUMED)}


def where(ex):
    if ex is None:
        return ""
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if "/repo/" in f.filename or "contracts/" in f.filename:
            return f"at {os.path.basename(f.filename)}:{f.lineno}"
    return f"at {tb[-1].filename}:{tb[-1].lineno}" if tb else ""


def path_hints(P, V):
    h = dict(V.choices) if V else {}
    try:
        s = P.solver
        for b in (6, 20):
            s.push()
            from . import core
            for d in P.dims:
                s.add(core.zvar(d) <= b)
            r = s.check()
            if str(r) == "sat":
                m = s.model()
                for d in P.dims:
                    v = m.eval(core.zvar(d), model_completion=True)
                    h["dim:" + d] = v.as_long()
                s.pop()
                break
            s.pop()
    except Exception:
        pass
    return h


def run_concrete(c, case, ntrials, budget, seed, hints=None, only=None, known=()):
    """-> dict(trials, distinct, violation or None)"""
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    t0 = time.time()
    n = skipped = 0
    nobl = 0
    distinct = set()
    viol = None
    found = {}
    sample = None
    trial_ids = range(ntrials) if only is None else [only]
    for t in trial_ids:
        if time.time() - t0 > budget:
            break
        ss = [seed, t, *[ord(ch) for ch in (c.prop + c.name + json.dumps(case, sort_keys=True, default=str))]]
        np.random.seed(abs(hash_ints(ss)) % (2 ** 32))
        random.seed(hash_ints(ss))
        rng = np.random.default_rng(ss)
        V = ConV(rng, hints if (hints and (only is not None or t % 2 == 0)) else None, c.tol)
        V.ints = c.prop not in FLOATS
        V.case = case
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c.fn(V, **case)
        except Skip:
            skipped += 1
            continue
        except Exception as ex:
            V.fails.append(("exception", f"{type(ex).__name__}: {ex} {where(ex)}\n"
                            + "".join(traceback.format_exception(ex)[-6:])))
        n += 1
        nobl += V.nobl
        distinct.add(json.dumps(V.log, sort_keys=True, default=str))
        sample = sample or dict(V.log) or None
        rest = []
        for label, why in V.fails:
            k = next((k for k in known if fnmatch.fnmatch(label, k.get("label", "*")) and all(
                str(case.get(x)) == str(y) for x, y in k.get("case", {}).items())
                and k.get("why", "") in why), None)
            if k:
                found[k["id"]] = k
            else:
                rest.append((label, why))
        V.fails = rest
        if V.fails:
            viol = {"contract": c.name, "property": c.prop, "case": case, "trial": t, "seed": seed,
                    "hints": hints if (hints and (only is not None or t % 2 == 0)) else None,
                    "inputs": V.log, "failures": V.fails[:10]}
            break
    return {"trials": n, "skipped": skipped, "checks": nobl, "distinct": len(distinct), "violation": viol,
            "time": time.time() - t0, "known": list(found.values()), "sample": sample}


def hash_ints(xs):
    h = 1469598103934665603
    for x in xs:
        h = ((h ^ (int(x) & 0xFFFFFFFF)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h
