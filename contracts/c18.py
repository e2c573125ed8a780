"""C18: regularization selection returns the best stable candidate.

sym: the objective is arbitrary (every call returns an arbitrary number or inf),
the optimiser is replaced by its assumed contract (it returns some point within
the bounds it is given, the objective there, and success or not)."""
import contextlib
import warnings
from vp.harness import contract, Skip

INF = float("inf")
CAP = 1e20


class Objective:
    """an arbitrary objective function that records its calls"""

    def __init__(self, V, npar=1, allinf=False):
        self.V, self.calls, self.allinf = V, [], allinf
        if not V.symbolic:
            g = V.rng
            self.c, self.s = g.normal(size=npar) * 2, g.choice([1e-3, 1.0, 1e3])
            self.cut, self.big = g.choice([-1, 0, 1]) * g.random() * 3, g.choice([1.0, 1.0, 1e22])
            self.bump = g.random() < 0.3

    def value(self, x):
        np = self.V.np
        if self.allinf:
            return INF
        z = np.atleast_1d(np.log10(x))
        v = self.s * float(((z - self.c[:z.size]) ** 2).sum()) * self.big
        if self.bump:
            v += abs(self.s * np.sin(5 * z.sum()))
        if self.cut > 0 and z[0] > self.cut or self.cut < 0 and z[0] < self.cut:
            return INF
        return v

    def __call__(self, x):
        V, i = self.V, len(self.calls)
        if V.symbolic:
            for p, v in self.calls:
                if same(V, x, p):
                    self.calls.append((x, v))
                    return v
            v = INF if self.allinf or V.choice(f"inf{i}", [False, True]) else V.real(f"f{i}")
        else:
            v = self.value(x)
        self.calls.append((x, v))
        return v


def same(V, a, b):
    """the same candidate"""
    np = V.np
    if not V.symbolic:
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    f = V.arrays.asarr
    a, b = f(a), f(b)
    if a.ndim != b.ndim:
        return False
    if a.ndim:
        return all(same(V, a[i], b[i]) for i in range(b.shape[0]))
    return V.T.is_zero(a.get(()) - b.get(())).ok


def candidates(V, layout, n):
    if layout == "scalar":
        return [V.real(f"c{i}", sign="pos") for i in range(n)]
    if layout == "column":
        return [V.array(f"c{i}", 1, sign="pos") for i in range(n)]
    p = 2
    return [V.array(f"c{i}", p, sign="pos") for i in range(n)]


def search(V, f, cand, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return V.opinf.utils.gridsearch(f, cand, **kw)


def grid_calls(V, f, cand, scalar):
    """the evaluations at the candidates: every candidate is evaluated"""
    pts = [c if scalar or V.np.ndim(c) else c for c in cand]
    if scalar:
        pts = [c[0] if V.np.ndim(c) else c for c in cand]
    calls = f.calls[:len(cand)]
    V.true("all candidates evaluated", len(calls) == len(cand) and
           all(any(same(V, x, c) for x, _ in calls) for c in pts))
    return calls


GRID = {"layout": ["scalar", "column", "vector"], "n": [1, 2, 3], "only": [True, False]}


@contract("C18", fns=["gridsearch"], cases=GRID, trials=25, budget=200,
          when=lambda layout, n, only: n <= (2 if not only and layout != "vector" else 3))
def winner_is_no_worse_than_any_candidate(V, layout, n, only):
    if not V.symbolic and n > 1:
        n = int(V.rng.integers(2, 12))
    scalar = layout != "vector"
    cand = candidates(V, layout, n)
    if not V.symbolic:
        V.rng.shuffle(cand)
        cand = [c * 10.0 ** V.rng.integers(-4, 4) for c in cand]
        if V.rng.random() < .3:
            cand.append(cand[0])
        n = len(cand)
    given = V.copy(cand)
    f = Objective(V, 2 if layout == "vector" else 1)
    try:
        x = search(V, f, cand, gridsearch_only=only)
    except RuntimeError:
        calls = grid_calls(V, f, given, scalar)
        V.true("fails only if every candidate is inadmissible", all(v == INF for _, v in calls))
        V.true("no optimisation", len(f.calls) == n)
        return
    V.eq("candidates unchanged", cand, given)
    calls = grid_calls(V, f, given, scalar)
    V.true("inadmissible candidates are not returned", any(v is not INF and v != INF for _, v in calls))
    V.true("no further evaluations", not only or len(f.calls) == n)
    # the value at the returned point
    hit = [(p, v) for p, v in calls if same(V, x, p)]
    extra = f.calls[n:]
    ran = None
    if hit:
        val = hit[0][1]
    else:
        V.true("a candidate is returned", not only)
        if V.symbolic:
            ran = V.P.memo["optimizations"][-1]["result"]
            V.true("returned point is the optimum", same(V, x, 10 ** ran.x))
            val = ran.fun
            V.true("optimisation succeeded", bool(ran.success))
        else:
            V.true("a single point of the right shape", V.np.shape(x) == V.np.shape(calls[0][0]))
            val = f.value(x)
    V.true("returned point is admissible", val is not INF and bool(val < INF))
    for i, (p, v) in enumerate(calls):
        V.true(f"no worse than candidate {i}", v is INF or v == INF or val <= v)
    if V.symbolic and hit and not only and not ran:
        o = V.P.memo["optimizations"]
        V.true("one optimisation", len(o) == 1)
        r = o[0]["result"]
        V.true("optimum used when it succeeds and is better",
               not r.success or bool(r.fun >= val) or bool(r.fun >= CAP))
    if scalar and not only:
        within_bounds(V, f, calls, extra, x)


def within_bounds(V, f, calls, extra, x):
    """the optimisation searches between the neighbours of the grid winner"""
    best = None
    for i, (p, v) in enumerate(calls):
        if v is not INF and v != INF and (best is None or v < calls[best][1]):
            best = i
    pts = [p for p, _ in calls]
    if V.symbolic:
        pts = V.np.sort(pts) if len(pts) > 1 else pts
        w = [j for j in range(len(calls)) if same(V, pts[j], calls[best][0])][0]
    else:
        pts = sorted(pts)
        w = pts.index(calls[best][0])
    c = pts[w]
    lo = pts[w - 1] if w > 0 else c / 100
    hi = pts[w + 1] if w < len(calls) - 1 else c * 100
    if V.symbolic:
        b = V.P.memo["optimizations"][0]["bounds"]
        V.true("lower search bound", b[0] >= V.np.log10(lo))
        V.true("upper search bound", b[1] <= V.np.log10(hi))
        return
    e = 1e-9
    for p, _ in extra:
        V.true("evaluated within the search bounds", lo * (1 - e) <= p <= hi * (1 + e))


@contract("C18", fns=["gridsearch"], cases={"layout": ["scalar", "vector"], "n": [1, 2, 4, 7], "only": [True, False]},
          modes=("con",), trials=20)
def undefined_values_never_win(V, layout, n, only):
    """a candidate where the objective is nan (or infinite) loses against every candidate with a number"""
    cand = [10.0 ** V.rng.uniform(-4, 4) if layout == "scalar" else 10.0 ** V.rng.uniform(-4, 4, 2) for _ in range(n)]
    vals = [V.rng.choice([float("nan"), INF, V.rng.random()], p=[.4, .2, .4]) for _ in range(n)]
    if V.rng.random() < .2:
        vals = [float("nan")] * n

    def f(x):
        for c, v in zip(cand, vals):
            if V.np.all(c == x):
                return v
        return 5.0 + abs(float(V.np.sum(V.np.log10(x))))

    good = [v for v in vals if v < INF]
    if not good:
        V.raises("RuntimeError", RuntimeError, lambda: search(V, f, V.copy(cand), gridsearch_only=only))
        return
    x = search(V, f, V.copy(cand), gridsearch_only=only)
    V.true("the best number wins", f(x) <= min(good))


@contract("C18", fns=["gridsearch"], cases={"layout": ["scalar", "column", "vector"], "n": [1, 2, 3], "only": [True, False]}, trials=3)
def all_inadmissible_fails(V, layout, n, only):
    cand = candidates(V, layout, n)
    f = Objective(V, 2, allinf=True)
    V.raises("RuntimeError", RuntimeError, lambda: search(V, f, cand, gridsearch_only=only))
    V.true("every candidate was tried", len(f.calls) == n)


# ------------------------------------------------------------- stability tests
def regtest(V, kind, r, K, bound, par=None, inp=None):
    q0 = V.array("q0", r)
    if kind == "d":
        return V.opinf.utils.DiscreteRegTest(q0, K, par, inp, bound), q0, K
    t = V.array("t", K)
    return V.opinf.utils.ContinuousRegTest(q0, t, par, inp, bound), q0, t


def far(V, S, q0, bound):
    """some entry deviates from the initial condition by more than the bound"""
    return V.np.any(V.np.abs(S - q0[:, None]) > bound)


@contract("C18", fns=["DiscreteRegTest.unstable", "ContinuousRegTest.unstable", "_RegTest.evaluate"],
          cases={"kind": ["d", "c"], "bounded": [True, False], "par": [True, False], "inp": [True, False]})
def stability_test(V, kind, bounded, par, inp):
    r, K = V.dim("r", hi=3), V.dim("K", lo=2, hi=4)
    mu = V.array("mu", 2) if par else None
    u = (V.array("U", 2, K) if kind == "d" else (lambda t: t)) if inp else None
    bound = V.real("bound", sign="pos") if bounded else None
    tc, q0, span = regtest(V, kind, r, K, bound, mu, u)
    S = V.array("S", r, K)
    calls = []

    class Model:
        def predict(self, *args, **kwargs):
            calls.append((args, kwargs))
            return V.copy(S)

    want = bool(far(V, S, q0, bound)) if bounded else False
    V.true("unstable", bool(tc.unstable(V.copy(S))) == want)
    V.true("passes", bool(tc.evaluate(Model(), method="M")) == (not want))
    V.true("one prediction", len(calls) == 1 and calls[0][1] == {"method": "M"})
    args = list(calls[0][0])
    V.true("arguments", len(args) == 3 + par)
    if par:
        V.eq("parameter", args.pop(0), mu)
    V.eq("initial condition", args[0], q0)
    V.eq("time", args[1], span)
    V.true("inputs", args[2] is u)
    new = V.array("new", V.dim("n", hi=4))
    cp = tc.copy(new)
    V.true("copy", type(cp) is type(tc) and cp is not tc)
    V.eq("new initial condition", cp.initial_conditions, new)
    V.true("same settings", cp.bound is tc.bound and cp.parameters is tc.parameters)
    a2 = list(cp.predict_args)
    if par:
        V.true("parameter kept", a2.pop(0) is mu)
    V.eq("initial condition of the copy", a2[0], new)
    V.true("rest kept", a2[1] is span and a2[2] is u)
    V.eq("original unchanged", tc.initial_conditions, q0)
    if not V.symbolic:
        bad = S.copy()
        bad[int(V.rng.integers(r)), int(V.rng.integers(K))] = V.rng.choice([INF, -INF, float("nan")])
        V.true("nonfinite solutions are unstable", tc.unstable(bad))
        if kind == "c":
            V.true("incomplete solutions are unstable", tc.unstable(S[:, :-1]))
            V.true("incomplete solutions are unstable", not tc.evaluate(type("M", (), {"predict": lambda s, *a: S[:, :1]})()))


# ---------------------------------------- regularization selection (abstract model)
@contextlib.contextmanager
def gridsearch_contract(V, stub):
    """the caller is checked against the contract of gridsearch, not its body"""
    u = V.opinf.utils
    mods = [m for m in (u, u._gridsearch) if hasattr(m, "gridsearch")]
    old = [(m, m.gridsearch) for m in mods]
    try:
        for m in mods:
            m.gridsearch = stub
        yield
    finally:
        for m, g in old:
            m.gridsearch = g


class Selection:
    """a ROM whose model predicts arbitrary data depending on its regularizer"""

    def __init__(self, V, kind, s, parametric=False, inputs=False, ntest=0, bayes=False):
        self.V, self.kind, self.s, self.parametric = V, kind, s, parametric
        op, S = V.opinf, self
        self.n, self.r = V.dim("n", hi=4, split=False), V.dim("r", hi=3, split=False)
        self.C, self.E = V.array("C", self.r, self.n), V.array("E", self.n, self.r)
        self.ks = [V.dim(f"k{i}", lo=3, hi=6, split=False) for i in range(s)]
        self.Q = [V.array(f"Q{i}", self.n, k) for i, k in enumerate(self.ks)]
        self.Q0 = V.copy(self.Q)
        self.mu = [V.array(f"mu{i}", 2) for i in range(s)] if parametric else None
        self.has_inputs = inputs
        self.ntest = ntest
        self.log, self.fits, self.fitdata, self.kwlog = [], [], [], []
        self.preds, self.fault = {}, {}
        self.state = None           # the regularizer the model was last (re)fitted with
        self.Z = [V.array(f"Z{i}", self.n, k) for i, k in enumerate(self.ks)] if kind == "c" else None
        if kind == "c":
            self.t = [self.clock(f"t{i}", k) for i, k in enumerate(self.ks)]
            a = V.array("a", 2)
            self.u = [(lambda tt, i=i: a * (tt + i)) for i in range(s)] if inputs else None
        else:
            self.u = [V.array(f"U{i}", 2, k + ntest) for i, k in enumerate(self.ks)] if inputs else None

        class Basis(op.basis.BasisTemplate):
            def fit(self, states):
                S.fitdata.append(V.copy(states))
                return self

            def compress(self, states):
                return S.C @ states

            def decompress(self, states_compressed, locs=None):
                return S.E @ states_compressed

        class Solver:
            def __init__(self):
                self.regularizer = "stale"

            def reset(self):
                self.regularizer = None

        Base = {("c", False): op.models.ContinuousModel, ("d", False): op.models.DiscreteModel,
                ("c", True): op.models.ParametricContinuousModel,
                ("d", True): op.models.ParametricDiscreteModel}[kind, parametric]

        class Model(Base):
            def __init__(self):
                self._has_inputs = inputs
                self.__solver = Solver()

            @property
            def solver(self):
                return self.__solver

            def fit(self, *args):
                S.fits.append((S.model.solver.regularizer, args))
                S.state = self.solver.regularizer
                return self

            def _fit_solver(self, *args):
                S.fits.append((S.model.solver.regularizer, args))
                S.state = None

            def refit(self):
                S.state = self.solver.regularizer
                return self

            def predict(self, *args, **kwargs):
                return S.predict(args, kwargs)

        self.basis, self.model = Basis(), Model()

    def rom(self):
        op = self.V.opinf
        cls = op.roms.ParametricROM if self.parametric else op.roms.ROM
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rom = cls(self.model, basis=self.basis)
        return rom

    def clock(self, name, k):
        V = self.V
        t = V.array(name, k)
        return t if V.symbolic else V.np.cumsum(V.np.abs(t) + .1)

    # the prediction from the initial condition of trajectory i with a regularizer
    def table(self, i, K):
        V = self.V
        if i not in self.preds:
            sc = [1.0, 1.0] if V.symbolic else V.rng.choice([.1, 1.0, 1.0, 40.0], 2)
            self.preds[i] = (V.array(f"P{i}", self.r, K) * sc[0], V.array(f"R{i}", self.r, K) * sc[1])
        return self.preds[i]

    def solution(self, i, K, reg):
        P, R = self.table(i, K)
        Y = P + reg * R
        kind = None if self.V.symbolic else self.fault.get((i, float(reg)))
        if kind == "short":
            return Y[:, :-1]
        if kind is not None:
            Y[0, -1] = kind
        return Y

    def predict(self, args, kwargs):
        V = self.V
        args = list(args)
        self.kwlog.append(kwargs)
        V.true("number of arguments", len(args) == 3 + self.parametric)
        mu = args.pop(0) if self.parametric else None
        q0, span, u = args
        for i in [*range(self.s), *self.tests]:
            want = self.tests[i][0] if isinstance(i, str) else (self.C @ self.Q0[i])[:, 0]
            if near(V, q0, want):
                break
        else:
            V.true("known initial condition", False)
            raise Skip()
        if isinstance(i, str):
            _, Kt, tmu, tu, _, _ = self.tests[i]
            V.true("test case: inputs", u is tu)
            if self.parametric:
                V.true("test case: parameter", mu is tmu)
            K = Kt if self.kind == "d" else Kt.shape[0]
            V.true("test case: time", span is Kt)
        else:
            K = self.span(i, span, u)
            if self.parametric:
                V.eq("parameter", mu, self.mu[i])
        self.log.append((i, self.state))
        return self.solution(i, K, self.state)

    def span(self, i, span, u):
        V, k = self.V, self.ks[i]
        if self.kind == "d":
            K = k - 1 + self.ntest
            V.true("number of iterations", span == K)
            if self.u is None:
                V.true("no inputs", u is None)
            else:
                V.eq("inputs for all iterations", u[..., :K - 1], self.u[i][..., :K - 1])
            return K
        V.true("input function", u is (self.u[i] if self.u else None))
        if not self.ntest:
            V.eq("time domain", span, self.t[i])
            return k
        V.eq("training times", span[:k], self.t[i])
        V.true("times increase", V.np.all(V.np.diff(span) > 0))
        V.true("testing times", span[-1] >= self.t[i][-1] + self.ntest * (1 - 1e-9))
        return span.shape[0]

    # the documented training error of the model with a regularizer
    def error(self, reg, margin):
        V = self.V
        np = V.np
        for name, (q0, Kt, _, _, bound, _) in self.tests.items():
            K = Kt if self.kind == "d" else Kt.shape[0]
            S = self.solution(name, K, reg)
            if not V.symbolic and not np.isfinite(S).all() or not V.symbolic and S.shape[1] != K:
                return INF
            if bound is not None and bool(far(V, S, q0, bound)):
                return INF
        total = 0
        for i in range(self.s):
            X = self.C @ self.Q0[i]
            if self.kind == "d":
                X = X[:, :-1]
            S = self.solution(i, self.preds[i][0].shape[1], reg)
            if not V.symbolic and (S.shape != self.preds[i][0].shape or not np.isfinite(S).all()):
                return INF
            k = X.shape[1]
            mean = np.mean(X, axis=1).reshape((-1, 1))
            limit = margin * np.abs(X - mean).max()
            if not bool(limit == 0) and bool(np.abs(S - mean).max() > limit):
                return INF
            D = X - S[:, :k]
            if self.kind == "c":
                nrm = lambda Y: sp_trapezoid(V, np.sum(np.abs(Y) ** 2, axis=0), self.t[i]) ** (1 / 2)
                total = total + nrm(D) / nrm(X)
            else:
                total = total + V.opinf.post.frobenius_error(X, S[:, :k])[1]
        return total / self.s

    def add_test(self, name, bounded):
        V, op = self.V, self.V.opinf
        K = V.dim("K" + name, lo=2, hi=4, split=False)
        q0 = V.array("q0" + name, self.n)
        bound = V.real("b" + name, sign="pos") if bounded else None
        mu = V.array("mu" + name, 2) if self.parametric else None
        u = None
        if self.has_inputs:
            u = V.array("U" + name, 2, K) if self.kind == "d" else (lambda t: t)
        span = K if self.kind == "d" else V.array("t" + name, K)
        cls = op.utils.DiscreteRegTest if self.kind == "d" else op.utils.ContinuousRegTest
        tc = cls(q0, span, mu, u, bound)
        self.tests[name] = (self.C @ q0, span, mu, u, bound, tc)
        return tc

    def run(self, cand, **kw):
        one = self.data == "single"
        Q = self.Q[0] if one else self.Q
        u = self.u[0] if one and self.u else self.u
        args = [cand]
        if self.kind == "c":
            args.append(self.t[0] if one else self.t)
        if self.parametric:
            args.append(self.mu)
        args.append(Q)
        rom = self.rom()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.kind == "c":
                kw.setdefault("ddts", self.Z[0] if one else self.Z)
                out = rom.fit_regselect_continuous(*args, input_functions=u, **kw)
            else:
                out = rom.fit_regselect_discrete(*args, inputs=u, **kw)
        self.V.true("returns self", out is rom)
        return rom


def sp_trapezoid(V, y, t):
    return V.np.sum(V.np.diff(t) * (y[1:] + y[:-1]) / 2)


def near(V, a, b):
    if not V.symbolic:
        return V.np.shape(a) == V.np.shape(b) and bool(V.np.allclose(a, b, rtol=1e-10, atol=1e-12))
    A = V.arrays
    if len(a.shape) != 1 or len(b.shape) != 1 or not A.surely_eq(a.shape[0], b.shape[0]):
        return False
    st = V.P.push_soft()
    try:
        i = A.axis_skolem(a.shape[0], None, "near")
        return V.T.is_zero(a.get((i,)) - b.get((i,))).ok
    finally:
        V.P.pop_soft(st)


SEL = {"kind": ["c", "d"], "data": ["single", 1, 2], "par": [False, True], "inp": [False, True], "tests": [0, 2], "fac": ["id", "vec"]}


@contract("C18", fns=["_BaseROM.fit_regselect_continuous", "_BaseROM.fit_regselect_discrete", "ROM.fit_regselect_continuous",
                      "ROM.fit_regselect_discrete", "_BaseROM._get_stability_limits", "_BaseROM._process_test_cases"],
          cases=SEL, trials=6, budget=60, when=lambda par, data, inp, fac, **k: not (par and data == "single") and (fac == "vec") == inp)
def selection_ranks_by_training_error(V, kind, data, par, inp, tests, fac):
    """the objective handed to the grid search is the documented training error, infinite
    for unstable models, and the model ends up fitted with the regularizer it returns"""
    ntest = 0
    if not V.symbolic:
        ntest = int(V.rng.integers(0, 3))
    S = Selection(V, kind, 1 if data == "single" else data, par, inp, ntest if kind == "d" else 0)
    S.data, S.tests = data, {}
    kw = {}
    margin = 5.0
    if not V.symbolic:
        V.np.random.seed(0)
        if kind == "d":
            kw["num_test_iters"] = ntest
        elif ntest:
            S.ntest = kw["test_time_length"] = max(V.np.mean(V.np.diff(t)) for t in S.t) * 3.5
        margin = float(V.rng.choice([1.5, 5.0, 50.0]))
        kw["stability_margin"] = margin
    elif data != "single":
        margin = V.real("margin", sign="pos")
        kw["stability_margin"] = margin
    tcs = [S.add_test(f"T{j}", bounded=j == 0) for j in range(tests)]
    if tests:
        kw["test_cases"] = tcs[0] if tests == 1 else tcs
    if not V.symbolic:
        q0s = [(S.C @ Q)[:, 0] for Q in S.Q0] + [t[0] for t in S.tests.values()]
        if any(near(V, a, b) for i, a in enumerate(q0s) for b in q0s[:i]):
            raise Skip()
    factory = (lambda c: c) if fac == "id" else (lambda c: c[0] + 2 * c[1])
    if fac == "vec":
        kw["regularizer_factory"] = factory
    new = lambda name: V.real(name, sign="pos") if fac == "id" else V.array(name, 2, sign="pos")
    cand = [new("c0"), new("c1")]
    winner = new("w")
    only = V.choice("only", [True, False])
    seen = []

    def stub(func, candidates, gridsearch_only=False, **k2):
        V.true("grid search over the candidates", len(candidates) == 2)
        for a, b in zip(candidates, cand):
            V.eq("candidate", a, b)
        V.true("gridsearch_only forwarded", gridsearch_only is only)
        pts = cand[:1 if data == 2 else 2] if V.symbolic else [*cand, *[new(f"x{j}") for j in range(3)], cand[0]]
        for j, c in enumerate(pts):
            reg = factory(c)
            if not V.symbolic and V.rng.random() < .3 and float(reg) not in [k[1] for k in S.fault] + [float(factory(c)) for c, _ in seen]:
                who = list(range(S.s)) + list(S.tests)
                what = ["short", float("nan"), INF] if kind == "c" else [float("nan"), INF, -INF]
                S.fault[who[int(V.rng.integers(len(who)))], float(reg)] = what[int(V.rng.integers(3))]
            seen.append((c, func(c)))
        return winner

    with gridsearch_contract(V, stub):
        S.run(cand, gridsearch_only=only, **kw)
    if V.symbolic and not seen:
        raise V.core.Unsupported("gridsearch is not called through opinf.utils")
    V.eq("regularizer of the solver", S.model.solver.regularizer, factory(winner))
    V.true("model fitted with it", S.state is not None)
    V.eq("model refitted with it", S.state, factory(winner))
    # the data
    V.true("solver fitted once", len(S.fits) == 1)
    V.true("stale regularizer dropped", S.fits[0][0] is None)
    V.true("basis calibrated once", len(S.fitdata) == 1)
    V.eq("basis data", S.fitdata[0], V.np.hstack(S.Q0))
    V.eq("states unchanged", S.Q, S.Q0)
    check_data(V, S)
    # the objective
    for j, (c, got) in enumerate(seen):
        want = S.error(factory(c), margin)
        if isinstance(want, float) and want == INF:
            V.true("unstable candidates are rejected", isinstance(got, float) and not got < INF)
        else:
            V.eq("training error", got, want)
    if kind == "c":
        V.true("options", all(k == {} for k in S.kwlog))


def check_data(V, S):
    H = V.np.hstack
    X = [S.C @ Q for Q in S.Q0]
    args = list(S.fits[0][1])
    if S.kind == "c":
        Y = [S.C @ Z for Z in S.Z]
        U = None if S.u is None else [V.tab((2, k), lambda i, j, u=u, t=t: u(t[j])[i]) for u, t, k in zip(S.u, S.t, S.ks)]
    else:
        Y, X = [x[:, 1:] for x in X], [x[:, :-1] for x in X]
        U = None if S.u is None else [u[..., :x.shape[1]] for u, x in zip(S.u, X)]
    if S.parametric:
        V.eq("parameters", list(args.pop(0)), S.mu)
    else:
        X, Y, U = H(X), H(Y), None if U is None else H(U)
    V.eq("model states", args[0], X)
    V.eq("model lhs", args[1], Y)
    if U is None:
        V.true("no inputs", args[2] is None)
    else:
        V.eq("model inputs", args[2], U)


class BayesSelection(Selection):
    """the solver's posterior is arbitrary; predictions depend on the drawn operators"""

    def __init__(self, V, *a, **k):
        super().__init__(V, *a, **k)
        S, op = self, V.opinf
        self.M, self.N = V.array("M", 2, 2), V.array("N", 2, 2)
        self.prec = [V.spd(f"prec{i}", 2) for i in range(2)]
        self.bad = []
        self.draws = []

        class Solver(op.lstsq.L2Solver):
            def __init__(self):
                self._reg = "stale"

            @property
            def regularizer(self):
                return self._reg

            @regularizer.setter
            def regularizer(self, reg):
                self._reg = reg

            def reset(self):
                self._reg = None

            def posterior(self):
                if any(self._reg is b for b in S.bad):
                    raise V.np.linalg.LinAlgError("singular")
                return S.means(self._reg), S.prec

        class Model(type(self.model)):
            def __init__(self):
                super().__init__()
                self.__solver = Solver()

            @property
            def solver(self):
                return self.__solver

            def _extract_operators(self, O):
                S.state = O
                S.draws.append(O)

        self.model = Model()

    def means(self, reg):
        return [self.M[i] + reg * self.N[i] for i in range(2)]

    def rom(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.V.opinf.roms.BayesianROM(self.model, basis=self.basis)

    def solution(self, i, K, O):
        P, R = self.table(i, K)
        Y = P + O[0][0] * R
        if not self.V.symbolic:
            reg = self.model.solver.regularizer
            kind = self.fault.get((i, float(reg)))
            if kind == "short":
                return Y[:, :-1]
            if kind is not None:
                Y[0, -1] = kind
        return Y

    def predict(self, args, kwargs):
        i0 = len(self.log)
        Y = super().predict(args, kwargs)
        assert len(self.log) == i0 + 1
        self.sols.append((self.log[-1][0], Y))
        return Y

    def error(self, reg, margin, sols, ndraw):
        V, np = self.V, self.V.np
        draws = {}
        for i, Y in sols:
            draws.setdefault(i, []).append(Y)
        for name, (q0, Kt, _, _, bound, _) in self.tests.items():
            if name not in draws:
                V.true("test cases are checked", False)
            K = Kt if self.kind == "d" else Kt.shape[0]
            for Y in draws.get(name, []):
                if not V.symbolic and (Y.shape[1] != K or not np.isfinite(Y).all()):
                    return INF
                if bound is not None and bool(far(V, Y, q0, bound)):
                    return INF
            V.true("test case checked for every draw", len(draws.get(name, [])) == ndraw)
        total = 0
        for i in range(self.s):
            X = self.C @ self.Q0[i]
            if self.kind == "d":
                X = X[:, :-1]
            k = X.shape[1]
            mean = np.mean(X, axis=1).reshape((-1, 1))
            limit = margin * np.abs(X - mean).max()
            for Y in draws.get(i, []):
                if not V.symbolic and (Y.shape != self.preds[i][0].shape or not np.isfinite(Y).all()):
                    return INF
                if not bool(limit == 0) and bool(np.abs(Y - mean).max() > limit):
                    return INF
            V.true("every draw is simulated", len(draws.get(i, [])) == ndraw)
            if not draws.get(i):
                return INF
            D = X - sum(Y[:, :k] for Y in draws[i]) / ndraw
            if self.kind == "c":
                nrm = lambda Z: sp_trapezoid(V, np.sum(np.abs(Z) ** 2, axis=0), self.t[i]) ** (1 / 2)
                total = total + nrm(D) / nrm(X)
            else:
                total = total + V.opinf.post.frobenius_error(X, X - D)[1]
        return total / self.s

    def rejects(self, sols, margin):
        """some simulated draw is unstable"""
        V, np = self.V, self.V.np
        for i, Y in sols:
            if isinstance(i, str):
                q0, Kt, _, _, bound, _ = self.tests[i]
                K = Kt if self.kind == "d" else Kt.shape[0]
                if not V.symbolic and (Y.shape[1] != K or not np.isfinite(Y).all()):
                    return True
                if bound is not None and bool(far(V, Y, q0, bound)):
                    return True
                continue
            if not V.symbolic and (Y.shape != self.preds[i][0].shape or not np.isfinite(Y).all()):
                return True
            X = self.C @ self.Q0[i]
            if self.kind == "d":
                X = X[:, :-1]
            mean = np.mean(X, axis=1).reshape((-1, 1))
            limit = margin * np.abs(X - mean).max()
            if not bool(limit == 0) and bool(np.abs(Y - mean).max() > limit):
                return True
        return False


@contract("C18", fns=["BayesianROM.fit_regselect_continuous", "BayesianROM.fit_regselect_discrete", "_BayesianROMMixin.fit_regselect_continuous",
                      "_BayesianROMMixin.fit_regselect_discrete", "_BayesianROMMixin.draw_operators", "_BayesianROMMixin._initialize_posterior"],
          cases={"kind": ["c", "d"], "data": ["single", 2], "inp": [False, True], "tests": [0, 1]}, trials=6, budget=60)
def bayesian_selection(V, kind, data, inp, tests):
    """the error of the mean of the posterior draws; one unstable draw rejects the candidate"""
    ndraw = 1 if V.symbolic and data == 2 else 2
    S = BayesSelection(V, kind, 1 if data == "single" else data, False, inp)
    S.data, S.tests, S.sols = data, {}, []
    kw = {"num_posterior_draws": ndraw}
    margin = V.real("margin", sign="pos") if V.symbolic else float(V.rng.choice([1.5, 5.0, 50.0]))
    kw["stability_margin"] = margin
    if not V.symbolic:
        V.np.random.seed(1)
        nt = int(V.rng.integers(0, 3))
        if kind == "d":
            S.ntest = kw["num_test_iters"] = nt
            S.u = [V.array("U", 2, k + nt) for k in S.ks] if inp else None
        elif nt:
            S.ntest = kw["test_time_length"] = max(V.np.mean(V.np.diff(t)) for t in S.t) * 3.5
    tcs = [S.add_test(f"T{j}", bounded=True) for j in range(tests)]
    if tests:
        kw["test_cases"] = tcs
    if not V.symbolic:
        q0s = [(S.C @ Q)[:, 0] for Q in S.Q0] + [t[0] for t in S.tests.values()]
        if any(near(V, a, b) for i, a in enumerate(q0s) for b in q0s[:i]):
            raise Skip()
    cand = [V.real("c0", sign="pos"), V.real("c1", sign="pos")]
    if V.choice("singular", [False, True]):
        S.bad.append(cand[1])
    winner = V.real("w", sign="pos")
    seen = []

    def stub(func, candidates, gridsearch_only=False, **k2):
        V.true("grid search over the candidates", len(candidates) == 2)
        for a, b in zip(candidates, cand):
            V.eq("candidate", a, b)
        for j, c in enumerate(cand if S.bad or not V.symbolic else cand[:1]):
            if not V.symbolic and V.rng.random() < .3:
                who = list(range(S.s)) + list(S.tests)
                what = ["short", float("nan"), INF] if kind == "c" else [float("nan"), INF, -INF]
                S.fault[who[int(V.rng.integers(len(who)))], float(c)] = what[int(V.rng.integers(3))]
            S.sols, S.draws = [], []
            v = func(c)
            seen.append((c, v, S.sols, S.draws))
        return winner

    with gridsearch_contract(V, stub):
        rom = S.run(cand, gridsearch_only=True, **kw)
    if V.symbolic and not seen:
        raise V.core.Unsupported("gridsearch is not called through opinf.utils")
    V.eq("regularizer of the solver", S.model.solver.regularizer, winner)
    V.true("posterior available", rom.posterior is not None)
    for i, (m, want) in enumerate(zip(rom.posterior.means, S.means(winner))):
        V.eq(f"posterior mean {i}", m, want)
        V.eq(f"posterior covariance {i}", rom.posterior.covs[i], V.inv(S.prec[i]))
    V.true("solver fitted once", len(S.fits) == 1)
    V.true("stale regularizer dropped", S.fits[0][0] is None)
    V.true("basis calibrated once", len(S.fitdata) == 1)
    check_data(V, S)
    for j, (c, got, sols, draws) in enumerate(seen):
        rejected = isinstance(got, float) and not got < INF
        if any(c is b for b in S.bad):
            V.true("candidates without posterior are rejected", rejected)
            continue
        if rejected:
            bad = S.rejects(sols, margin)
            V.true("rejected only if some draw is unstable", bad)
            continue
        want = S.error(c, margin, sols, ndraw)
        if isinstance(want, float) and want == INF:
            V.true("unstable candidates are rejected", rejected)
        else:
            V.eq("training error", got, want)
            V.true("one draw per simulation", len(draws) == len(sols))
            if not V.symbolic:
                O = V.np.array(draws)
                V.true("operators are redrawn", len(V.np.unique(O[:, 0, 0])) == len(O))


# ------------------------------------------------------- real models, end to end
def real_problem(V, kind, model, solver):
    np, op = V.np, V.opinf
    n, r, k = 5, 2, 24
    s = 1 if model == "mono" else 3
    t = np.linspace(0, 1, k)
    mus = [np.array([1.0 + i, .5 * i]) for i in range(s)] if model != "interp" else [1.0 + i for i in range(s)]
    B, _ = np.linalg.qr(V.rng.normal(size=(n, r)))
    Q = []
    for i in range(s):
        A = -np.diag([1.0, 2.0 + i]) + .3 * V.rng.normal(size=(r, r))
        if kind == "c":
            w, T = np.linalg.eig(A)
            z0 = np.linalg.solve(T, V.rng.normal(size=r) + 2)
            X = np.real(T @ (z0[:, None] * np.exp(w[:, None] * t)))
        else:
            D = np.eye(r) + .1 * A
            X = [V.rng.normal(size=r) + 2]
            for _ in range(k - 1):
                X.append(D @ X[-1])
            X = np.array(X).T
        Q.append(B @ X + 1e-3 * V.rng.normal(size=(n, k)))
    sol = {"L2": lambda: op.lstsq.L2Solver(), "L2D": lambda: op.lstsq.L2DecoupledSolver(),
           "Tik": lambda: op.lstsq.TikhonovSolver(), "TikD": lambda: op.lstsq.TikhonovDecoupledSolver()}[solver]
    m = op.models
    if model == "mono":
        cls, ops, d = (m.ContinuousModel if kind == "c" else m.DiscreteModel), "cA", r + 1
    elif model == "interp":
        cls, ops, d = (m.InterpContinuousModel if kind == "c" else m.InterpDiscreteModel), "cA", r + 1
    else:
        cls = m.ParametricContinuousModel if kind == "c" else m.ParametricDiscreteModel
        ops, d = [op.operators.ConstantOperator(), op.operators.AffineLinearOperator(lambda p: p, 2)], 1 + 2 * r
    fac = {"L2": lambda c: c, "L2D": lambda c: c * np.ones(r), "Tik": lambda c: c * np.ones(d),
           "TikD": lambda c: [c * np.ones(d)] * r}[solver]

    def new(reg=None):
        sv = sol()
        if reg is not None:
            sv.regularizer = fac(reg)
        est = op.ddt.UniformFiniteDifferencer(t, "ord2") if kind == "c" else None
        R = op.roms.ROM if model == "mono" else op.roms.ParametricROM
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return R(cls(ops if isinstance(ops, str) else [o.copy() for o in ops], solver=sv),
                     basis=op.basis.PODBasis(num_vectors=r), ddt_estimator=est)
    return new, fac, t, mus, Q


@contract("C18", fns=["ROM.fit_regselect_continuous", "ROM.fit_regselect_discrete", "_BaseROM.fit_regselect_continuous",
                      "_BaseROM.fit_regselect_discrete"],
          modes=("con",), cases={"kind": ["c", "d"], "model": ["mono", "param", "interp"], "solver": ["L2", "L2D", "Tik", "TikD"]},
          trials=2, tol=1e-6)
def selection_end_to_end(V, kind, model, solver):
    """with the library's models, solvers and grid search: the final model is the model trained
    with the returned regularizer, and no stable candidate has a smaller training error"""
    np = V.np
    new, fac, t, mus, Q = real_problem(V, kind, model, solver)
    mono = model == "mono"
    data = (Q[0] if V.rng.random() < .5 else Q) if mono else Q
    pre = [] if mono else [mus]
    tt = [t] if kind == "c" else []

    def train(rom):
        return rom.fit(*pre, data)

    def objective(c):
        rom = train(new(c))
        total = 0
        for i, q in enumerate(Q):
            X = rom.encode(q) if kind == "c" else rom.encode(q)[:, :-1]
            p = [] if mono else [mus[i]]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                Y = rom.model.predict(*p, X[:, 0], *([t] if kind == "c" else [X.shape[1]]))
            if Y.shape != X.shape or not np.isfinite(Y).all():
                return INF
            mean = X.mean(axis=1, keepdims=True)
            if np.abs(Y - mean).max() > 5 * np.abs(X - mean).max():
                return INF
            if kind == "c":
                nrm = lambda Z: sp_trapezoid(V, (Z ** 2).sum(axis=0), t) ** .5
                total += nrm(X - Y) / nrm(X)
            else:
                total += np.linalg.norm(X - Y) / np.linalg.norm(X)
        return total / len(Q)

    cand = [float(10.0 ** e) for e in V.rng.choice(np.arange(-6, 5), 4, replace=False)]
    only = bool(V.rng.random() < .6)
    rom = new(float(10.0 ** V.rng.integers(-3, 3)) if V.rng.random() < .5 else None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        errs = [objective(c) for c in cand]
        if min(errs) == INF:
            raise Skip()
        if kind == "c":
            rom.fit_regselect_continuous(cand, *tt, *pre, data, regularizer_factory=fac, gridsearch_only=only)
        else:
            rom.fit_regselect_discrete(cand, *pre, data, regularizer_factory=fac, gridsearch_only=only)
        sv = rom.model.solvers[0] if model == "interp" else rom.model.solver
        reg = np.ravel(sv.regularizer)[0] if solver != "L2" else sv.regularizer
        reg = float(reg)
        best = objective(reg)
        ref = train(new(reg))
    V.true("no stable candidate is better", best <= min(errs) * (1 + 1e-6) + 1e-12)
    if only:
        V.true("a candidate is selected", min(abs(reg - c) / c for c in cand) < 1e-9)
    if model == "interp":
        for sv in rom.model.solvers:
            V.eq("regularizer of every solver", np.max(sv.regularizer), reg)
    for i in range(len(Q)):
        p = [] if mono else [mus[i]]
        x = V.rng.normal(size=2)
        a = (.3, *p, x) if kind == "c" else (*p, x)
        V.eq("trained with the selected regularizer", rom.model.rhs(*a), ref.model.rhs(*a))


@contract("C18", fns=["ROM.fit_regselect_continuous", "ROM.fit_regselect_discrete"], modes=("con",),
          cases={"kind": ["c", "d"], "solver": ["L2", "L2D", "Tik", "TikD"]}, trials=2)
def selection_can_be_repeated(V, kind, solver):
    """a second selection with another reduced dimension does as well as a new ROM"""
    np = V.np
    new, fac, t, mus, Q = real_problem(V, kind, "mono", solver)
    fac3 = {"L2": lambda c: c, "L2D": lambda c: c * np.ones(3), "Tik": lambda c: c * np.ones(4), "TikD": lambda c: [c * np.ones(4)] * 3}[solver]
    cand = [1e-3, 1e-1, 10.0]

    def go(rom, f):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = (cand, t, Q[0]) if kind == "c" else (cand, Q[0])
            g = rom.fit_regselect_continuous if kind == "c" else rom.fit_regselect_discrete
            return g(*a, regularizer_factory=f, gridsearch_only=True)

    try:
        A = new()
        A.basis.__init__(num_vectors=3)
        go(A, fac3)
    except RuntimeError:
        raise Skip()
    B = go(new(), fac)
    B.basis.__init__(num_vectors=3)
    go(B, fac3)
    V.eq("same regularizer", np.ravel(B.model.solver.regularizer), np.ravel(A.model.solver.regularizer))
    x = V.rng.normal(size=3)
    a = (.3, x) if kind == "c" else (x,)
    V.eq("same model", B.model.rhs(*a), A.model.rhs(*a))
