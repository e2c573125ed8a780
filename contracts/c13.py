"""C13: time derivative estimators are exact, ordered and aligned."""
import warnings
from vp.harness import contract, Skip

FD = [f"fwd{i}" for i in range(1, 7)] + [f"bwd{i}" for i in range(1, 7)] + ["ctr2", "ctr4", "ctr6"]
ORD = ["ord2", "ord4", "ord6"]
VIA = ["function", "estimator", "estimator.inputs"]


def order(scheme):
    return int(scheme[-1])


def cols(scheme, k):
    """first and last+1 documented time index of the estimates"""
    p = order(scheme)
    return {"fwd": (0, k - p), "bwd": (p, k), "ctr": (p // 2, k - p // 2), "ord": (0, k)}[scheme[:3]]


def grid(V, lo, hi=14):
    r, k = V.dim("r", hi=3), V.dim("k", lo=lo, hi=hi)
    t0, dt = V.real("t0"), V.real("dt", sign="pos")
    if not V.symbolic:
        dt = dt * 10.0 ** V.rng.integers(-3, 2)
        t0 = t0 * dt
    return r, k, t0, dt


def poly(V, C, deg, r, t):
    """rows sum_p C[i, p] t^p and their derivatives, at times t(j)"""
    f = lambda i, j: sum((C[i, p] * t(j) ** p for p in range(1, deg + 1)), C[i, 0])
    g = lambda i, j: sum((p * C[i, p] * t(j) ** (p - 1) for p in range(2, deg + 1)), C[i, 1] if deg else 0 * C[i, 0])
    return f, g


def scaled(V, C, dt):
    """coefficients for which every degree contributes on the scale of the grid"""
    if not V.symbolic:
        C = C / dt ** V.np.arange(C.shape[1]) * 1.0
    return C


@contract("C13", fns=["_finite_difference", "fwd1", "bwd1", "ctr2"], cases={"scheme": FD + ORD, "via": VIA}, trials=12)
def exact_on_polynomials(V, scheme, via):
    """documented order p: exact for polynomials of degree at most p, at every returned instant"""
    np = V.np
    p = order(scheme)
    r, k, t0, dt = grid(V, p + 1)
    C = scaled(V, V.array("C", r, p + 1), dt)
    t = lambda j: t0 + j * dt
    f, g = poly(V, C, p, r, t)
    Q = V.tab((r, k), f)
    Q0 = V.copy(Q)
    lo, hi = cols(scheme, k)
    d = V.opinf.ddt
    U = None
    if via == "function":
        m = V.dim("m", hi=2)
        U = V.array("U", m, k)
        U0 = V.copy(U)
        out = getattr(d, scheme)(Q, dt, U)
        V.true("three outputs", len(out) == 3)
        two = getattr(d, scheme)(Q, dt)
        V.true("two outputs", len(two) == 2)
        V.eq("same derivatives", two[1], out[1])
        V.eq("same states", two[0], out[0])
        V.eq("inputs", out[2], U[:, lo:hi])
        V.eq("inputs unchanged", U, U0)
    else:
        if V.symbolic:
            T = V.tab((k,), t)
            est = make_estimator(V, T, scheme)
        else:
            T = t0 + dt * np.arange(k)
            est = d.UniformFiniteDifferencer(T, scheme)
        if via == "estimator":
            out = est.estimate(Q)
            V.true("two outputs", len(out) == 2)
        else:
            U = V.array("U", k)
            U0 = V.copy(U)
            out = est.estimate(Q, U)
            V.true("three outputs", len(out) == 3)
            V.eq("inputs", out[2], U[lo:hi].reshape((1, -1)))
            V.eq("masked inputs", est.mask(U), U[lo:hi])
            V.eq("inputs unchanged", U, U0)
        V.eq("mask", est.mask(Q), out[0])
        V.eq("dt", est.dt, dt)
    V.shape("states", out[0], (r, hi - lo))
    V.eq("states", out[0], Q[:, lo:hi])
    V.eq("derivatives", out[1], V.tab((r, hi - lo), lambda i, j: g(i, j + lo)), tol=1e-6)
    V.eq("states unchanged", Q, Q0)


def make_estimator(V, T, scheme):
    return V.opinf.ddt.UniformFiniteDifferencer(T, scheme)


@contract("C13", fns=["_finite_difference", "ddt_uniform"], cases={"scheme": FD + ORD}, trials=8)
def linear_and_row_by_row(V, scheme):
    r, k, t0, dt = grid(V, order(scheme) + 1)
    X, Y = V.array("X", r, k), V.array("Y", r, k)
    a, b = V.real("a"), V.real("b")
    f = getattr(V.opinf.ddt, scheme)
    dX, dY = f(X, dt)[1], f(Y, dt)[1]
    V.eq("linear", f(a * X + b * Y, dt)[1], a * dX + b * dY)
    i = V.index("i", r)
    V.eq("row", f(X[i:i + 1], dt)[1][0], dX[i])
    V.eq("step size", f(X, 2 * dt)[1], dX / 2)


@contract("C13", fns=["UniformFiniteDifferencer.estimate", "NonuniformFiniteDifferencer.estimate", "InterpDerivativeEstimator.estimate",
                      "InterpDerivativeEstimator.mask"], modes=("con",), trials=8,
          cases={"kind": ["fwd2", "bwd1", "ctr4", "ord4", "nonuniform", "cubic", "akima", "pchip"], "new": [False, True]})
def estimators_may_be_used_repeatedly(V, kind, new):
    """one estimator, several data sets in one array: each result is that of a new estimator"""
    np, d = V.np, V.opinf.ddt
    r, k = V.dim("r", hi=3), V.dim("k", lo=8, hi=12)
    T = np.linspace(0, 1, k) if kind[-1].isdigit() else np.cumsum(V.rng.uniform(0.2, 1, k))
    T2 = np.sort(V.rng.uniform(T[0], T[-1], 6)) if new else None

    def make():
        if kind[-1].isdigit():
            return d.UniformFiniteDifferencer(T, kind)
        if kind == "nonuniform":
            return d.NonuniformFiniteDifferencer(T)
        return d.InterpDerivativeEstimator(T, kind, new_time_domain=T2)

    e = make()
    Q, U = V.array("Q", r, k) * 1.0, V.array("U", 2, k) * 1.0
    first = [np.copy(x) for x in e.estimate(Q, U)]
    again = [np.copy(x) for x in e.estimate(Q, U)]
    for i in range(3):
        V.eq(f"repeated {i}", again[i], first[i])
    Q[...], U[...] = V.array("Qnew", r, k), V.array("Unew", 2, k)
    got, want = e.estimate(Q, U), make().estimate(Q.copy(), U.copy())
    for i, name in enumerate(("states", "derivatives", "inputs")):
        V.eq(name, got[i], want[i])
    if hasattr(e, "mask"):
        V.eq("mask", e.mask(Q), make().mask(Q.copy()))


@contract("C13", fns=["_finite_difference"], cases={"scheme": FD}, trials=8)
def stencils_are_time_reversible(V, scheme):
    """backward schemes are the forward ones reversed in time; central ones are antisymmetric;
    estimates do not depend on where the window starts"""
    np = V.np
    r, k, t0, dt = grid(V, order(scheme) + 2)
    X = V.array("X", r, k)
    f = getattr(V.opinf.ddt, scheme)
    other = getattr(V.opinf.ddt, {"f": "bwd", "b": "fwd", "c": "ctr"}[scheme[0]] + scheme[-1])
    V.eq("reversed", f(X, dt)[1], -other(X[:, ::-1], dt)[1][:, ::-1])
    V.eq("window", f(X[:, 1:], dt)[1], f(X, dt)[1][:, 1:])


@contract("C13", fns=["ddt_uniform", "ddt"], cases={"order": [2, 4, 6], "how": ["dt", "dt kw", "dt order", "order kw"]},
          trials=8)
def generic_ddt_is_uniform(V, order, how):
    r, k, t0, dt = grid(V, order + 1)
    X = V.array("X", r, k)
    X0 = V.copy(X)
    d = V.opinf.ddt
    want = getattr(d, f"ord{order}")(X, dt)[1]
    V.eq("ddt_uniform", d.ddt_uniform(X, dt, order), want)
    if how == "dt" and not V.symbolic:
        V.eq("ddt", d.ddt(X, dt), d.ddt_uniform(X, dt, 2))
    elif how == "dt kw":
        V.eq("ddt", d.ddt(X, dt=dt), d.ddt_uniform(X, dt, 2))
    elif how == "dt order":
        V.eq("ddt", d.ddt(X, dt, order), want)
    elif how == "order kw":
        V.eq("ddt", d.ddt(X, dt=dt, order=order), want)
    V.eq("states unchanged", X, X0)


@contract("C13", fns=["ddt_uniform"], cases={"order": [2, 4, 6]}, modes=("con",), trials=8)
def integer_states(V, order):
    np = V.np
    r, k = V.dim("r", hi=3), V.dim("k", lo=order + 1, hi=12)
    X = V.rng.integers(-5, 6, (r, k))
    dt = float(V.rng.choice([0.25, 0.4, 3.0]))
    d = V.opinf.ddt
    V.eq("integers", d.ddt_uniform(X, dt, order), d.ddt_uniform(X.astype(float), dt, order))
    V.eq("ord", getattr(d, f"ord{order}")(X, dt)[1], d.ddt_uniform(X.astype(float), dt, order))


@contract("C13", fns=["NonuniformFiniteDifferencer.estimate", "ddt_nonuniform", "ddt"],
          cases={"via": ["ddt_nonuniform", "ddt", "ddt kw", "estimator", "estimator.inputs"], "grid": ["uniform", "any"]},
          trials=12)
def nonuniform_is_exact_on_quadratics(V, via, grid):
    np = V.np
    r, k = V.dim("r", hi=3), V.dim("k", lo=3, hi=9)
    if grid == "uniform":
        t0, dt = V.real("t0"), V.real("dt", sign="pos")
        T = V.tab((k,), lambda j: t0 + j * dt)
    elif V.symbolic:
        T = V.array("T", k)                              # pairwise different instants
    else:
        T = np.sort(V.rng.normal(size=k)) * V.rng.choice([0.1, 5.0])
        if np.min(np.diff(T)) < 1e-3:
            raise Skip()
    C = V.array("C", r, 3)
    f, g = poly(V, C, 2, r, lambda j: T[j])
    Q = V.tab((r, k), f)
    Q0, T0 = V.copy(Q), V.copy(T)
    d = V.opinf.ddt
    if via.startswith("estimator"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            est = d.NonuniformFiniteDifferencer(T)
        if via == "estimator":
            S, D = est.estimate(Q)
        else:
            U = V.array("U", k)
            S, D, W = est.estimate(Q, U)
            V.eq("inputs", W, U.reshape((1, -1)))
        V.eq("states", S, Q)
        V.eq("mask", est.mask(Q), Q)
    else:
        D = d.ddt_nonuniform(Q, T) if via == "ddt_nonuniform" else d.ddt(Q, T) if via == "ddt" else d.ddt(Q, t=T)
    V.eq("derivatives", D, V.tab((r, k), g), tol=1e-6)
    V.eq("states unchanged", Q, Q0)
    V.eq("times unchanged", T, T0)


KINDS = ["cubic", "akima", "pchip"]


def interpolator(V, kind):
    import scipy.interpolate as si
    return {"cubic": si.CubicSpline, "akima": si.Akima1DInterpolator, "pchip": si.PchipInterpolator}[kind]


@contract("C13", fns=["InterpDerivativeEstimator.estimate", "InterpDerivativeEstimator.mask"], modes=("con",),
          cases={"kind": KINDS, "new": [False, True], "u": [None, "1d", "2d"], "given": ["name", "class"]}, trials=8)
def interpolation_is_aligned(V, kind, new, u, given):
    """states, derivatives and inputs all refer to the new time domain (or the old one)"""
    np = V.np
    r, k = V.dim("r", hi=3), V.dim("k", lo=5, hi=10)
    T = np.cumsum(V.rng.uniform(0.2, 1, k))
    T2 = np.sort(V.rng.uniform(T[0], T[-1], V.dim("k2", lo=2, hi=12))) if new else None
    deg = {"cubic": 3, "akima": 1, "pchip": 1}[kind]
    C = V.array("C", r, deg + 1)
    f, g = poly(V, C, deg, r, lambda j: j)
    at = lambda fn, times: np.array([[fn(i, t) for t in times] for i in range(r)])
    Q = at(f, T)
    U = None if u is None else V.array("U", k) if u == "1d" else V.array("U", 2, k)
    Q0, T0, U0 = Q.copy(), T.copy(), None if U is None else U.copy()
    E = V.opinf.ddt.InterpDerivativeEstimator
    ic = interpolator(V, kind)
    est = E(T, kind, new_time_domain=T2) if given == "name" else E(T, ic, new_time_domain=T2, axis=1)
    out = est.estimate(Q) if U is None else est.estimate(Q, U)
    times = T2 if new else T
    V.true("outputs", len(out) == (2 if U is None else 3))
    V.eq("states", out[0], at(f, times), tol=1e-6)
    V.eq("derivatives", out[1], at(g, times), tol=1e-6)
    V.eq("mask", est.mask(Q), at(f, times), tol=1e-6)
    if U is not None:
        W = U.reshape((1, -1)) if u == "1d" else U
        V.eq("inputs", out[2], ic(T, W, axis=1)(times) if new else W)
        V.eq("inputs unchanged", U, U0)
        V.eq("masked inputs", est.mask(W), out[2])
        if given == "name":
            V.eq("mask acts on the last axis", est.mask(W[0]), out[2][0])
    V.eq("states unchanged", Q, Q0)
    V.eq("times unchanged", T, T0)
    X = V.array("X", r, k)
    V.eq("any states", est.estimate(X)[1], ic(T, X, axis=1)(times, 1))
    V.eq("any mask", est.mask(X), ic(T, X, axis=1)(times) if new else X)
    V.eq("row by row", est.estimate(X[:1])[1][0], est.estimate(X)[1][0])


@contract("C13", fns=["InterpDerivativeEstimator.__init__", "InterpDerivativeEstimator.estimate", "InterpDerivativeEstimator.mask",
                      "_check_dimensions"], cases={"new": [False, True, "same"], "u": [None, "1d", "2d"]}, trials=10)
def interpolation_with_an_arbitrary_interpolator(V, new, u):
    """for every interpolation scheme that is linear in the data (so that values and derivatives are data times weights):
    what is returned is the interpolant of the states, its derivative and the interpolant of the inputs, on one grid"""
    r, k = V.dim("r", hi=3), V.dim("k", lo=3, hi=6)
    k2 = k if new == "same" else V.dim("k2", lo=3, hi=6)
    T, T2 = V.array("T", k), V.array("T2", k2) if new else None
    W = [V.array(f"W{nu}", k, k2 if new else k) for nu in range(3)]
    Wold = [None, V.array("Wold1", k, k), V.array("Wold2", k, k)]

    class Scheme:
        def __init__(self, x, y, axis=0, tag=None):
            V.eq("nodes", x, T)
            V.true("options", axis == 1 and tag == "option")
            self.y, self.nu = y, 0

        def __call__(self, t, nu=0, extrapolate=None):
            nu = self.nu + nu
            if t is T:
                return V.copy(self.y) if nu == 0 else self.y @ (Wold if new else W)[nu]
            V.eq("evaluated at the new time domain", t, T2 if new else T)
            return self.y @ W[nu] if new or nu else V.copy(self.y)

        def derivative(self, nu=1):
            d = Scheme(T, self.y, 1, "option")
            d.nu = self.nu + nu
            return d

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = V.opinf.ddt.InterpDerivativeEstimator(T, Scheme, new_time_domain=T2, axis=1, tag="option")
    Q = V.array("Q", r, k)
    U = None if u is None else V.array("U", k) if u == "1d" else V.array("U", V.dim("m", hi=2), k)
    Q0, U0 = V.copy(Q), None if U is None else V.copy(U)
    out = est.estimate(Q) if U is None else est.estimate(Q, U)
    V.true("outputs", len(out) == (2 if U is None else 3))
    V.eq("states", out[0], Q0 @ W[0] if new else Q0)
    V.eq("derivatives", out[1], Q0 @ W[1])
    if U is not None:
        M = U0.reshape((1, -1)) if u == "1d" else U0
        V.eq("inputs", out[2], M @ W[0] if new else M)
        V.eq("inputs unchanged", U, U0)
    V.eq("mask", est.mask(Q), Q0 @ W[0] if new else Q0)
    V.eq("states unchanged", Q, Q0)


@contract("C13", fns=["_check_dimensions", "__init__"], modes=("con",), cases={"kind": ["uniform", "nonuniform", "interp"]})
def bad_arguments_are_rejected(V, kind):
    np = V.np
    d, DE = V.opinf.ddt, V.opinf.errors.DimensionalityError
    k, r = V.dim("k", lo=6, hi=9), V.dim("r", hi=3)
    T = np.arange(k) * 0.5 + 1
    cls = {"uniform": d.UniformFiniteDifferencer, "nonuniform": d.NonuniformFiniteDifferencer,
           "interp": d.InterpDerivativeEstimator}[kind]
    V.raises("list of times", ValueError, lambda: cls(list(T)))
    V.raises("two-dimensional times", ValueError, lambda: cls(T.reshape((1, -1))))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = cls(T)
    X = V.array("X", r, k)
    V.raises("one-dimensional states", DE, lambda: est.estimate(X[0]))
    V.raises("inputs not aligned", DE, lambda: est.estimate(X, V.array("U", 2, k - 1)))
    if kind != "uniform":
        V.raises("states not aligned", DE, lambda: est.estimate(X[:, 1:]))
    else:
        V.raises("not uniform", ValueError, lambda: cls(T ** 2))
        V.raises("scheme", ValueError, lambda: cls(T, "fwd9"))
    if kind == "interp":
        V.raises("kind", ValueError, lambda: cls(T, "linear"))
        V.raises("new times", TypeError, lambda: cls(T, new_time_domain=list(T)))
    V.raises("no step", TypeError, lambda: d.ddt(X))
    V.raises("order without step", TypeError, lambda: d.ddt(X, order=2))
    V.raises("unknown argument", TypeError, lambda: d.ddt(X, h=2))
    V.raises("times not aligned", DE, lambda: d.ddt_nonuniform(X, T[1:]))
    V.raises("order", NotImplementedError, lambda: d.ddt_uniform(X, 0.1, 3))
    V.raises("step", TypeError, lambda: d.ddt_uniform(X, T))
