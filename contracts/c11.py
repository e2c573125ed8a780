"""C11: POD bases are orthonormal, optimal and of the documented dimension."""
import warnings
from vp.harness import contract, Skip
from c10 import weights

W = ["none", "diag", "full"]
SOLVERS = ["dense", "randomized", "method-of-snapshots", "eigh", "callable"]
CRITERIA = ["num_vectors", "svdval_threshold", "cumulative_energy", "residual_energy", "projection_error"]


def data(V, how, n, k):
    """-> (weights, apply, states, thin SVD of W^{1/2} states), in general position"""
    np = V.np
    w, mul = weights(V, how, n)
    X = V.generic("X", n, k)
    R = np.eye(n) if w is None else np.diag(np.sqrt(w)) if w.ndim == 1 else V.la.sqrtm(w)
    U, s, Vt = np.linalg.svd(R @ X, full_matrices=False)
    if s[-1] < 1e-3 * s[0] or (len(s) > 1 and np.min(s[:-1] - s[1:]) < 1e-3 * s[0]):
        raise Skip()
    return w, mul, X, R, U, s, Vt


def solver(V, name):
    np = V.np
    if name == "callable":
        return (lambda x, **k: np.linalg.svd(x, full_matrices=False)), {}
    return name, ({"random_state": 0, "n_iter": 10} if name == "randomized" else {})


def expected_r(V, s, crit, value):
    """the documented dimension, or None if the data are too close to the threshold"""
    np = V.np
    e = s ** 2 / np.sum(s ** 2)
    c = [0.0] + [float(np.sum(e[:i])) for i in range(1, len(s) + 1)]
    res = [float(np.sum(e[i:])) for i in range(len(s) + 1)]
    if crit == "num_vectors":
        return min(value, len(s))
    if crit == "svdval_threshold":
        return sum(1 for x in s if x / s[0] >= value)
    f = {"cumulative_energy": lambda r: c[r] >= value, "residual_energy": lambda r: res[r] <= value,
         "projection_error": lambda r: np.sqrt(res[r]) <= value}[crit]
    return next(r for r in range(1, len(s) + 1) if r == len(s) or f(r))


def exact_svdvals(V):
    """singular values whose normalised energies are exact in floating point"""
    kind = V.choice("exact", ["equal", "five", "thirteen", "one"])
    if kind == "equal":
        return V.np.full(2 ** int(V.rng.integers(1, 4)), 2.0)
    if kind == "one":
        return V.np.array([3.0])
    return V.np.array([4.0] + [2.0] * (4 if kind == "five" else 12))


def exact_threshold(V, s, crit):
    """thresholds on and around the attainable values"""
    np = V.np
    e = s ** 2 / np.sum(s ** 2)
    j = int(V.rng.integers(0, len(s)))
    at = {"svdval_threshold": s[j] / s[0], "cumulative_energy": float(np.sum(e[:j + 1])),
          "residual_energy": 1 - float(np.sum(e[:j + 1])),
          "projection_error": float(np.sqrt(1 - np.sum(e[:j + 1])))}[crit]
    how = V.choice("side", ["on", "above", "below"])
    v = at * (1 + {"on": 0, "above": 1e-3, "below": -1e-3}[how])
    if not 0 < v <= 1:
        raise Skip()
    return v


def rebuilt(V, s, n=None):
    np = V.np
    n = n or len(s)
    Q, _ = np.linalg.qr(V.generic("U", n, len(s)))
    return Q


@contract("C11", fns=["from_svd", "set_dimension", "_set_dimension_from_criterion"], modes=("con",),
          cases={"crit": CRITERIA[1:], "how": ["from_svd", "set_dimension", "functions"]}, trials=60)
def thresholds_on_the_boundary(V, crit, how):
    """exactly representable energies: thresholds on, just above and just below attainable values"""
    s = exact_svdvals(V)
    v = exact_threshold(V, s, crit)
    r = expected_r(V, s, crit, v)
    b = V.opinf.basis
    if how == "functions":
        f = {"svdval_threshold": b.svdval_decay, "cumulative_energy": b.cumulative_energy,
             "residual_energy": b.residual_energy, "projection_error": b.residual_energy}[crit]
        k = {"sqrt": True} if crit == "projection_error" else {}
        s2 = s.copy() * 3.0
        V.rng.shuffle(s2)
        if crit == "svdval_threshold":
            r = sum(1 for x in s if x / s[0] > v)
        s3 = s2.copy()
        V.eq("number", f(s2, v, plot=False, **k), r)
        V.eq("list", V.np.array(f(s2, [v, v], plot=False, **k)), V.np.array([r, r]))
        V.eq("argument", s2, s3)
        return
    U = rebuilt(V, s, len(s) + 1)
    if how == "from_svd":
        p = b.PODBasis.from_svd(U, s * 5, **{crit: v})
    else:
        p = b.PODBasis.from_svd(U, s * 5)
        V.eq("all", p.reduced_state_dimension, len(s))
        p.set_dimension(**{crit: v})
    V.eq("dimension", p.reduced_state_dimension, r)
    V.eq("entries", p.entries, U[:, :r])


@contract("C11", fns=["fit", "set_dimension", "compress"], modes=("con",),
          cases={"w": W, "solver": SOLVERS, "crit": CRITERIA}, trials=8)
def fit_gives_the_documented_basis(V, w, solver_=None, crit=None, **k):
    name = k.get("solver", solver_)
    np = V.np
    mos = name in ("method-of-snapshots", "eigh")
    kk = V.dim("k", lo=2, hi=5)
    n = V.dim("n", lo=kk if mos else 2, hi=7)
    wt, mul, X, R, U, s, Vt = data(V, w, n, kk)
    e = s ** 2 / np.sum(s ** 2)
    v = int(V.rng.integers(1, len(s) + 1)) if crit == "num_vectors" else float(V.rng.uniform(0.02, 0.98))
    if crit != "num_vectors":
        c = np.cumsum(e)
        near = {"svdval_threshold": s / s[0], "cumulative_energy": c, "residual_energy": 1 - c,
                "projection_error": np.sqrt(np.abs(1 - c))}[crit]
        if np.min(np.abs(near - v)) < 1e-6:
            raise Skip()
    r = expected_r(V, s, crit, v)
    sv, opts = solver(V, name)
    p = V.opinf.basis.PODBasis(**{crit: v}, svdsolver=sv, weights=wt, **opts)
    X0 = X.copy()
    split = V.choice("stack", [False, True]) and kk % 2 == 0
    V.true("returns self", p.fit(np.array([X[:, :kk // 2], X[:, kk // 2:]]) if split else X) is p)
    V.eq("states unchanged", X, X0)
    V.eq("dimension", p.reduced_state_dimension, r)
    V.eq("available", p.max_vectors, len(s))
    E = p.entries
    V.shape("entries", E, (n, r))
    tol = 1e-4
    V.eq("orthonormal", E.T @ mul(E), np.eye(r), tol)
    V.eq("all orthonormal", p.leftvecs.T @ mul(p.leftvecs), np.eye(len(s)), tol)
    V.eq("singular values", p.svdvals, s / s[0], tol)
    V.eq("dominant directions", X @ (X.T @ mul(E)), E * s[:r] ** 2, tol)
    D = R @ (X - p.project(X))
    V.eq("projection error", np.sum(D ** 2), np.sum(s[r:] ** 2), tol)
    V.eq("residual energy", p.residual_energy, np.sum(e[r:]), tol)
    V.eq("cumulative energy", p.cumulative_energy, np.sum(e[:r]), tol)
    V.eq("right vectors", R @ X, R @ p.leftvecs @ np.diag(s) @ p.rightvecs[:, :len(s)].T, tol)
    # changing the dimension
    for _ in range(3):
        r2 = int(V.rng.integers(1, len(s) + 1))
        if V.rng.random() < 0.5:
            p.set_dimension(num_vectors=r2)
        else:
            p.reduced_state_dimension = r2
        V.eq("new dimension", p.reduced_state_dimension, r2)
        m = min(r, r2)
        V.eq("nested", p.entries[:, :m], E[:, :m])
        V.eq("new entries", p.entries, p.leftvecs[:, :r2])
        V.eq("new residual energy", p.residual_energy, np.sum(e[r2:]), tol)
        V.eq("still orthonormal", p.entries.T @ mul(p.entries), np.eye(r2), tol)
        D = R @ (X - p.project(X))
        V.eq("new projection error", np.sum(D ** 2), np.sum(s[r2:] ** 2), tol)
    p.set_dimension(num_vectors=len(s) + 3)
    V.eq("clipped", p.reduced_state_dimension, len(s))
    p.set_dimension(**{crit: v})
    V.eq("back", p.entries, E)
    # training again from scratch
    Y = V.generic("Y", n, kk + 1)
    p.set_dimension(num_vectors=1)
    p.fit(Y)
    q = V.opinf.basis.PODBasis(num_vectors=1, svdsolver=sv, weights=wt, **opts).fit(Y)
    V.eq("refit", p.entries, q.entries, tol)
    V.eq("refit values", p.svdvals, q.svdvals, tol)


@contract("C11", fns=["fit"], modes=("con",), cases={"solver": ["dense", "method-of-snapshots", "randomized"], "w": W},
          trials=10)
def max_vectors_limits_the_stored_vectors(V, w, **k):
    np = V.np
    name = k["solver"]
    kk = V.dim("k", lo=2, hi=5)
    n = V.dim("n", lo=kk, hi=7)
    wt, mul, X, R, U, s, Vt = data(V, w, n, kk)
    mv = V.dim("mv", lo=1, hi=7)
    sv, opts = solver(V, name)
    p = V.opinf.basis.PODBasis(num_vectors=n, max_vectors=mv, svdsolver=sv, weights=wt, **opts).fit(X)
    keep = min(mv, kk)
    V.eq("stored", p.max_vectors, keep)
    V.eq("dimension", p.reduced_state_dimension, keep)
    V.eq("orthonormal", p.entries.T @ mul(p.entries), np.eye(keep), 1e-4)
    V.eq("dominant", X @ (X.T @ mul(p.entries)), p.entries * s[:keep] ** 2, 1e-3)
    if name != "randomized":
        V.eq("singular values", p.svdvals, s / s[0], 1e-4)
        V.eq("residual energy", p.residual_energy, np.sum(s[keep:] ** 2) / np.sum(s ** 2), 1e-4)
    for bad in (0, -1):
        V.raises("max_vectors", ValueError, lambda: V.opinf.basis.PODBasis(num_vectors=1, max_vectors=bad))


@contract("C11", fns=["pod_basis"], modes=("con",), cases={"crit": [None] + CRITERIA, "w": W}, trials=8)
def pod_basis_is_the_class(V, crit, w):
    np = V.np
    kk, n = V.dim("k", lo=2, hi=5), V.dim("n", lo=2, hi=7)
    wt, mul, X, R, U, s, Vt = data(V, w, n, kk)
    v = 1 if crit == "num_vectors" else 0.37
    kw = {crit: v} if crit else {}
    B = V.opinf.basis
    E, sv, right = B.pod_basis(X, weights=wt, return_rightvecs=True, **kw)
    p = B.PODBasis(**(kw or {"num_vectors": min(n, kk)}), weights=wt).fit(X)
    V.eq("entries", E, p.entries)
    V.eq("singular values", sv, s / s[0])
    V.eq("right", right, p.rightvecs[:, :E.shape[1]])
    V.eq("two", list(B.pod_basis(X, weights=wt, **kw)), [E, sv])


@contract("C11", fns=["method_of_snapshots"], modes=("con",), cases={"w": W}, trials=20)
def method_of_snapshots_is_the_svd(V, w):
    np = V.np
    kk = V.dim("k", lo=1, hi=5)
    n = V.dim("n", lo=kk, hi=7)
    wt, mul, X, R, U, s, Vt = data(V, w, n, kk)
    E, sv, Wt = V.opinf.basis.method_of_snapshots(X, wt)
    V.eq("singular values", sv, s, 1e-5)
    V.eq("orthonormal", E.T @ mul(E), np.eye(len(s)), 1e-4)
    V.eq("factorisation", E @ np.diag(sv) @ Wt, X, 1e-5)


@contract("C11", fns=["svdval_decay", "cumulative_energy", "residual_energy"], modes=("con",),
          cases={"ints": [False, True]}, trials=20)
def energy_functions_count_the_documented_vectors(V, ints):
    np = V.np
    k = V.dim("k", lo=2, hi=8)
    s = np.sort(np.abs(V.generic("s", k)))[::-1] + 0.01
    if ints:
        s = np.arange(1, k + 1)[::-1]
    e = s ** 2 / np.sum(s ** 2)
    v = [float(x) for x in V.rng.uniform(0.01, 0.99, 3)]
    c = np.concatenate(([0], np.cumsum(e)))
    if min(np.min(np.abs(y - x)) for x in v for y in (s / s[0], c, 1 - c, np.sqrt(np.abs(1 - c)))) < 1e-8:
        raise Skip()
    B = V.opinf.basis
    p = V.rng.permutation(k)
    V.eq("decay", np.array(B.svdval_decay(s[p], v, plot=False)), np.array([sum(s / s[0] > x) for x in v]))
    V.eq("cumulative", np.array(B.cumulative_energy(s[p], v, plot=False)),
         np.array([min(r for r in range(k + 1) if c[r] >= x) for x in v]))
    V.eq("residual", np.array(B.residual_energy(s[p], v, plot=False)),
         np.array([min(r for r in range(k + 1) if 1 - c[r] <= x) for x in v]))
    V.eq("sqrt", np.array(B.residual_energy(s[p], v, plot=False, sqrt=True)),
         np.array([min(r for r in range(k + 1) if np.sqrt(max(1 - c[r], 0)) <= x) for x in v]))


def svd_parts(V):
    n, k = V.dim("n", lo=2, hi=7), V.dim("k", lo=1, hi=5)
    if V.symbolic:
        V.assume(k <= n)
    elif k > n:
        raise Skip()
    U = V.array("U", n, k)
    s = V.descending("s", k)
    return n, k, U, s


def selected(V, s, k, crit, v, r):
    """the documented conditions on the dimension r chosen for the threshold v"""
    tot = (s * s).sum()
    part = lambda j: V.sum(j, lambda i: s[i] * s[i])
    inside = {"svdval_threshold": lambda j: s[j - 1] / s[0] >= v,
              "cumulative_energy": lambda j: part(j - 1) / tot < v,
              "residual_energy": lambda j: 1 - part(j - 1) / tot > v,
              "projection_error": lambda j: V.np.sqrt(1 - part(j - 1) / tot) > v}[crit]
    # j <= r  <=>  inside(j), for the two j next to r (the conditions are monotone in j)
    V.true("in range", (r >= (0 if crit == "svdval_threshold" else 1)) & (r <= k) if V.symbolic else
           (crit == "svdval_threshold" or r >= 1) and r <= k)
    if r > (0 if crit == "svdval_threshold" else 1):
        V.true("needed", inside(r))
    if r < k:
        x = inside(r + 1)
        V.true("enough", x.__invert__() if V.symbolic and not isinstance(x, bool) else not x)


@contract("C11", fns=["from_svd", "set_dimension", "_set_dimension_from_criterion", "reduced_state_dimension"],
          cases={"crit": CRITERIA[1:], "how": ["from_svd", "set_dimension"]}, trials=20)
def the_criterion_selects_the_documented_dimension(V, crit, how):
    n, k, U, s = svd_parts(V)
    v = V.real("v", sign="pos")
    if not V.symbolic:
        v = float(V.rng.uniform(0.01, 0.99))
        e = s ** 2 / V.np.sum(s ** 2)
        c = 1 - V.np.cumsum(e)
        if min(V.np.min(V.np.abs(x - v)) for x in (s / s[0], 1 - c, c, V.np.sqrt(V.np.abs(c)))) < 1e-7:
            raise Skip()
    elif crit == "cumulative_energy":
        V.assume(v <= 1)
    P = V.opinf.basis.PODBasis
    if how == "from_svd":
        p = P.from_svd(U, s, **{crit: v})
    else:
        p = P.from_svd(U, s)
        V.true("all", p.reduced_state_dimension == k)
        p.set_dimension(**{crit: v})
    r = p.reduced_state_dimension
    selected(V, s, k, crit, v, r)
    V.eq("entries", p.entries, U[:, :r])
    V.eq("singular values", p.svdvals, s / s[0])
    tot = (s * s).sum()
    V.eq("cumulative energy", p.cumulative_energy, (s[:r] * s[:r]).sum() / tot)
    V.eq("residual energy", p.residual_energy, 1 - (s[:r] * s[:r]).sum() / tot)


@contract("C11", fns=["set_dimension", "reduced_state_dimension"], cases={"how": ["set_dimension", "attribute"]}, trials=20)
def dimension_can_be_changed(V, how):
    n, k, U, s = svd_parts(V)
    p = V.opinf.basis.PODBasis.from_svd(U, s)
    for i in range(2):
        r = V.dim(f"r{i}", hi=7, split=False)
        if how == "attribute":
            p.reduced_state_dimension = r
        else:
            p.set_dimension(num_vectors=r)
        m = r if r <= k else k
        V.true(f"dimension {i}", p.reduced_state_dimension == m)
        V.eq(f"entries {i}", p.entries, U[:, :m])
        V.eq(f"energy {i}", p.cumulative_energy, (s[:m] * s[:m]).sum() / (s * s).sum())
    V.true("available", p.max_vectors == k)


@contract("C11", fns=["fit"], cases={"w": W}, trials=10)
def fitted_basis_is_orthonormal_and_dominant(V, w):
    n, k = V.dim("n", lo=2, hi=7), V.dim("k", lo=1, hi=6)
    wt, mul = weights(V, w, n)
    X = V.generic("X", n, k)
    r = V.dim("r", split=False)
    m = n if n <= k else k
    if V.symbolic:
        V.assume(r <= m)
    elif r > m:
        raise Skip()
    p = V.opinf.basis.PODBasis(num_vectors=r, weights=wt).fit(X)
    E = p.entries
    V.shape("entries", E, (n, r))
    V.true("dimension", p.reduced_state_dimension == r)
    V.true("available", p.max_vectors == m)
    V.eq("orthonormal", E.T @ mul(E), V.eye(r), 1e-6)
    root = (lambda Y: Y) if wt is None else (lambda Y: V.np.sqrt(wt).reshape((-1, 1)) * Y) if wt.ndim == 1 else \
        (lambda Y: V.la.sqrtm(wt) @ Y)
    U, s, Vt = V.la.svd(root(X), full_matrices=False)
    V.eq("singular values", p.svdvals, s / s[0], 1e-6)
    V.eq("directions", root(X @ (X.T @ mul(E))), root(E) * s[:r] ** 2, 1e-6)
    tot = (s * s).sum()
    V.eq("cumulative energy", p.cumulative_energy, (s[:r] * s[:r]).sum() / tot)
    D = V.simp(root(X - p.project(X)))
    V.eq("projection error", (D * D).sum(), tot - (s[:r] * s[:r]).sum(), 1e-6)
    V.eq("right vectors", p.rightvecs, Vt[:m].T)


@contract("C11", fns=["method_of_snapshots"], cases={"w": W}, trials=10)
def method_of_snapshots_is_orthonormal_and_dominant(V, w):
    k = V.dim("k", hi=5)
    n = V.dim("n", lo=2, hi=7)
    if V.symbolic:
        V.assume(k <= n)
    elif k > n:
        raise Skip()
    wt, mul = weights(V, w, n)
    X = V.generic("X", n, k)
    E, s, Vt = V.opinf.basis.method_of_snapshots(X, wt)
    m = s.shape[0]
    V.shape("left", E, (n, m))
    V.shape("right", Vt, (m, k))
    V.eq("orthonormal", E.T @ mul(E), V.eye(m), 1e-5)
    V.eq("right orthonormal", Vt @ Vt.T, V.eye(m), 1e-6)
    V.eq("directions", X @ Vt.T, E * s, 1e-5)
    V.eq("singular", X.T @ mul(E), Vt.T * s, 1e-5)


@contract("C11", fns=["fit", "set_dimension"], modes=("con",), cases={"crit": CRITERIA[1:], "size": [1e-11, 1.0, 1e11]}, trials=40)
def thresholds_over_many_magnitudes(V, crit, size):
    """singular values down to rounding error, thresholds of every magnitude, states of any magnitude"""
    np = V.np
    n = int(V.rng.integers(3, 6))
    s = np.cumprod(10.0 ** -V.rng.uniform(.3, 4, n))
    s = s[s > s[0] * 1e-14]
    if crit != "svdval_threshold":
        s = s[s > s[0] * 1e-6]
    e = s ** 2 / np.sum(s ** 2)
    res = np.array([np.sum(e[i:]) for i in range(1, len(s))] + [0.0])
    vals = {"svdval_threshold": s / s[0], "cumulative_energy": 1 - res, "residual_energy": res, "projection_error": np.sqrt(res)}[crit]
    j = len(s) - 1 if V.rng.random() < .6 else int(V.rng.integers(len(s)))
    v = float(vals[j] * 10 ** V.rng.uniform(-.2, .2)) if crit != "cumulative_energy" else float(1 - res[j] * 10 ** V.rng.uniform(-.2, .2))
    gap = np.abs(vals - v) / (np.abs(vals) + 1e-300) if crit != "cumulative_energy" else np.abs((1 - v) - res) / max(1 - v, 1e-13)
    if not 1e-13 < v < 1 or (crit == "cumulative_energy" and 1 - v < 1e-10) or (crit != "svdval_threshold" and v < 1e-10) or np.min(gap) < 1e-4:
        raise Skip()
    r = expected_r(V, s, crit, v)
    Q = np.zeros((n + 1, len(s)))
    Q[V.rng.permutation(n + 1)[:len(s)], range(len(s))] = s  # exact singular values
    p = V.opinf.basis.PODBasis(**{crit: v}).fit(Q * size)
    V.eq("dimension", p.reduced_state_dimension, r)
    p.set_dimension(num_vectors=len(s))
    p.set_dimension(**{crit: v})
    V.eq("dimension again", p.reduced_state_dimension, r)
