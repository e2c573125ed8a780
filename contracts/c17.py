"""C17: operator posteriors represent the documented distributions."""
import warnings
from vp.harness import contract, Skip
from c12 import data, regularizer, make, REG

SIZES = ["1", "2", "3", "ragged2", "ragged3", "matrix"]


def rows(V, size):
    """-> (means, [SPD matrices]) of the requested layout"""
    if size == "matrix":
        r, d = 2, V.dim("d", hi=4)
        M = V.array("M", r, d)
        return M, [V.spd(f"P{i}", d) for i in range(r)], r
    r = int(size[-1])
    if size.startswith("ragged"):
        ds = [V.dim(f"d{i}", hi=4) for i in range(r)]
        if not V.symbolic and len(set(ds)) == 1 or V.symbolic and not V.differ(ds):
            raise Skip()
    else:
        ds = [V.dim("d", hi=4)] * r
    return [V.array(f"m{i}", ds[i]) for i in range(r)], [V.spd(f"P{i}", ds[i]) for i in range(r)], r


def posterior(V, means, mats, inverted):
    return V.opinf.roms.OperatorPosterior(means, mats, alreadyinverted=inverted)


@contract("C17", fns=["OperatorPosterior.__init__", "OperatorPosterior.means", "OperatorPosterior.covs"],
          cases={"size": SIZES, "inverted": [False, True]})
def reports_means_and_covariances(V, size, inverted):
    means, mats, r = rows(V, size)
    m0, p0 = V.copy(means), V.copy(mats)
    op = posterior(V, means, mats, inverted)
    V.true("number of rows", op.nrows == r)
    V.true("one random variable per row", len(op.randomvariables) == r and len(op.means) == r and len(op.covs) == r)
    for i in range(r):
        V.eq(f"mean {i}", op.means[i], m0[i])
        V.eq(f"covariance {i}", op.covs[i], p0[i] if inverted else V.inv(p0[i]))
    V.eq("means unchanged", means, m0)
    V.eq("matrices unchanged", mats, p0)


@contract("C17", fns=["OperatorPosterior.rvs"], cases={"size": SIZES, "inverted": [False, True]})
def rows_of_a_draw_follow_their_laws(V, size, inverted):
    """sym: row i is a draw from the i-th random variable, in the documented shape;
    con: first and second moments of seeded draws"""
    means, mats, r = rows(V, size)
    op = posterior(V, means, mats, inverted)
    if V.symbolic:
        V.P.memo["draws"] = []
        O = op.rvs()
        log = V.P.memo["draws"]
        V.true("one draw per row", len(log) == r)
        V.true("rows", len(O) == r)
        if not size.startswith("ragged"):
            V.shape("operator matrix", O, (r, means[0].shape[0]))
        for i, (rv, x) in enumerate(log):
            V.shape(f"row {i}", O[i], means[i].shape)
            V.eq(f"row {i} is a draw", O[i], x)
            V.eq(f"row {i}: mean", rv.mean, means[i])
            V.eq(f"row {i}: covariance", rv.cov, mats[i] if inverted else V.inv(mats[i]))
        return
    np = V.np
    np.random.seed(int(V.rng.integers(2**31)))
    N = 1500
    D = [op.rvs() for _ in range(N)]
    if size.startswith("ragged"):
        V.true("list of rows", isinstance(D[0], list) and len(D[0]) == r)
    else:
        V.shape("operator matrix", D[0], (r, means[0].size))
    whites = []
    for i in range(r):
        x = np.array([O[i] for O in D])
        V.shape(f"row {i}", x, (N, means[i].size))
        cov = mats[i] if inverted else np.linalg.inv(mats[i])
        z = np.linalg.solve(np.linalg.cholesky(cov), (x - means[i]).T)
        whites.append(z)
        V.true(f"row {i}: mean", np.abs(z.mean(axis=1)).max() < 6.5 / N**.5)
        V.true(f"row {i}: covariance", np.abs(z @ z.T / N - np.eye(len(z))).max() < 6.5 * (2 / N)**.5)
        V.true(f"row {i}: successive draws are independent",
               np.abs(z[:, 1:] @ z[:, :-1].T / N).max() < 6.5 / N**.5)
    for i in range(r):
        for j in range(i):
            V.true("rows are independent", np.abs(whites[i] @ whites[j].T / N).max() < 6.5 / N**.5)


@contract("C17", fns=["OperatorPosterior.__eq__"], cases={"change": ["none", "rows", "mean", "cov", "length"]}, trials=8)
def equality_compares_the_laws(V, change):
    d = V.dim("d", hi=4)
    r = 2
    means, mats = [V.array(f"m{i}", d) for i in range(r)], [V.spd(f"P{i}", d) for i in range(r)]
    a = posterior(V, V.copy(means), V.copy(mats), True)
    m2, p2 = V.copy(means), V.copy(mats)
    i = V.choice("row", [0, 1])
    if change == "rows":
        m2, p2 = m2[:1], p2[:1]
    elif change == "mean":
        x = V.array("x", d)
        V.assume(x[0] != m2[i][0])
        m2[i] = x
    elif change == "cov":
        p2[i] = 2 * p2[i]
        if V.symbolic:
            V.assume(p2[i][0, 0] > 0)
    elif change == "length":
        m2[i], p2[i] = V.array("m9", d + 1), V.spd("P9", d + 1)
    b = posterior(V, m2, p2, True)
    for label, x, y in (("equal iff the same laws", a, b), ("symmetric", b, a)):
        same = bool(x == y)
        V.instantiate(0)
        V.instantiate(0, 0)
        V.true(label, same == (change == "none"))


@contract("C17", fns=["OperatorPosterior.__init__"], modes=("con",), trials=6)
def misaligned_data_is_rejected(V):
    np = V.np
    d, r = V.dim("d", hi=4), V.dim("r", hi=3)
    m, P = [V.array(f"m{i}", d) for i in range(r)], [V.spd(f"P{i}", d) for i in range(r)]
    OP = V.opinf.roms.OperatorPosterior
    V.raises("numbers of rows", ValueError, lambda: OP(m, P[:-1]))
    i = V.index("i", r)
    put = lambda x, y: x[:i] + [y] + x[i + 1:]
    for what, a, b in [("2-D mean", put(m, m[i][None]), P), ("mean is no array", put(m, list(m[i])), P),
                       ("1-D precision", m, put(P, P[i][0])), ("precision is no array", m, put(P, P[i].tolist())),
                       ("lengths", put(m, np.ones(d + 1)), P), ("not square", m, put(P, np.ones((d, d + 1))))]:
        V.raises(what, ValueError, lambda: OP(a, b))


# ------------------------------------------------------------------ Bayesian ROMs
def stub_solver(V, means, precs, fail=False):
    """a solver with a given posterior (the ROM is checked against the solver's contract)"""
    op = V.opinf

    class Solver(op.lstsq.L2Solver):
        calls = 0

        def fit(self, D, Z):
            self.fitted = (V.copy(D), V.copy(Z))
            return self

        def solve(self):
            return means

        def posterior(self):
            self.calls += 1
            if fail:
                raise V.np.linalg.LinAlgError("singular")
            return means, precs
    return Solver(1)


@contract("C17", fns=["BayesianROM.fit", "_BayesianROMMixin._initialize_posterior", "_BayesianROMMixin.draw_operators",
                      "BayesianROM.predict"],
          cases={"kind": ["c", "d"], "terms": ["A", "cA", "cAB", "AB"], "fail": [False, True]}, trials=6)
def posterior_of_the_solver_is_used(V, kind, terms, fail):
    op = V.opinf
    r, k = 2, V.dim("k", lo=2, hi=6)
    m = V.dim("m", hi=2) if "B" in terms else 0
    d = ("c" in terms) + r + m
    means, precs = V.array("M", r, d), [V.spd(f"P{i}", d) for i in range(r)]
    solver = stub_solver(V, means, precs, fail)
    cls = op.models.ContinuousModel if kind == "c" else op.models.DiscreteModel
    model = cls(terms, solver=solver)
    rom = op.roms.BayesianROM(model)
    V.true("no posterior before the fit", rom.posterior is None)
    Q, Z = V.array("Q", r, k), V.array("Z", r, k)
    U = V.array("U", m, k) if "B" in terms else None
    Q0, Z0 = V.copy(Q), V.copy(Z)
    V.true("returns self", rom.fit(Q, Z, U) is rom)
    D = [V.np.ones((k, 1))] if "c" in terms else []
    D += [Q0.T] + ([U.T] if U is not None else [])
    V.eq("data matrix", solver.fitted[0], V.np.hstack(D))
    V.eq("left-hand side", V.np.atleast_2d(solver.fitted[1]), Z0)
    V.true("posterior computed once", solver.calls == 1)
    if fail:
        V.true("no posterior", rom.posterior is None)
        return
    post = rom.posterior
    for i in range(r):
        V.eq(f"mean {i}", post.means[i], means[i])
        V.eq(f"covariance {i}", post.covs[i], V.inv(precs[i]))
    # drawing installs the drawn matrix
    drawn = []
    real = post.rvs

    def rvs():
        drawn.append(real())
        return drawn[-1]
    post.rvs = rvs
    rom.draw_operators()
    V.true("one draw", len(drawn) == 1)
    V.eq("installed operators", V.np.hstack([installed(V, o) for o in model.operators]), drawn[0])
    # predictions use a fresh draw
    used = []

    def predict(*args, **kw):
        used.append((V.np.hstack([installed(V, o) for o in model.operators]), args, kw))
        return Q0
    model.predict = predict
    q0 = V.array("q0", r)
    out = rom.predict(q0, 7, method="x")
    V.true("one new draw for a prediction", len(drawn) == 2 and len(used) == 1)
    V.eq("prediction uses the new draw", used[0][0], drawn[1])
    V.eq("initial condition", used[0][1][0], q0)
    V.true("arguments", used[0][1][1:] == (7,) and used[0][2] == {"method": "x"})
    V.eq("prediction", out, Q0)


def installed(V, o):
    E = o.entries
    return E[:, None] if E.ndim == 1 else E


@contract("C17", fns=["BayesianROM.fit"], modes=("con",), trials=5,
          cases={"reg": REG, "kind": ["c", "d"], "terms": ["cA", "A", "cAHB"], "stages": ["", "TB"]})
def fitted_posterior_is_the_bayesian_regression(V, reg, kind, terms, stages):
    np, op = V.np, V.opinf
    n, k, r = 5, 40, 2
    m = 1 if "B" in terms else 0
    rr = r if "B" in stages else n
    d = ("c" in terms) + rr + (rr * (rr + 1) // 2 if "H" in terms else 0) + m
    arg, Gs = regularizer(V, reg, rr, d)
    cls = op.models.ContinuousModel if kind == "c" else op.models.DiscreteModel
    rom = op.roms.BayesianROM(cls(terms, solver=make(V, reg, arg)),
                              transformer=op.pre.ShiftScaleTransformer(centering=True) if "T" in stages else None,
                              basis=op.basis.PODBasis(num_vectors=r) if "B" in stages else None)
    Q, Z, U = V.rng.normal(size=(n, k)), V.rng.normal(size=(n, k)), V.rng.normal(size=(m, k)) if m else None
    rom.fit(Q, Z, U)
    X, Y = rom.encode(Q, Z)
    D = [np.ones((1, k))] if "c" in terms else []
    D.append(X)
    if "H" in terms:
        D.append(np.array([X[i] * X[j] for i in range(rr) for j in range(i + 1)]))
    D = np.vstack(D + ([U] if m else [])).T
    V.true("rows", rom.posterior.nrows == rr)
    for i in range(rr):
        G = Gs[i] if len(Gs) > 1 else Gs[0]
        N = D.T @ D + G.T @ G
        mu = np.linalg.solve(N, D.T @ Y[i])
        s2 = (np.sum((D @ mu - Y[i])**2) + np.sum((G @ mu)**2)) / k
        V.eq(f"mean {i}", rom.posterior.means[i], mu, tol=1e-6)
        V.eq(f"covariance {i}", rom.posterior.covs[i], s2 * np.linalg.inv(N), tol=1e-6)


@contract("C17", fns=["_BayesianROMMixin._validate_model_solver"], trials=2)
def unsupported_solvers_are_rejected(V):
    op = V.opinf
    for s in (op.lstsq.PlainSolver(), op.lstsq.TruncatedSVDSolver(2), op.lstsq.TotalLeastSquaresSolver()):
        V.raises(type(s).__name__, AttributeError, lambda: op.roms.BayesianROM(op.models.ContinuousModel("A", solver=s)))


@contract("C17", fns=["OperatorPosterior.__init__", "OperatorPosterior.covs", "OperatorPosterior.rvs"], modes=("con",),
          cases={"inverted": [False, True], "structure": ["full", "diagonal", "nearly diagonal"]}, trials=10)
def every_scale_of_the_precision(V, inverted, structure):
    """covariances and draws to relative accuracy, whatever the magnitude and structure of the matrices"""
    np = V.np
    d = V.dim("d", lo=1, hi=4)
    P = V.spd("P", d)
    if structure == "diagonal":
        P = np.diag(np.diag(P))
    elif structure == "nearly diagonal":
        P = np.diag(np.diag(P)) + 1e-4 * (P - np.diag(np.diag(P)))
    s = float(10.0 ** V.rng.integers(-14, 13))
    S = np.sqrt(V.rng.choice([1.0, 1e-3, 1e3], d)) if V.rng.random() < .5 else np.ones(d)
    given = s * (S[:, None] * P * S)
    want = np.linalg.inv(P)
    op = posterior(V, [V.array("m", d)], [given.copy()], inverted)
    got = op.covs[0]
    if inverted:
        V.eq("covariance", got / s / S[:, None] / S, P)
    else:
        V.eq("covariance", got * s * S[:, None] * S, want)
    np.random.seed(int(V.rng.integers(2**31)))
    X = np.array([op.rvs()[0] - op.means[0] for _ in range(400)])
    L = np.linalg.cholesky(P if inverted else want)
    X = X / np.sqrt(s) / S if inverted else X * np.sqrt(s) * S
    Y = np.linalg.solve(L, X.T)
    C = Y @ Y.T / 400
    V.true("draws have the covariance", bool(np.abs(C - np.eye(d)).max() < 0.6))


@contract("C17", fns=["BayesianROM.fit", "BayesianROM.posterior"], modes=("con",), trials=4,
          cases={"reg": REG, "stages": ["", "TB"]})
def refitted_posterior_forgets_the_first_data(V, reg, stages):
    np, op = V.np, V.opinf
    n, k, r = 5, 40, 2
    rr = r if "B" in stages else n
    arg, Gs = regularizer(V, reg, rr, rr + 1)

    def new():
        return op.roms.BayesianROM(op.models.ContinuousModel("cA", solver=make(V, reg, V.copy(arg))),
                                   transformer=op.pre.ShiftScaleTransformer(centering=True) if "T" in stages else None,
                                   basis=op.basis.PODBasis(num_vectors=r) if "B" in stages else None)

    A, B = new(), new()
    reuse, Q, Z = V.choice("reuse", [False, True]), np.zeros((n, k)), np.zeros((n, k))
    for _ in range(2):
        Q, Z = (Q, Z) if reuse else (Q * 1, Z * 1)
        Q[...], Z[...] = V.rng.normal(size=(n, k)), V.rng.normal(size=(n, k))
        A.fit(Q, Z)
        A.draw_operators()
    B.fit(Q, Z)
    for i in range(rr):
        V.eq(f"mean {i}", A.posterior.means[i], B.posterior.means[i])
        V.eq(f"covariance {i}", A.posterior.covs[i], B.posterior.covs[i])


@contract("C17", fns=["BayesianROM.fit", "OperatorPosterior.__init__"], modes=("con",), trials=12, cases={"kind": REG})
def posterior_at_any_magnitude(V, kind):
    """means and covariances of the documented distribution, whatever the units of the data"""
    from c12 import scaled, decoupled
    np = V.np
    D, Z, zarg, r, d, k = data(V)
    if k <= d:
        raise Skip()
    s, t = 10.0 ** V.rng.integers(-4, 5, 2)
    reg, Gs = regularizer(V, kind, r, d)
    solver = make(V, kind, scaled(reg, s)).fit(D * s, Z * t)
    O = np.array([np.linalg.solve(D.T @ D + Gs[i if decoupled(kind) else 0].T @ Gs[i if decoupled(kind) else 0], D.T @ Z[i])
                  for i in range(r)])
    res = [np.sum((D @ O[i] - Z[i]) ** 2) + np.sum((Gs[i if decoupled(kind) else 0] @ O[i]) ** 2) for i in range(r)]
    if min(res) < 1e-6:
        raise Skip()
    p = V.opinf.roms.OperatorPosterior(*solver.posterior())
    for i in range(r):
        G = Gs[i if decoupled(kind) else 0]
        V.eq(f"mean {i}", p.means[i] * (s / t), O[i], tol=1e-5)
        want = np.linalg.inv((D.T @ D + G.T @ G) / (res[i] / k))
        V.eq(f"covariance {i}", p.covs[i] * (s / t) ** 2 / np.abs(want).max(), want / np.abs(want).max(), tol=1e-5)
