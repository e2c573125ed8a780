"""C12: the least-squares solvers return the documented minimizer."""
import warnings
from vp.harness import contract, Skip
from _ops import OPS, ncols

REG = ["l2", "l2d", "tik", "tik.diag", "tik.normal", "tik.normal.diag", "tikd", "tikd.diag", "tikd.normal"]
RB = {"r": [1, 2, 3]}


def data(V, lhs="2d", under=False):
    """-> (D (k x d), Z (r x k), lhs as given)"""
    d, r = V.dim("d", lo=2 if under else 1, hi=5), V.dim("r", hi=3)
    k = V.dim("k", hi=d - 1 if under and not V.symbolic else 9)
    if not under:
        V.assume(k >= d)
    D = V.array("D", k, d) if V.symbolic else V.generic("D", k, d)
    if not V.symbolic and not under and V.np.linalg.cond(D) > 1e4:
        raise Skip()
    if lhs == "1d":
        z = V.array("z", k)
        return D, z.reshape((1, -1)), z, 1, d, k
    Z = V.array("Z", r, k)
    return D, Z, Z, r, d, k


class Rows:
    """one matrix per row, for any number of rows"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i)


def rows(V, r):
    """all the rows, or an arbitrary one of a symbolic number"""
    return range(r) if isinstance(r, int) else [V.index("row", r)]


def regularizer(V, kind, r, d, tag=""):
    """-> (argument, list of r matrices Gamma_i)"""
    np = V.np
    if kind == "l2":
        lam = V.real("lam" + tag, sign="pos")
        return lam, [lam * V.eye(d)] * (r if isinstance(r, int) else 1)
    if kind == "l2d":
        lam = V.array("lam" + tag, r, sign="pos")
        return V.copy(lam), (Rows(lambda i: lam[i] * V.eye(d)) if not isinstance(r, int) else [x * V.eye(d) for x in lam])
    diag = kind.endswith("diag")
    if kind.startswith("tikd"):
        Gs = [V.array(f"G{tag}{i}", d, sign="pos") if diag else V.array(f"G{tag}{i}", d, d) for i in range(r)]
        if not diag:
            for G in Gs:
                V.nonsingular(G)
        return [V.copy(G) for G in Gs], [np.diag(G) if diag else G for G in Gs]
    G = V.array("G" + tag, d, sign="pos") if diag else V.array("G" + tag, d, d)
    if not diag:
        V.nonsingular(G)
    return V.copy(G), [np.diag(G) if diag else G] * (r if isinstance(r, int) else 1)


def make(V, kind, reg):
    L = V.opinf.lstsq
    if kind == "l2":
        return L.L2Solver(reg)
    if kind == "l2d":
        return L.L2DecoupledSolver(reg)
    cls = L.TikhonovDecoupledSolver if kind.startswith("tikd") else L.TikhonovSolver
    return cls(reg, method="normal" if "normal" in kind else "lstsq")


def decoupled(kind):
    return kind.startswith("tikd") or kind == "l2d"


def normal_equations(V, label, O, D, Z, Gs, r, d, every):
    """gradient of the documented (convex) objective is zero at O"""
    V.shape(label, O, (r, d))
    if every:
        for i in rows(V, r):
            V.eq(f"{label} row {i}", O[i] @ (D.T @ D + Gs[i].T @ Gs[i]), Z[i] @ D)
    else:
        V.eq(label, O @ (D.T @ D + Gs[0].T @ Gs[0]), Z @ D)


def quiet():
    return warnings.catch_warnings()


@contract("C12", fns=["PlainSolver.fit", "PlainSolver.solve"], cases={"lhs": ["1d", "2d"]})
def plain_solution_is_a_minimizer(V, lhs):
    D, Z, zarg, r, d, k = data(V, lhs)
    D0, Z0 = V.copy(D), V.copy(zarg)
    s = V.opinf.lstsq.PlainSolver()
    V.true("fit returns self", s.fit(D, zarg) is s)
    O = s.solve()
    V.shape("solution", O, (r, d))
    V.eq("normal equations", O @ (D.T @ D), Z @ D)
    V.eq("data kept", s.data_matrix, D0)
    V.eq("data matrix unchanged", D, D0)
    V.eq("lhs unchanged", zarg, Z0)
    V.eq("again", s.solve(), O)


@contract("C12", fns=["fit", "solve", "regularizer"], cases={"kind": REG, "lhs": ["1d", "2d"]}, bound=RB)
def regularized_solution_is_the_minimizer(V, kind, lhs):
    D, Z, zarg, r, d, k = data(V, lhs)
    reg, Gs = regularizer(V, kind, r, d)
    D0, Z0, reg0 = V.copy(D), V.copy(zarg), V.copy(reg)
    s = make(V, kind, reg)
    V.true("fit returns self", s.fit(D, zarg) is s)
    O = s.solve()
    normal_equations(V, "minimizer", O, D, Z, Gs, r, d, decoupled(kind))
    V.eq("data matrix unchanged", D, D0)
    V.eq("lhs unchanged", zarg, Z0)
    V.eq("regularizer unchanged", reg, reg0)


@contract("C12", fns=["fit", "solve", "regularizer"], cases={"kind": REG}, bound=RB)
def changing_the_regularizer_is_a_new_solver(V, kind):
    """set after construction, changed after fit and solve: the last regularizer decides"""
    D, Z, zarg, r, d, k = data(V)
    reg1, _ = regularizer(V, kind, r, d, "1")
    reg2, Gs = regularizer(V, kind, r, d, "2")
    s = make(V, kind, reg1)
    s.fit(D, Z)
    s.solve()
    s.regularizer = reg2
    O = s.solve()
    normal_equations(V, "after a change", O, D, Z, Gs, r, d, decoupled(kind))
    t = make(V, kind, None)
    t.fit(D, Z)
    t.regularizer = V.copy(reg2)
    V.eq("set after fit", t.solve(), O)
    t = make(V, kind, V.copy(reg2)).fit(D, Z)
    V.eq("new solver", t.solve(), O)


@contract("C12", fns=["fit", "solve"], cases={"kind": REG + ["plain"]}, bound=RB)
def refit_replaces_the_data(V, kind):
    """nothing of an earlier fit survives a later one"""
    D, Z, zarg, r, d, k = data(V)
    k2 = V.dim("k2", lo=6, hi=9) if not V.symbolic else k
    D1, Z1 = V.array("Dold", k2, d), V.array("Zold", r, k2)
    if kind == "plain":
        s, Gs = V.opinf.lstsq.PlainSolver(), None
    else:
        reg, Gs = regularizer(V, kind, r, d)
        s = make(V, kind, reg)
    s.fit(D1, Z1)
    s.solve()
    s.fit(D, Z)
    O = s.solve()
    if Gs is None:
        V.eq("normal equations", O @ (D.T @ D), Z @ D)
        V.eq("residual", s.residual(O), V.tab((r,), lambda i: V.sum(
            k, lambda q: (V.sum(d, lambda p: D[q, p] * O[i, p]) - Z[i, q]) ** 2)))
        return
    normal_equations(V, "minimizer", O, D, Z, Gs, r, d, decoupled(kind))


@contract("C12", fns=["fit", "solve"], cases={"kind": REG + ["plain"]}, bound=RB, trials=8)
def arrays_may_be_reused(V, kind):
    """fitted again with the same arrays, overwritten in between: the present problem is solved"""
    D, Z, zarg, r, d, k = data(V)
    D1, Z1 = V.array("Dold", k, d) * 1.0, V.array("Zold", r, k) * 1.0
    if kind == "plain":
        s, Gs = V.opinf.lstsq.PlainSolver(), None
    else:
        reg, Gs = regularizer(V, kind, r, d)
        s = make(V, kind, reg)
    s.fit(D1, Z1)
    s.solve()
    D1[...] = D
    Z1[...] = Z
    s.fit(D1, Z1)
    O = s.solve()
    if Gs is None:
        V.eq("normal equations", O @ (D.T @ D), Z @ D)
        return
    normal_equations(V, "minimizer", O, D, Z, Gs, r, d, decoupled(kind))


@contract("C12", fns=["residual", "regresidual"], cases={"kind": REG + ["plain"]}, bound=RB)
def residuals_are_the_documented_norms(V, kind):
    D, Z, zarg, r, d, k = data(V)
    O = V.array("O", r, d)
    O0 = V.copy(O)
    res = V.tab((r,), lambda i: V.sum(k, lambda q: (V.sum(d, lambda p: D[q, p] * O[i, p]) - Z[i, q]) ** 2))
    if kind == "plain":
        s = V.opinf.lstsq.PlainSolver().fit(D, Z)
        V.eq("residual", s.residual(O), res)
        return
    reg, Gs = regularizer(V, kind, r, d)
    s = make(V, kind, reg).fit(D, Z)
    V.eq("residual", s.residual(O), res)
    rr = s.regresidual(O)
    V.shape("regresidual", rr, (r,))
    if decoupled(kind):
        for i in rows(V, r):
            V.eq(f"regresidual {i}", rr[i], res[i] + V.sum(d, lambda q: V.sum(d, lambda p: Gs[i][q, p] * O[i, p]) ** 2))
    else:
        V.eq("regresidual", rr, V.tab((r,), lambda i: res[i] + V.sum(
            d, lambda q: V.sum(d, lambda p: Gs[0][q, p] * O[i, p]) ** 2)))
    V.eq("argument unchanged", O, O0)


@contract("C12", fns=["posterior"], cases={"kind": REG, "change": [False, True]}, bound=RB)
def posterior_is_the_bayesian_regression(V, kind, change):
    """means are the minimizers; precision_i = (D^T D + G_i^T G_i) / (regularized residual_i / k)"""
    D, Z, zarg, r, d, k = data(V)
    if not V.symbolic and k <= d:
        raise Skip()
    if change:
        reg1, _ = regularizer(V, kind, r, d, "1")
        s = make(V, kind, reg1).fit(D, Z)
        reg, Gs = regularizer(V, kind, r, d, "2")
        s.regularizer = reg
    else:
        reg, Gs = regularizer(V, kind, r, d)
        s = make(V, kind, reg).fit(D, Z)
    try:
        means, precs = s.posterior()
    except RuntimeError:                 # documented: a perfect regression has no posterior
        if not V.symbolic:
            V.true("perfect", V.np.min(s.regresidual(s.solve())) < 1e-8)
        return
    V.eq("means", means, s.solve())
    V.true("number", means.shape[0] == r and (precs.n if hasattr(precs, "n") else len(precs)) == r)
    O = s.solve()
    rr = s.regresidual(O)
    for i in rows(V, r):
        G = Gs[i if decoupled(kind) else 0]
        V.shape(f"precision {i}", precs[i], (d, d))
        V.eq(f"precision {i}", precs[i], (D.T @ D + G.T @ G) / (rr[i] / k))


@contract("C12", fns=["_check_sigmas"], cases={"kind": REG}, modes=("con",))
def perfect_regression_has_no_posterior(V, kind):
    D, Z, zarg, r, d, k = data(V)
    reg, Gs = regularizer(V, kind, r, d)
    s = make(V, kind, reg).fit(D, Z * 0)
    V.raises("deterministic", RuntimeError, s.posterior)


@contract("C12", fns=["TruncatedSVDSolver.fit", "TruncatedSVDSolver.solve", "num_svdmodes"],
          cases={"how": ["given", "set", "none", "zero", "negative", "negset", "none.set"], "shape": ["tall", "wide"]})
def truncated_svd_solution(V, how, shape):
    """O = Z Phi' S'^-1 Psi'^T with the first n singular triplets"""
    np = V.np
    D, Z, zarg, r, d, k = data(V, under=shape == "wide")
    if not V.symbolic and np.linalg.cond(D) > 1e4:
        raise Skip()
    if shape == "wide":
        V.assume(k < d)
    D0, Z0 = V.copy(D), V.copy(Z)
    d_ = d if shape == "tall" else k
    n = V.dim("n", hi=5)
    V.assume(n <= d_)
    cls = V.opinf.lstsq.TruncatedSVDSolver
    if "negative" == how or how == "negset":
        V.assume(n < d_)
    arg = {"given": n, "set": n, "none": None, "zero": 0, "negative": n - d_, "negset": n - d_, "none.set": None}[how]
    if not V.symbolic and arg is not None:
        arg = int(arg)
    if how in ("set", "negset", "none.set"):
        s = cls(1)
        s.fit(D, Z)
        s.solve()
        s.num_svdmodes = arg
    else:
        s = cls(arg)
        s.fit(D, Z)
    if how in ("none", "zero", "none.set"):
        n = d_
    V.eq("num_svdmodes", s.num_svdmodes, n)
    V.eq("max_modes", s.max_modes, d_)
    U, S, W = V.la.svd(D, full_matrices=False)
    want = V.tab((r, d), lambda i, j: V.sum(n, lambda q: V.sum(k, lambda t: Z[i, t] * U[t, q]) * W[q, j] / S[q]))
    O = s.solve()
    V.eq("solution", O, want)
    V.eq("again", s.solve(), O)
    V.eq("data matrix unchanged", D, D0)
    V.eq("lhs unchanged", Z, Z0)


@contract("C12", fns=["TruncatedSVDSolver.fit", "num_svdmodes"], modes=("con",), cases={"how": ["refit", "reused", "same data", "many"]})
def truncated_svd_refit(V, how):
    np = V.np
    D, Z, zarg, r, d, k = data(V)
    cls = V.opinf.lstsq.TruncatedSVDSolver
    if how == "many":
        s = cls(d + int(V.rng.integers(1, 4))).fit(D, Z)
        V.eq("capped", s.num_svdmodes, d)
        V.eq("solution", s.solve(), np.linalg.lstsq(D, Z.T, rcond=None)[0].T)

        def f():
            s.num_svdmodes = d + 1
        V.raises("too many", ValueError, f)
        V.raises("not an integer", TypeError, lambda: cls(2.0))
        return
    n = int(V.rng.integers(1, d + 1))
    D1, Z1 = D if how == "same data" else V.generic("D1", k, d), Z + 1
    s = cls(n).fit(D1, Z1)
    s.solve()
    if how == "reused":
        D1[...] = D
        Z1[...] = Z
        s.fit(D1, Z1)
    else:
        s.fit(D, Z)
    U, S, W = np.linalg.svd(D, full_matrices=False)
    V.eq("solution", s.solve(), (Z @ U[:, :n] / S[:n]) @ W[:n])


@contract("C12", fns=["TotalLeastSquaresSolver.fit", "TotalLeastSquaresSolver.solve"], modes=("con",), trials=60,
          cases={"lhs": ["1d", "2d"]})
def total_least_squares(V, lhs):
    """the smallest perturbation of [D Z^T] which makes the system consistent, and its solution"""
    np = V.np
    D, Z, zarg, r, d, k = data(V, lhs)
    if k < d + r:
        raise Skip()
    D0, Z0 = V.copy(D), V.copy(zarg)
    s = V.opinf.lstsq.TotalLeastSquaresSolver()
    V.true("fit returns self", s.fit(D, zarg) is s)
    O = s.solve()
    V.shape("solution", O, (r, d))
    M = np.hstack((D, Z.T))
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[d - 1] - sv[d] < 1e-3 * sv[0] or np.abs(O).max() > 1e3:
        raise Skip()
    V.eq("error", s.error, np.sqrt(np.sum(sv[d:] ** 2)))
    # distance from [D Z^T] to the consistent matrices [E, E O^T]: E = M B^T (B B^T)^-1, B = [I O^T]
    B = np.hstack((np.eye(d), O.T))
    E = M @ B.T @ np.linalg.inv(B @ B.T)
    V.eq("attained", np.linalg.norm(E @ B - M), np.sqrt(np.sum(sv[d:] ** 2)))
    V.eq("data matrix unchanged", D, D0)
    V.eq("lhs unchanged", zarg, Z0)
    V.eq("augcond", s.augcond, sv[0] / sv[-1], tol=1e-5)
    Dw = V.generic("Dw", d + r - 1, d) if d + r > 1 else None
    if Dw is not None:
        V.raises("underdetermined", ValueError, lambda: s.fit(Dw, V.generic("Zw", r, d + r - 1)))


@contract("C12", fns=["TotalLeastSquaresSolver.fit"], modes=("sym",))
def total_least_squares_formula(V):
    """Psi_ZZ^T O = -Psi_DZ^T for the right singular vectors of [D Z^T]"""
    np = V.np
    d, r, k = V.dim("d"), V.dim("r"), V.dim("k")
    V.assume(k >= d + r)
    D, Z = V.array("D", k, d), V.array("Z", r, k)
    s = V.opinf.lstsq.TotalLeastSquaresSolver().fit(D, Z)
    U, S, P = V.la.svd(np.hstack((D, Z.T)), full_matrices=False)
    V.eq("documented system", P[d:, d:] @ s.solve(), -P[d:, :d])
    V.eq("data matrix", s.data_matrix, D)


OPSETS = ["cAHB", "AB", "HN", "cAHGBN", "GA", "Q"]
NAMES = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
             Q="QuarticOperator", B="InputOperator", N="StateInputOperator")


@contract("C12", fns=["get_operator_regularizer"], cases={"ops": OPSETS, "affine": [False, True]})
def operator_regularizer_columns(V, ops, affine):
    """parameter i is placed on exactly the columns of operator i"""
    r, m = V.dim("r", hi=4), V.dim("m", hi=3)
    o = V.opinf.operators
    lst, widths = [], []
    for i, x in enumerate(ops):
        w = ncols(NAMES[x], r, m)
        if affine and i == 0 and x in "cAHGB":
            q = 2
            lst.append(getattr(o, "Affine" + NAMES[x])(q))
            w = w * q
        else:
            lst.append(getattr(o, NAMES[x])())
        widths.append(w)
    ps = [V.real(f"p{i}", sign="pos") for i in range(len(ops))]
    has = any(x in "BN" for x in ops)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        reg = V.opinf.lstsq.TikhonovSolver.get_operator_regularizer(lst, ps, r, m if has else 0)
    V.shape("length", reg, (sum(widths),))
    at = 0
    for i, w in enumerate(widths):
        j = V.index(f"c{i}", w)
        V.eq(f"operator {i}", reg[at + j], ps[i])
        at = at + w
    V.raises("lengths", ValueError, lambda: V.opinf.lstsq.TikhonovSolver.get_operator_regularizer(lst, ps[1:], r, m))
    if has:
        V.raises("inputs", ValueError, lambda: V.opinf.lstsq.TikhonovSolver.get_operator_regularizer(lst, ps, r))


@contract("C12", fns=["get_operator_regularizer", "solve"], modes=("con",), cases={"ops": ["cAB", "AH", "cAHBN"]})
def operator_regularizer_minimizes_the_weighted_norms(V, ops):
    """penalty = sum of gamma_i^2 ||operator_i||_F^2"""
    np = V.np
    r, m, k = V.dim("r", hi=3), V.dim("m", hi=2), 30
    o = V.opinf.operators
    lst = [getattr(o, NAMES[x])() for x in ops]
    w = [ncols(NAMES[x], r, m) for x in ops]
    ps = [abs(V.real(f"p{i}")) + 0.1 for i in range(len(ops))]
    cls = V.opinf.lstsq.TikhonovSolver
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        reg = cls.get_operator_regularizer(lst, ps, r, m if set("BN") & set(ops) else 0)
    D, Z = V.generic("D", k, sum(w)), V.generic("Z", r, k)
    s = cls(reg).fit(D, Z)
    O = s.solve()
    pen, at = 0, 0
    for p, n in zip(ps, w):
        pen = pen + p ** 2 * np.sum(O[:, at:at + n] ** 2, axis=1)
        at += n
    V.eq("penalty", s.regresidual(O) - s.residual(O), pen)
    V.eq("normal equations", O @ (D.T @ D + np.diag(np.concatenate([[p ** 2] * n for p, n in zip(ps, w)]))), Z @ D)


@contract("C12", fns=["fit", "regularizer"], cases={"kind": REG}, bound=RB)
def bad_arguments_are_rejected(V, kind):
    D, Z, zarg, r, d, k = data(V)
    DE = V.opinf.errors.DimensionalityError
    reg, Gs = regularizer(V, kind, r, d)
    s = make(V, kind, None)
    V.raises("untrained", AttributeError, s.solve)
    V.raises("misaligned", DE, lambda: s.fit(D, V.array("Zb", r, k + 1)))
    V.raises("one-dimensional data", ValueError, lambda: s.fit(D[:, 0], Z))
    s.fit(D, Z)
    V.raises("no regularizer", AttributeError, s.solve)
    V.raises("no regularizer", AttributeError, s.posterior)
    V.raises("no regularizer", AttributeError, lambda: s.regresidual(V.array("O", r, d)))
    V.raises("operator shape", DE, lambda: s.residual(V.array("Ob", r, d + 1)))
    s.regularizer = reg

    def setreg(x):
        def f():
            make(V, kind, x)
            t = make(V, kind, None).fit(D, Z)
            t.regularizer = x
            t.solve()
        return f
    if kind == "l2":
        V.raises("negative", ValueError, setreg(-1.0))
        V.raises("type", TypeError, setreg(reg * V.np.ones(2)))
    elif kind == "l2d":
        V.raises("negative", ValueError, setreg(-reg))
        V.raises("length", (ValueError, DE), setreg(V.np.ones(r + 1)))
    elif kind.startswith("tikd"):
        V.raises("length", (ValueError, DE), setreg(list(reg) + [reg[0]]))
        V.raises("shape", (ValueError, DE), setreg([V.np.eye(d + 1)] * r))
        V.raises("negative", ValueError, setreg([-V.np.ones(d)] * r))
    else:
        V.raises("shape", (ValueError, DE), setreg(V.np.eye(d + 1)))
        V.raises("negative", ValueError, setreg(-V.np.ones(d)))


@contract("C12", fns=["TikhonovSolver.solve", "PlainSolver.solve"], modes=("con",),
          cases={"kind": ["plain", "tik", "tikd"]})
def cutoff_is_respected(V, kind):
    """singular values below the cutoff `cond` (relative) are treated as zero, for every row"""
    np = V.np
    L = V.opinf.lstsq
    d, r = V.dim("d", lo=2, hi=4), V.dim("r", hi=3)
    k = d + 3
    U, _ = np.linalg.qr(V.generic("U", k, d))
    W, _ = np.linalg.qr(V.generic("W", d, d))
    s = np.ones(d)
    s[-1] = 1e-5
    D, Z = (U * s) @ W, V.array("Z", r, k)
    drv = V.choice("driver", [None, "gelsd", "gelsy", "gelss"])
    if drv == "gelsy":
        drv = None
    n = d - 1
    want = (Z @ U[:, :n]) @ W[:n]
    if kind == "plain":
        O = L.PlainSolver(cond=1e-3, lapack_driver=drv).fit(D, Z).solve()
    elif kind == "tik":
        O = L.TikhonovSolver(np.zeros(d), cond=1e-3, lapack_driver=drv).fit(D, Z).solve()
    else:
        O = L.TikhonovDecoupledSolver([np.zeros(d)] * r, cond=1e-3, lapack_driver=drv).fit(D, Z).solve()
    V.eq("cutoff", O, want)


@contract("C12", fns=["cond", "regcond", "tcond"], modes=("con",), cases={"kind": REG + ["plain", "tsvd"]})
def condition_numbers(V, kind):
    np = V.np
    D, Z, zarg, r, d, k = data(V)
    L = V.opinf.lstsq
    if kind == "plain":
        V.eq("cond", L.PlainSolver().fit(D, Z).cond(), np.linalg.cond(D))
    elif kind == "tsvd":
        n = int(V.rng.integers(1, d + 1))
        s = L.TruncatedSVDSolver(n).fit(D, Z)
        sv = np.linalg.svd(D, compute_uv=False)
        V.eq("tcond", s.tcond(), sv[0] / sv[n - 1])
    else:
        reg, Gs = regularizer(V, kind, r, d)
        s = make(V, kind, reg).fit(D, Z)
        V.eq("cond", s.cond(), np.linalg.cond(D))
        c = np.array([np.linalg.cond(np.vstack((D, G))) for G in (Gs[i] for i in range(r))])
        V.eq("regcond", s.regcond(), c if decoupled(kind) else c[0])


@contract("C12", fns=["copy", "reset"], cases={"kind": REG + ["plain", "tsvd", "tsvd.none", "tls"],
                                                             "fitted": [False, True]}, bound=RB)
def copies_solve_the_same_problem(V, kind, fitted):
    """copy() keeps regularizer, options and data; changing the copy leaves the original alone"""
    np = V.np
    D, Z, zarg, r, d, k = data(V)
    L = V.opinf.lstsq
    if kind == "tls" and k < d + r:
        raise Skip()
    if kind in REG:
        reg, Gs = regularizer(V, kind, r, d, "1")
        s = make(V, kind, reg)
    else:
        s = {"plain": L.PlainSolver, "tls": L.TotalLeastSquaresSolver, "tsvd": lambda: L.TruncatedSVDSolver(-1),
             "tsvd.none": lambda: L.TruncatedSVDSolver(None)}[kind]()
    if kind == "tsvd" and d == 1:
        raise Skip()
    if fitted:
        s.fit(D, Z)
    c = s.copy()
    V.true("kind", type(c) is type(s))
    V.eq("options", repr(dict(c.options)), repr(dict(s.options)))
    if not fitted:
        V.true("not fitted", c.data_matrix is None and c.r is None)
        c.fit(D, Z)
        s.fit(D, Z)
    O = s.solve()
    V.eq("same solution", c.solve(), O)
    if kind in REG:
        reg2, _ = regularizer(V, kind, r, d, "2")
        c.regularizer = reg2
        c.solve()
    c.fit(D + 1, Z - 1) if kind != "tls" else c.fit(D + 1, Z)
    V.eq("original alone", s.solve(), O)


@contract("C12", fns=["regularizer", "fit", "solve"], cases={"kind": ["tik.lstsq", "tik.normal", "tikd.lstsq", "tikd.normal"],
                                                              "form": ["list", "csr", "csc", "coo", "dia", "diagonal list", "mixed"]},
          modes=("con",), trials=5)
def regularizers_may_have_any_form(V, kind, form):
    """lists and sparse matrices mean the dense matrix they represent, diagonals the diagonal matrix"""
    import scipy.sparse as sp
    np = V.np
    d, r, k = int(V.rng.integers(2, 5)), int(V.rng.integers(1, 4)), 12
    D, Z = V.array("D", k, d), V.array("Z", r, k)
    Gs = [V.array(f"G{i}", d, d) + 3 * np.eye(d) for i in range(r)]
    forms = {"list": lambda G: G.tolist(), "diagonal list": lambda G: np.abs(np.diag(G)).tolist()}
    for f in ("csr", "csc", "coo", "dia"):
        forms[f] = lambda G, f=f: getattr(sp, f + "_array")(G)
    used = []
    for i in range(r):
        f = list(forms)[int(V.rng.integers(len(forms)))] if form == "mixed" else form
        if f == "diagonal list":
            Gs[i] = np.diag(np.abs(np.diag(Gs[i])))
        used.append(forms[f](Gs[i]))
    dec = decoupled(kind)
    if not dec:
        Gs = Gs[:1] * r
    O = make(V, kind, used if dec else used[0]).fit(D, Z).solve()
    normal_equations(V, "minimizer", O, D, Z, Gs, r, d, True)


def scaled(reg, s):
    """the same regularizer in other units"""
    if isinstance(reg, (list, tuple)):
        return [scaled(x, s) for x in reg]
    return reg * s


@contract("C12", fns=["fit", "solve", "residual", "regresidual", "posterior"], modes=("con",), cases={"kind": REG + ["plain"]}, trials=12)
def units_of_the_data_do_not_matter(V, kind):
    """data of any magnitude: multiplying D and the regularizers by s and Z by t multiplies the minimizer by t/s"""
    D, Z, zarg, r, d, k = data(V)
    s, t = 10.0 ** V.rng.integers(-7, 8, 2)
    if kind == "plain":
        a, b, Gs = V.opinf.lstsq.PlainSolver(), V.opinf.lstsq.PlainSolver(), None
    else:
        reg, Gs = regularizer(V, kind, r, d)
        a, b = make(V, kind, reg), make(V, kind, scaled(reg, s))
    a.fit(D, Z), b.fit(D * s, Z * t)
    O, P = a.solve(), b.solve()
    V.eq("solution", P * (s / t), O, tol=1e-5)
    if Gs is not None:
        normal_equations(V, "normal equations", P * (s / t), D, Z, Gs, r, d, decoupled(kind))
        V.eq("regularized residuals", b.regresidual(P) / t**2, a.regresidual(O))
        if k > d and 1e-3 <= t and min(a.regresidual(O)) > 1e-6:
            M, precs = b.posterior()
            V.eq("posterior means", M * (s / t), O, tol=1e-5)
            for i in range(r):
                G = Gs[i if decoupled(kind) else 0]
                want = (D.T @ D + G.T @ G) / (a.regresidual(O)[i] / k)
                V.eq(f"precision {i}", precs[i] * (t / s) ** 2 / V.np.abs(want).max(), want / V.np.abs(want).max())
    V.eq("residuals", b.residual(P) / t**2, a.residual(O))
