"""C06: fit poses and distributes the documented regression."""
from vp.harness import contract, Skip
from _ops import make, hasin, documented, ncols

NAMES = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
             Q="QuarticOperator", B="InputOperator", N="StateInputOperator")
# upper case letters in FIT are inferred, those in KNOWN are given
CASES = ["A|", "cA|", "HA|", "AB|", "cAHB|", "NA|B", "BA|c", "A|H", "c|A", "H|cA", "B|NA", "GA|c", "Q|A"]
RB = {"r": [1, 2, 3]}


class Recorder:
    """a solver that records the data handed to it and returns a chosen matrix"""
    regularizer = None

    def __init__(self, answer=None):
        self.answer = answer
        self.fits = []

    def fit(self, data_matrix, lhs_matrix):
        self.fits.append((data_matrix, lhs_matrix))
        self.r = lhs_matrix.shape[0]
        return self

    def solve(self):
        return self.answer

    def copy(self):
        return self

    def save(self, *a, **k):
        pass


def usesin(ops):
    return any(hasin(NAMES[x]) for x in ops)


def mixed(V, spec, r, m):
    """operators in interleaved order: known ones first and last"""
    fit, known = spec.split("|")
    kn = {x: make(V, NAMES[x], r, m, "K" + x) for x in known}
    ops, order = [], []
    seq = list(known[:1]) + list(fit) + list(known[1:])
    for x in seq:
        ops.append(kn[x][1] if x in kn else getattr(V.opinf.operators, NAMES[x])())
        order.append(x)
    return fit, {x: kn[x][0] for x in known}, ops


@contract("C06", fns=["fit", "_process_fit_arguments", "_assemble_data_matrix", "_extract_operators", "refit"],
          cases={"kind": ["ContinuousModel", "DiscreteModel"], "spec": CASES}, bound=RB, trials=12)
def fit_poses_and_distributes(V, kind, spec):
    r, m, k = V.dim("r", hi=4), V.dim("m", hi=2), V.dim("k", hi=5)
    fit, known, ops = mixed(V, spec, r, m)
    d = 0
    for x in fit:
        d = d + ncols(NAMES[x], r, m)
    O = V.array("O", r, d)
    solver = Recorder(O)
    model = getattr(V.opinf.models, kind)(ops, solver=solver)
    Q, L = V.array("Q", r, k), V.array("L", r, k)
    U = V.array("U", m, k) if usesin(spec.replace("|", "")) else None
    Q0, L0 = V.copy(Q), V.copy(L)
    res = model.fit(Q, L, inputs=U)
    V.true("returns self", res is model)
    V.true("one fit", len(solver.fits) == 1)
    D, B = solver.fits[0]
    V.shape("data matrix", D, (k, d))
    V.shape("lhs", B, (r, k))
    j, i = V.index("j", k), V.index("i", r)
    u = None if U is None else U[:, j]
    # any row of coefficients times the data matrix is the documented combination of features
    w = V.array("w", 1, d)
    want, at = 0, 0
    for x in fit:
        n = ncols(NAMES[x], r, m)
        e = w[:, at:at + n]
        want = want + (e[0, 0] if x == "c" else documented(V, NAMES[x], e, r, m, Q0[:, j], u, 0))
        at = at + n
    V.eq("features", (D @ w[0])[j], want)
    rest = L0[i, j]
    for x, e in known.items():
        rest = rest - documented(V, NAMES[x], e, r, m, Q0[:, j], u, i)
    V.eq("left-hand side", B[i, j], rest)
    at = 0
    for x in fit:
        n = ncols(NAMES[x], r, m)
        op = next(o for o in model.operators if type(o).__name__ == NAMES[x])
        V.eq(f"entries {x}", op.entries, O[:, at] if x == "c" else O[:, at:at + n])
        at = at + n
    for x, e in known.items():
        op = next(o for o in model.operators if type(o).__name__ == NAMES[x])
        V.eq(f"known {x}", op.entries, e)
    V.eq("states unchanged", Q, Q0)
    V.eq("lhs unchanged", L, L0)
    V.eq("operator_matrix", model.operator_matrix, O)
    V.true("state_dimension", model.state_dimension == r)


@contract("C06", fns=["fit", "refit"], cases={"spec": ["cA|", "A|B", "HA|c"]}, bound=RB, trials=12)
def refit_replaces_the_entries(V, spec):
    """fitting again (new data) or re-solving (new solution) replaces everything learned before"""
    r, m, k, k2 = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("k", hi=4), V.dim("k2", hi=4)
    fit, known, ops = mixed(V, spec, r, m)
    d = 0
    for x in fit:
        d = d + ncols(NAMES[x], r, m)
    O, O2 = V.array("O", r, d), V.array("O2", r, d)
    solver = Recorder(O)
    model = V.opinf.models.ContinuousModel(ops, solver=solver)
    has = usesin(spec.replace("|", ""))
    model.fit(V.array("Q", r, k), V.array("L", r, k), V.array("U", m, k) if has else None)
    solver.answer = O2
    model.refit()
    V.eq("refit", model.operator_matrix, O2)
    solver.answer = O
    Q, L = V.array("Q2", r, k2), V.array("L2", r, k2)
    U = V.array("U2", m, k2) if has else None
    model.fit(Q, L, U)
    V.eq("second fit", model.operator_matrix, O)
    D, B = solver.fits[-1]
    V.shape("data matrix", D, (k2, d))
    i, j = V.index("i", r), V.index("j", k2)
    rest = L[i, j]
    for x, e in known.items():
        rest = rest - documented(V, NAMES[x], e, r, m, Q[:, j], None if U is None else U[:, j], i)
    V.eq("left-hand side", B[i, j], rest)


@contract("C06", fns=["fit", "_process_fit_arguments", "_assemble_data_matrix"], cases={"spec": ["cA|", "c|A", "A|B", "B|HA", "cA|H"]},
          bound=RB, trials=12)
def arrays_may_be_reused(V, spec):
    """the same training arrays, overwritten between two fits: the second fit poses the present problem"""
    r, m, k = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("k", hi=4)
    fit, known, ops = mixed(V, spec, r, m)
    d = 0
    for x in fit:
        d = d + ncols(NAMES[x], r, m)
    solver = Recorder(V.array("O", r, d))
    model = V.opinf.models.ContinuousModel(ops, solver=solver)
    has = usesin(spec.replace("|", ""))
    Q, L, U = V.array("Q", r, k) * 1.0, V.array("L", r, k) * 1.0, V.array("U", m, k) * 1.0 if has else None
    model.fit(Q, L, U)
    Q2, L2, U2 = V.array("Qnew", r, k), V.array("Lnew", r, k), V.array("Unew", m, k)
    Q[...] = Q2
    L[...] = L2
    if has:
        U[...] = U2
    model.fit(Q, L, U)
    D, B = solver.fits[-1]
    fresh = Recorder(solver.answer)
    blank = [type(x)(V.copy(known[n])) if n in known else type(x)()
             for x in ops for n in NAMES if type(x).__name__ == NAMES[n]]
    V.opinf.models.ContinuousModel(blank, solver=fresh).fit(Q2, L2, U2 if has else None)
    V.eq("data matrix", D, fresh.fits[-1][0])
    V.eq("left-hand side", B, fresh.fits[-1][1])


@contract("C06", fns=["fit", "stack_trajectories"], cases={"spec": ["A|", "AB|", "cA|B"]}, bound=RB, trials=15)
def discrete_fit_pairs_successors(V, spec):
    """with no nextstates given, each state is paired with its successor and that step's input"""
    r, m, k = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("k", lo=2, hi=6, split=False)
    fit, known, ops = mixed(V, spec, r, m)
    d = 0
    for x in fit:
        d = d + ncols(NAMES[x], r, m)
    solver = Recorder(V.array("O", r, d))
    model = V.opinf.models.DiscreteModel(ops, solver=solver)
    Q = V.array("Q", r, k)
    extra = V.choice("extra", [0, 1])
    U = V.array("U", m, k - 1 + extra) if usesin(spec.replace("|", "")) else None
    model.fit(Q, inputs=U)
    D, B = solver.fits[0]
    V.shape("data matrix", D, (k - 1, d))
    j, i = V.index("j", k - 1), V.index("i", r)
    w = V.array("w", 1, d)
    u = None if U is None else U[:, j]
    want, at = 0, 0
    for x in fit:
        n = ncols(NAMES[x], r, m)
        e = w[:, at:at + n]
        want = want + (e[0, 0] if x == "c" else documented(V, NAMES[x], e, r, m, Q[:, j], u, 0))
        at = at + n
    V.eq("features", (D @ w[0])[j], want)
    rest = Q[i, j + 1]
    for x, e in known.items():
        rest = rest - documented(V, NAMES[x], e, r, m, Q[:, j], u, i)
    V.eq("left-hand side", B[i, j], rest)


@contract("C06", fns=["stack_trajectories"], cases={"n": [1, 2, 3], "inputs": [False, True]}, trials=15)
def stack_trajectories_concatenates_pairs(V, n, inputs):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    ks = [V.dim(f"k{i}", lo=2, hi=5, split=False) for i in range(n)]
    S = [V.array(f"Q{i}", r, ks[i]) for i in range(n)]
    short = V.choice("short", [0, 1])
    I = [V.array(f"U{i}", m, ks[i] - short) for i in range(n)] if inputs else None
    out = V.opinf.models.DiscreteModel.stack_trajectories(S, I)
    V.true("outputs", len(out) == (3 if inputs else 2))
    at = 0
    for t in range(n):
        j = V.index(f"j{t}", ks[t] - 1)
        V.eq(f"states {t}", out[0][:, at + j], S[t][:, j])
        V.eq(f"nextstates {t}", out[1][:, at + j], S[t][:, j + 1])
        if inputs:
            V.eq(f"inputs {t}", out[2][:, at + j], I[t][:, j])
        at = at + ks[t] - 1
    V.shape("states", out[0], (r, at))
    V.shape("nextstates", out[1], (r, at))


@contract("C06", fns=["fit"], cases={"kind": ["ContinuousModel", "DiscreteModel"], "spec": ["A|", "cAHB|", "A|Bc"]},
          modes=("con",), trials=10)
def fit_minimizes_the_residual(V, kind, spec):
    """with the default solver the fitted operators reproduce data generated by a model of that form"""
    np = V.np
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    fit, known, ops = mixed(V, spec, r, m)
    d = sum(ncols(NAMES[x], r, m) for x in fit)
    k = d + V.dim("extra", hi=6)
    truth = {x: make(V, NAMES[x], r, m)[0] for x in fit}
    Q, U = V.array("Q", r, k), V.array("U", m, k)
    L = np.zeros((r, k))
    for x, e in [*truth.items(), *known.items()]:
        L += getattr(V.opinf.operators, NAMES[x])(e).apply(Q, U)
    has = usesin(spec.replace("|", ""))
    model = getattr(V.opinf.models, kind)(ops)
    model.fit(Q, L, inputs=U if has else None)
    blocks = np.vstack([getattr(V.opinf.operators, NAMES[x]).datablock(Q, U) for x in fit])
    if np.linalg.cond(blocks) > 1e4:
        raise Skip()
    for x in fit:
        op = next(o for o in model.operators if type(o).__name__ == NAMES[x])
        V.eq(f"recovered {x}", op.entries, truth[x], tol=1e-6)


@contract("C06", fns=["operators", "fit"], modes=("con",))
def abbreviations_name_the_documented_operators(V):
    r, m, k = V.dim("r", hi=3), V.dim("m", hi=2), 6
    perm = list(V.rng.permutation(list("cAHGBN")))
    model = V.opinf.models.ContinuousModel("".join(perm), solver=1e-2)
    V.true("order", [type(o).__name__ for o in model.operators] == [NAMES[x] for x in perm])
    model.fit(V.array("Q", r, k), V.array("L", r, k), V.array("U", m, k))
    for x, a in (("c", "c_"), ("A", "A_"), ("H", "H_"), ("G", "G_"), ("B", "B_"), ("N", "N_")):
        V.true("attribute " + x, type(getattr(model, a)).__name__ == NAMES[x])
        V.true("width " + x, (model.__getattribute__(a).entries.size == r * ncols(NAMES[x], r, m)))
    V.true("dimensions", model.state_dimension == r and model.input_dimension == m)
