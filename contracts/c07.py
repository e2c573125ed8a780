"""C07: parametric operators and models agree with their nonparametric values."""
from vp.harness import contract, Skip
from _ops import make, hasin, ncols, documented

NAMES = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
             B="InputOperator", N="StateInputOperator")
RB = {"r": [1, 2, 3]}
FORMS = ["callable", "list", "int"]


def coeffs(V, form, nt):
    """-> (coeffs argument, kwargs, theta(mu) list, a function making a parameter)"""
    if form == "callable":
        f = lambda mu: [mu[0] * (k + 1) + mu[1] ** k for k in range(nt)]
        return f, {"nterms": nt}, f, 2
    if form == "list":
        fs = [(lambda mu, k=k: mu[0] ** k + 2 * mu[1] * k) for k in range(nt)]
        return fs, {}, (lambda mu: [f(mu) for f in fs]), 2
    return nt, {}, (lambda mu: [mu[k] for k in range(nt)]), nt


def affine(V, x, form, nt, r, m, tag="E"):
    c, kw, th, p = coeffs(V, form, nt)
    ents = [V.array(f"{tag}{x}{k}", r, ncols(NAMES[x], r, m)) if x != "c" else V.array(f"{tag}{x}{k}", r)
            for k in range(nt)]
    op = getattr(V.opinf.operators, "Affine" + NAMES[x])(c, entries=ents, **kw)
    return op, ents, th, p


@contract("C07", fns=["evaluate", "apply", "jacobian", "set_entries"],
          cases={"x": list("cAHGBN"), "form": FORMS, "nt": [1, 2, 3]}, bound=RB, trials=10)
def affine_operator_is_the_weighted_sum(V, x, form, nt):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    op, ents, th, p = affine(V, x, form, nt, r, m)
    keep = [V.copy(e) for e in ents]
    mu = V.array("mu", p)
    q, u = V.array("q", r), V.array("u", m)
    t = th(mu)
    want = sum([t[k] * keep[k] for k in range(nt)])
    got = op.evaluate(mu)
    V.true("kind", type(got).__name__ == NAMES[x])
    V.eq("entries", got.entries, want)
    plain = getattr(V.opinf.operators, NAMES[x])(want)
    V.eq("apply", op.apply(mu, q, u), plain.apply(q, u))
    V.eq("jacobian", op.jacobian(mu, q, u) + V.np.zeros((r, r)), plain.jacobian(q, u) + V.np.zeros((r, r)))
    for k in range(nt):
        V.eq(f"term {k} unchanged", op.entries[k], keep[k])
    V.true("nterms", op.nterms == nt)
    V.true("dimension", op.operator_dimension(5, r, m) == nt * ncols(NAMES[x], r, m))


@contract("C07", fns=["set_entries", "datablock"], cases={"x": list("cAHBN"), "form": FORMS, "nt": [1, 2, 3]}, bound=RB,
          trials=10)
def affine_datablock_pairs_with_stacked_entries(V, x, form, nt):
    """[A_1 ... A_n] @ datablock is the operator's action at each parameter, trajectory by trajectory"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    c, kw, th, p = coeffs(V, form, nt)
    n = ncols(NAMES[x], r, m)
    stacked = V.array("S", r, nt * n)
    op = getattr(V.opinf.operators, "Affine" + NAMES[x])(c, entries=stacked, fromblock=True, **kw)
    ks = [V.dim("k0", hi=3), V.dim("k1", hi=3, split=False)]
    mus = [V.array("mu0", p), V.array("mu1", p)]
    Qs = [V.array(f"Q{i}", r, ks[i]) for i in range(2)]
    Us = [V.array(f"U{i}", m, ks[i]) for i in range(2)]
    D = op.datablock(mus, Qs, Us)
    V.shape("datablock", D, (nt * n, ks[0] + ks[1]))
    at = 0
    for i in range(2):
        j = V.index(f"j{i}", ks[i])
        V.eq(f"action {i}", stacked @ D[:, at + j], op.evaluate(mus[i]).apply(Qs[i][:, j], Us[i][:, j]))
        at = at + ks[i]


@contract("C07", fns=["galerkin"], cases={"x": list("cAHBN"), "form": FORMS}, bound={"n": [2], "r": [1, 2]}, trials=8)
def affine_galerkin_commutes_with_evaluation(V, x, form):
    n, r, m = V.dim("n", hi=4), V.dim("r", hi=2), V.dim("m", hi=2)
    V.assume(r <= n)
    op, ents, th, p = affine(V, x, form, 2, n, m)
    B, W = V.array("V", n, r), V.array("W", n, r)
    V.nonsingular(W.T @ B)
    mu, z, u = V.array("mu", p), V.array("z", r), V.array("u", m)
    red = op.galerkin(B, W)
    V.eq("commutes", (W.T @ B) @ red.apply(mu, z, u), W.T @ op.apply(mu, B @ z, u))


def params(V, s, p):
    """s distinct, well separated parameters in arbitrary order"""
    np = V.np
    if p == 1:
        x = np.arange(s) + V.rng.uniform(-0.3, 0.3, s)
        return V.rng.permutation(x)
    pts = np.array([[0, 0], [1, 0], [0, 1], [1, 1], [2, 1], [1, 2], [3, 0], [0, 3]], dtype=float)
    x = pts[:s] + V.rng.uniform(-0.1, 0.1, (s, 2))
    return V.rng.permutation(x)


@contract("C07", fns=["evaluate", "set_interpolator", "set_training_parameters"],
          cases={"x": list("cAHGBN"), "p": [1, 2], "how": ["init", "block", "later", "operators"]}, modes=("con",),
          trials=10)
def interpolation_reproduces_training_entries(V, x, p, how):
    """bounded stand-in: scipy's interpolators are outside the verifier"""
    np = V.np
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("s", lo=4, hi=6)
    mus = params(V, s, p)
    cls = getattr(V.opinf.operators, "Interp" + NAMES[x])
    ents = [make(V, NAMES[x], r, m)[0] for _ in range(s)]
    if how == "init":
        op = cls(mus, ents)
    elif how == "block":
        op = cls(mus, np.concatenate(ents, axis=-1), fromblock=True)
    elif how == "later":
        op = cls()
        op.set_training_parameters(mus)
        op.set_entries(ents)
    else:
        op = cls._from_operators(mus, [getattr(V.opinf.operators, NAMES[x])(e) for e in ents])
    m0 = np.array(mus)
    for i in V.rng.permutation(s):
        got = op.evaluate(mus[i])
        V.true("kind", type(got).__name__ == NAMES[x])
        V.eq(f"entries {i}", got.entries, ents[i])
    q, u = V.array("q", r), V.array("u", m)
    mid = mus[0] * 0.6 + mus[1] * 0.4 if p == 2 else float(np.sort(mus)[1] * 0.6 + np.sort(mus)[2] * 0.4)
    e = op.evaluate(mid)
    if np.all(np.isfinite(e.entries)):
        V.eq("apply", op.apply(mid, q, u), e.apply(q, u))
        V.eq("jacobian", np.zeros((r, r)) + op.jacobian(mid, q, u), np.zeros((r, r)) + e.jacobian(q, u))
    V.eq("stored parameters", op.training_parameters, m0)
    if p == 1:
        import scipy.interpolate as si
        o = np.argsort(mus)
        ref = si.CubicSpline(mus[o], np.array(ents)[o])
        V.eq("spline between", e.entries, ref(mid))
        sh = V.rng.permutation(s)
        op2 = cls(mus[sh], [ents[i] for i in sh])
        V.eq("order of parameters", op2.evaluate(mid).entries, e.entries)


@contract("C07", fns=["datablock", "operator_dimension", "set_entries"], cases={"x": list("cAHBN")}, bound=RB, trials=12)
def interp_datablock_is_block_diagonal(V, x):
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), 2
    cls = getattr(V.opinf.operators, "Interp" + NAMES[x])
    n = ncols(NAMES[x], r, m)
    ks = [V.dim("k0", hi=3), V.dim("k1", hi=3, split=False)]
    Qs = [V.array(f"Q{i}", r, ks[i]) for i in range(2)]
    Us = [V.array(f"U{i}", m, ks[i]) for i in range(2)]
    D = cls.datablock([0.0, 1.0], Qs, Us)
    V.shape("datablock", D, (2 * n, ks[0] + ks[1]))
    V.true("dimension", cls.operator_dimension(2, r, m) == 2 * n)
    ents = [V.array(f"E{i}", r, n) for i in range(2)]
    stacked = V.np.hstack(ents)
    Z = stacked @ D
    at = 0
    for i in range(2):
        o = getattr(V.opinf.operators, NAMES[x])(ents[i] if x != "c" else ents[i][:, 0])
        j = V.index(f"j{i}", ks[i])
        V.eq(f"action {i}", Z[:, at + j], o.apply(Qs[i][:, j], Us[i][:, j]))
        at = at + ks[i]


@contract("C07", fns=["rhs", "jacobian", "evaluate"], cases={"kind": ["Continuous", "Discrete"],
                                                              "ops": ["A", "cA", "aB", "cAHB", "hA"]},
          bound=RB, trials=10)
def parametric_model_evaluates_its_operators(V, kind, ops):
    """upper-case letters are affine operators, 'a' and 'h' nonparametric linear / quadratic ones"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    objs, mk = [], []
    mu = V.array("mu", 2)
    for x in ops:
        if x in "ah":
            e, o = make(V, NAMES[x.upper()], r, m, "F" + x)
            objs.append(o)
            mk.append((x.upper(), e))
        else:
            o, ents, th, p = affine(V, x, "callable", 2, r, m)
            t = th(mu)
            objs.append(o)
            mk.append((x, t[0] * ents[0] + t[1] * ents[1]))
    model = getattr(V.opinf.models, f"Parametric{kind}Model")(objs)
    q = V.array("q", r)
    u = V.array("u", m) if "B" in ops else None
    uf = None if u is None else (lambda t: u)
    plain = getattr(V.opinf.models, f"{kind}Model")([getattr(V.opinf.operators, NAMES[x])(e) for x, e in mk])
    if kind == "Continuous":
        V.eq("rhs", model.rhs(0.5, mu, q, uf), plain.rhs(0.5, q, uf))
        V.eq("jacobian", model.jacobian(0.5, mu, q, uf), plain.jacobian(0.5, q, uf))
        V.eq("evaluate", model.evaluate(mu).rhs(0.5, q, uf), plain.rhs(0.5, q, uf))
    else:
        V.eq("rhs", model.rhs(mu, q, u), plain.rhs(q, u))
        V.eq("jacobian", model.jacobian(mu, q, u), plain.jacobian(q, u))
        V.eq("evaluate", model.evaluate(mu).rhs(q, u), plain.rhs(q, u))


class Recorder:
    regularizer = None

    def __init__(self, answer=None):
        self.answer = answer
        self.fits = []

    def fit(self, D, L):
        self.fits.append((D, L))
        self.r = L.shape[0]
        return self

    def solve(self):
        return self.answer

    def copy(self):
        return self


@contract("C07", fns=["fit", "_process_fit_arguments", "_assemble_data_matrix", "_extract_operators"],
          cases={"kind": ["Continuous", "Discrete"], "spec": ["A|", "cA|", "aB|", "HA|c", "A|b", "BA|h", "aB|C"]},
          bound=RB, trials=10)
def parametric_fit_poses_and_distributes(V, kind, spec):
    """upper case (and c): affine with two terms; a, b, h: nonparametric; C: known affine constant"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    fit, known = spec.split("|")
    f = lambda mu: [mu[0] + 1, mu[1] * mu[0]]
    ops, kn, widths = [], [], []
    for x in known:
        X = {"C": "c"}.get(x, x.upper() if x != "c" else "c")
        if x == "C":
            ents = [V.array(f"K{x}{i}", r) for i in range(2)]
            ops.append(V.opinf.operators.AffineConstantOperator(f, nterms=2, entries=ents))
            kn.append((X, lambda mu, ents=ents: f(mu)[0] * ents[0] + f(mu)[1] * ents[1]))
        else:
            e, o = make(V, NAMES[X], r, m, "K" + x)
            ops.append(o)
            kn.append((X, lambda mu, e=e: e))
    for x in fit:
        X = x.upper() if x != "c" else "c"
        n = ncols(NAMES[X], r, m)
        if x in "abh":
            ops.append(getattr(V.opinf.operators, NAMES[X])())
            widths.append((x, X, n))
        else:
            ops.append(getattr(V.opinf.operators, "Affine" + NAMES[X])(f, nterms=2))
            widths.append((x, X, 2 * n))
    d = 0
    for _, _, w in widths:
        d = d + w
    O = V.array("O", r, d)
    solver = Recorder(O)
    model = getattr(V.opinf.models, f"Parametric{kind}Model")(ops, solver=solver)
    ks = [V.dim("k0", hi=3), V.dim("k1", hi=3, split=False)]
    mus = [V.array("mu0", 2), V.array("mu1", 2)]
    Qs = [V.array(f"Q{i}", r, ks[i]) for i in range(2)]
    Ls = [V.array(f"L{i}", r, ks[i]) for i in range(2)]
    hasu = any(hasin(NAMES[X]) for _, X, _ in widths) or any(hasin(NAMES[X]) for X, _ in kn)
    Us = [V.array(f"U{i}", m, ks[i]) for i in range(2)] if hasu else None
    Q0, L0 = [V.copy(q) for q in Qs], [V.copy(x) for x in Ls]
    model.fit(mus, Qs, Ls, inputs=Us)
    D, B = solver.fits[0]
    V.shape("data matrix", D, (ks[0] + ks[1], d))
    V.shape("lhs", B, (r, ks[0] + ks[1]))
    w = V.array("w", 1, d)
    at = 0
    i = V.index("i", r)
    for t in range(2):
        j = V.index(f"j{t}", ks[t])
        u = None if Us is None else Us[t][:, j]
        want, c0 = 0, 0
        for x, X, n in widths:
            n1 = ncols(NAMES[X], r, m)
            for k, th in enumerate([1] if x in "abh" else f(mus[t])):
                e = w[:, c0 + k * n1:c0 + (k + 1) * n1]
                want = want + th * (e[0, 0] if X == "c" else documented(V, NAMES[X], e, r, m, Q0[t][:, j], u, 0))
            c0 = c0 + n
        V.eq(f"features {t}", (D @ w[0])[at + j], want)
        rest = L0[t][i, j]
        for X, e in kn:
            rest = rest - documented(V, NAMES[X], e(mus[t]), r, m, Q0[t][:, j], u, i)
        V.eq(f"left-hand side {t}", B[i, at + j], rest)
        V.eq(f"states {t} unchanged", Qs[t], Q0[t])
        V.eq(f"lhs {t} unchanged", Ls[t], L0[t])
        at = at + ks[t]
    at = 0
    for pos, (x, X, n) in enumerate(widths):
        op = model.operators[len(known) + pos]
        if x in "abh":
            V.eq(f"entries {x}", op.entries, O[:, at:at + n])
        else:
            n1 = ncols(NAMES[X], r, m)
            for k in range(2):
                blk = O[:, at + k * n1:at + (k + 1) * n1]
                V.eq(f"entries {x}{k}", op.entries[k], blk[:, 0] if X == "c" else blk)
        at = at + n


@contract("C07", fns=["fit", "refit"], cases={"kind": ["Continuous", "Discrete"],
                                              "spec": ["A|", "cA|", "AB|", "HA|", "A|c", "AB|c", "HA|c", "A|B", "cA|B",
                                                       "HA|B"]}, modes=("con",), trials=6)
def interp_model_fits_each_parameter(V, kind, spec):
    """a model with interpolated operators equals, at each training parameter, the nonparametric model fitted to
    that parameter's data with the known operators given"""
    ops, known = spec.split("|")
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("s", lo=4, hi=5)
    mus = params(V, s, 1)
    kents = {x: [make(V, NAMES[x], r, m)[0] for _ in range(s)] for x in known}
    objs = [getattr(V.opinf.operators, "Interp" + NAMES[x])(mus, kents[x]) for x in known]
    objs += [getattr(V.opinf.operators, "Interp" + NAMES[x])() for x in ops]
    has = "B" in ops or "B" in known
    d = sum(ncols(NAMES[x], r, m) for x in ops)
    Qs, Ls, Us = [], [], []
    for i in range(s):
        k = d + V.dim(f"x{i}", hi=4)
        Qs.append(V.array("Q", r, k))
        Ls.append(V.array("L", r, k))
        Us.append(V.array("U", m, k))
    model = getattr(V.opinf.models, f"Interp{kind}Model")(objs, solver=1e-2)
    model.fit(list(mus), Qs, Ls, inputs=Us if has else None)
    q, u = V.array("q", r), V.array("u", m)
    for i in range(s):
        plain = getattr(V.opinf.models, f"{kind}Model")(
            [getattr(V.opinf.operators, NAMES[x])(kents[x][i]) for x in known]
            + [getattr(V.opinf.operators, NAMES[x])() for x in ops], solver=1e-2)
        plain.fit(Qs[i], Ls[i], inputs=Us[i] if has else None)
        if kind == "Continuous":
            f = (lambda t: u) if has else None
            V.eq(f"rhs {i}", model.rhs(0.0, mus[i], q, f), plain.rhs(0.0, q, f))
        else:
            V.eq(f"rhs {i}", model.rhs(mus[i], q, u if has else None), plain.rhs(q, u if has else None))


@contract("C07", fns=["predict"], cases={"kind": ["Continuous", "Discrete"], "ops": ["A", "cA", "AB"]}, modes=("con",),
          trials=6)
def parametric_predict_is_the_evaluated_models(V, kind, ops):
    np = V.np
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    objs = []
    for x in ops:
        c, kw, th, p = coeffs(V, "callable", 2)
        ents = [make(V, NAMES[x], r, m)[0] * 0.2 for _ in range(2)]
        objs.append(getattr(V.opinf.operators, "Affine" + NAMES[x])(c, entries=ents, **kw))
    model = getattr(V.opinf.models, f"Parametric{kind}Model")(objs)
    mu, q0 = V.array("mu", 2) * 0.3, V.array("q0", r)
    if kind == "Continuous":
        t = np.linspace(0, 0.5, 4)
        f = (lambda s: np.full(m, s)) if "B" in ops else None
        V.eq("predict", model.predict(mu, q0, t, f, rtol=1e-8), model.evaluate(mu).predict(q0, t, f, rtol=1e-8))
    else:
        U = V.array("U", m, 4) if "B" in ops else None
        V.eq("predict", model.predict(mu, q0, 5, U), model.evaluate(mu).predict(q0, 5, U))


@contract("C07", fns=["rhs", "evaluate", "set_entries"], cases={"kind": ["Continuous", "Discrete"], "ops": ["A", "cA", "AB"]},
          bound=RB, trials=10)
def evaluation_follows_changes(V, kind, ops):
    """evaluating again after the entries or the parameter array were changed uses the present values"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    objs, news = [], []
    mu, nu = V.array("mu", 2) * 1.0, V.array("nu", 2)
    for x in ops:
        o, ents, th, p = affine(V, x, "callable", 2, r, m)
        objs.append(o)
        news.append([V.array(f"N{x}{k}", *ents[k].shape) for k in range(2)])
    model = getattr(V.opinf.models, f"Parametric{kind}Model")(objs)
    q, u = V.array("q", r), V.array("u", m) if "B" in ops else None
    uf = None if u is None else (lambda t: u)
    ev = (lambda: model.rhs(0.5, mu, q, uf)) if kind == "Continuous" else (lambda: model.rhs(mu, q, u))

    def plain(t):
        M = getattr(V.opinf.models, f"{kind}Model")(
            [getattr(V.opinf.operators, NAMES[x])(t[0] * e[0] + t[1] * e[1]) for x, e in zip(ops, news)])
        return M.rhs(0.5, q, uf) if kind == "Continuous" else M.rhs(q, u)

    ev()
    for o, e in zip(model.operators, news):
        o.set_entries([V.copy(a) for a in e])
    V.eq("new entries", ev(), plain(th(mu)))
    mu[...] = nu
    V.eq("overwritten parameter", ev(), plain(th(nu)))


@contract("C07", fns=["fit", "evaluate"], cases={"kind": ["Parametric", "Interp"], "time": ["Continuous", "Discrete"]},
          modes=("con",), trials=8)
def evaluation_follows_refits(V, kind, time):
    """after a second fit the model equals a new model fitted to the second data set"""
    np = V.np
    r, s = V.dim("r", hi=3), 4
    mus = list(params(V, s, 1))

    def new():
        O = V.opinf.operators
        ops = ([O.AffineLinearOperator([lambda mu: 1.0, lambda mu: mu]), O.ConstantOperator()] if kind == "Parametric"
               else [O.InterpLinearOperator(), O.InterpConstantOperator()])
        return getattr(V.opinf.models, f"{kind}{time}Model")(ops, solver=1e-3)

    sets = [([V.array("Q", r, 8) for _ in mus], [V.array("L", r, 8) for _ in mus]) for _ in range(2)]
    q = V.array("q", r)
    where = [mus[0], 0.5 * (mus[1] + mus[2])]
    A, B = new(), new()
    val = lambda M, mu: M.rhs(0.0, mu, q) if time == "Continuous" else M.rhs(mu, q)
    for Qs, Ls in sets:
        A.fit(mus, Qs, Ls)
        for mu in where:
            val(A, mu)
    B.fit(mus, *sets[1])
    for mu in where:
        V.eq("rhs", val(A, mu), val(B, mu))


@contract("C07", fns=["evaluate", "apply", "galerkin", "datablock"], cases={"x": list("cAHGBN"), "nt": [1, 2, 3], "first": ["int", "float"],
                                                                       "theta": ["int", "float"]}, modes=("con",), trials=3)
def number_types_may_be_mixed(V, x, nt, first, theta):
    """integer entries and coefficients beside floating point ones mean the same operator; no term is altered"""
    np = V.np
    r, m = int(V.rng.integers(1, 4)), int(V.rng.integers(1, 3))
    shp = (r,) if x == "c" else (r, ncols(NAMES[x], r, m))
    E = [V.rng.integers(-4, 5, shp).astype(int if (k == 0) == (first == "int") else float) + (0 if (k == 0) == (first == "int") else .25)
         for k in range(nt)]
    th = lambda mu: [(2 if theta == "int" else .5) if k == 0 else mu[0] * k + mu[1] for k in range(nt)]
    mk = lambda es: getattr(V.opinf.operators, "Affine" + NAMES[x])(th, nterms=nt, entries=es)
    op, ref = mk([e.copy() for e in E]), mk([e * 1.0 for e in E])
    q, u = V.rng.integers(-3, 4, r), V.rng.integers(-3, 4, m)
    for rep in (0, 1):
        mu = V.array(f"mu{rep}", 2)
        V.eq("entries", op.evaluate(mu).entries, sum(t * (e * 1.0) for t, e in zip(th(mu), E)))
        V.eq("apply", op.apply(mu, q, u), ref.apply(mu, q * 1.0, u * 1.0))
    for k in range(nt):
        V.true("terms unchanged", np.array_equal(op.entries[k], E[k]))
    if x != "G":
        mus = [V.array(f"a{k}", 2) for k in range(2)]
        Q, U = [V.rng.integers(-3, 4, (r, 3)) for _ in mus], [V.rng.integers(-3, 4, (m, 3)) for _ in mus]
        V.eq("data block", op.datablock(mus, Q, U), ref.datablock(mus, [a * 1.0 for a in Q], [a * 1.0 for a in U]))


@contract("C07", fns=["fit"], cases={"ops": ["AB", "AcB", "AN"], "trim": ["same length", "longer inputs", "next states given"]},
          modes=("con",), trials=6)
def discrete_fit_of_trajectories_of_any_length(V, ops, trim):
    """trajectories of different lengths, in any order, recover the affine model which made them"""
    np = V.np
    r, m = int(V.rng.integers(1, 4)), int(V.rng.integers(1, 3))
    th = lambda mu: [1.0, mu]
    E = {x: [V.rng.normal(size=(r,) if x == "c" else (r, ncols(NAMES[x], r, m))) * (.2 / r) for _ in range(2)] for x in ops}
    step = lambda mu, q, u: sum(documented_all(V, x, E[x][0] + mu * E[x][1], r, m, q, u) for x in ops)
    Qs, Ls, Us, mus = [], [], [], []
    for i in range(5):
        k = int(V.rng.integers(12, 30))
        mus.append(float(V.rng.uniform(.5, 2)))
        U = V.rng.normal(size=(m, k))
        Q = np.empty((r, k))
        Q[:, 0] = V.rng.normal(size=r)
        for j in range(k - 1):
            Q[:, j + 1] = step(mus[-1], Q[:, j], U[:, j])
        Qs.append(Q)
        Us.append(U if trim != "longer inputs" else np.hstack([U, V.rng.normal(size=(m, int(V.rng.integers(1, 4))))]))
    model = V.opinf.models.ParametricDiscreteModel(
        [getattr(V.opinf.operators, "Affine" + NAMES[x])(th, nterms=2) for x in ops])
    if trim == "next states given":
        model.fit(mus, [Q[:, :-1] for Q in Qs], [Q[:, 1:] for Q in Qs], inputs=[U[:, :-1] for U in Us])
    else:
        model.fit(mus, Qs, inputs=Us)
    for x, o in zip(ops, model.operators):
        for k in range(2):
            V.eq(f"entries {x}{k}", o.entries[k], E[x][k], tol=1e-5)


def documented_all(V, x, e, r, m, q, u):
    return V.np.array([documented(V, NAMES[x], e, r, m, q, u, i) for i in range(r)])
