"""C05: a model evaluates the sum of its operators, and predict iterates it."""
from vp.harness import contract, Skip
from _ops import make, hasin, documented

NAMES = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
             Q="QuarticOperator", B="InputOperator", N="StateInputOperator")
SETS = ["c", "A", "B", "cA", "AB", "HA", "BAc", "NA", "cAHB", "NBHAc", "GA", "QH"]
KINDS = ["ContinuousModel", "DiscreteModel"]
RB = {"r": [1, 2, 3]}


def build(V, kind, ops, r, m, order=None):
    pairs = [make(V, NAMES[x], r, m, "E" + x) for x in ops]
    if order:
        pairs = [pairs[i] for i in order]
    return [e for e, _ in pairs], getattr(V.opinf.models, kind)([o for _, o in pairs])


def usesin(ops):
    return any(hasin(NAMES[x]) for x in ops)


def ev(model, kind, q, u):
    if kind == "ContinuousModel":
        return model.rhs(0.7, q, None if u is None else (lambda t: u))
    return model.rhs(q, u)


@contract("C05", fns=["rhs"], cases={"kind": KINDS, "ops": SETS}, bound=RB, trials=12)
def rhs_is_the_sum_of_the_operators(V, kind, ops):
    r, m = V.dim("r", hi=4), V.dim("m", hi=2)
    E, model = build(V, kind, ops, r, m)
    E0 = [V.copy(e) for e in E]
    q = V.array("q", r)
    u = V.array("u", m) if usesin(ops) else None
    q0 = V.copy(q)
    y = ev(model, kind, q, u)
    V.shape("rhs", y, (r,))
    i = V.index("i", r)
    want = 0
    for x, e in zip(ops, E0):
        want = want + documented(V, NAMES[x], e, r, m, q0, u, i)
    V.eq("sum", y[i], want)
    V.eq("state unchanged", q, q0)
    for k, (o, e) in enumerate(zip(model.operators, E0)):
        V.eq(f"operator {k} unchanged", o.entries, e)


@contract("C05", fns=["rhs"], cases={"kind": KINDS, "ops": ["cA", "BAc", "cAHB", "NBHAc"]}, bound=RB, trials=12)
def rhs_does_not_depend_on_operator_order(V, kind, ops):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    E, model = build(V, kind, ops, r, m)
    order = V.choice("order", [tuple(range(len(ops)))[::-1], tuple(range(1, len(ops))) + (0,)])
    other = getattr(V.opinf.models, kind)([model.operators[i] for i in order])
    q = V.array("q", r)
    u = V.array("u", m) if usesin(ops) else None
    V.eq("rhs", ev(other, kind, q, u), ev(model, kind, q, u))


@contract("C05", fns=["rhs"], cases={"kind": KINDS, "ops": ["A", "cA", "AB", "cAHBN"]}, bound=RB, trials=12)
def rhs_batch_is_column_by_column(V, kind, ops):
    r, m, k = V.dim("r", hi=4), V.dim("m", hi=2), V.dim("k", hi=4)
    E, model = build(V, kind, ops, r, m)
    Q = V.array("Q", r, k)
    U = V.array("U", m, k) if usesin(ops) else None
    j = V.index("j", k)
    V.eq("column", ev(model, kind, Q, U)[:, j], ev(model, kind, Q[:, j], None if U is None else U[:, j]))


@contract("C05", fns=["predict", "rhs"], cases={"ops": ["A", "cA", "AB", "cAHB", "NBA", "GA"]}, trials=15,
          bound={"r": [1, 2], "niters": [1, 2, 3]})
def discrete_predict_iterates_rhs(V, ops):
    r, m = V.dim("r", hi=4), V.dim("m", hi=2)
    niters = V.dim("niters", hi=6)
    E, model = build(V, "DiscreteModel", ops, r, m)
    q0 = V.array("q0", r)
    q00 = V.copy(q0)
    extra = V.dim("extra", lo=0, hi=2, split=False)
    U = None
    if usesin(ops):
        U = V.array("U", m, niters - 1 + extra)
    Y = model.predict(q0, niters, U)
    V.shape("states", Y, (r, niters))
    V.eq("initial", Y[:, 0], q00)
    V.eq("argument unchanged", q0, q00)
    if not V.symbolic and niters == 1:
        return
    V.assume(niters >= 2)
    j = V.index("j", niters - 1)
    u = None if U is None else U[:, j]
    i = V.index("i", r)
    want = 0
    for x, e in zip(ops, E):
        want = want + documented(V, NAMES[x], e, r, m, Y[:, j], u, i)
    V.eq("step", Y[i, j + 1], want)


def stable(V, ops, r, m):
    """a mildly damped system, so that solutions exist on the interval"""
    np = V.np
    objs, ents = [], []
    for x in ops:
        e, o = make(V, NAMES[x], r, m)
        e = e * 0.3
        if x == "A":
            e = e - np.eye(r)
        if x in "HGQ":
            e = e * 0.1
        objs.append(getattr(V.opinf.operators, NAMES[x])(e))
        ents.append(e)
    return ents, objs


@contract("C05", fns=["predict"], cases={"ops": ["A", "cA", "AB", "cAHB", "NA"],
                                         "method": ["RK45", "BDF", "Radau", "LSODA"]}, modes=("con",), trials=3)
def continuous_predict_solves_the_ode(V, ops, method):
    """compared with an independent integration of the documented right-hand side (tolerance 1e-5)"""
    np = V.np
    import scipy.integrate as si
    import scipy.interpolate as sint
    r, m = V.dim("r", hi=3), V.dim("m", hi=4)
    E, objs = stable(V, ops, r, m)
    model = V.opinf.models.ContinuousModel(objs)
    q0 = V.array("q0", r)
    nt = V.dim("nt", lo=3, hi=9)
    if m > 1 and V.rng.random() < .4:
        nt = m  # as many times as inputs
    t0 = V.choice("t0", [0.0, 0.5, -1.0])
    t = np.sort(np.concatenate([[t0, t0 + 1.0], t0 + V.rng.uniform(0.05, 0.95, nt - 2)]))
    form = V.choice("form", ["callable", "array", "scalar"]) if usesin(ops) else "none"
    w = np.arange(1, m + 1)
    base = lambda s: np.sin(3 * w * s)
    if form == "array":
        U = np.array([base(s) for s in t]).T
        f = sint.CubicSpline(t, U, axis=1)
        arg = U if m > 1 or V.rng.random() < 0.5 else U[0]
    elif form == "scalar" and m == 1:
        f, arg = base, (lambda s: float(np.sin(3 * s)))
    elif form == "none":
        f, arg = (lambda s: None), None
    else:
        f = arg = base
    want_rhs = lambda s, q: np.array([sum(documented(V, NAMES[x], e, r, m, q, f(s), i) for x, e in zip(ops, E))
                                      for i in range(r)])
    tt = t.copy()
    Y = model.predict(q0, t, arg, method=method, rtol=1e-9, atol=1e-11)
    V.shape("states", Y, (r, len(t)))
    ref = si.solve_ivp(want_rhs, [t[0], t[-1]], q0, t_eval=t, rtol=1e-10, atol=1e-12, method="DOP853")
    V.eq("solution", Y, ref.y, tol=1e-5)
    V.eq("initial", Y[:, 0], q0, tol=1e-9)
    V.eq("times unchanged", t, tt)
    # rhs and Jacobian offered to the solver use the input at the solver's time
    s = float(V.rng.uniform(t[0], t[-1]))
    q = V.array("q", r)
    cf = None if form == "none" else (lambda x: f(x))
    V.eq("rhs at time", model.rhs(s, q, cf), want_rhs(s, q))


@contract("C05", fns=["predict"], modes=("sym",), cases={"ops": ["A", "cAHB", "NA"],
                                                         "method": [None, "RK45", "BDF", "Radau", "LSODA"]},
          bound=RB)
def continuous_predict_hands_rhs_to_the_integrator(V, ops, method):
    r, m = V.dim("r"), V.dim("m")
    E, model = build(V, "ContinuousModel", ops, r, m)
    q0 = V.array("q0", r)
    nt = V.dim("nt", lo=2, split=False)
    t = V.array("t", nt)
    u = V.array("u", m)
    f = (lambda s: u * s) if usesin(ops) else None
    opts = {} if method is None else {"method": method}
    Y = model.predict(q0, t, f, **opts)
    calls = V.P.calls
    V.true("one integration", len(calls) == 1)
    c = calls[0]
    V.eq("returned", Y, c["y"])
    V.eq("from", c["t_span"][0], t[0])
    V.eq("to", c["t_span"][1], t[nt - 1])
    V.eq("initial condition", c["y0"], q0)
    V.eq("times", c["t_eval"], t)
    s = V.real("s")
    q = V.array("q", r)
    i = V.index("i", r)
    want = 0
    for x, e in zip(ops, E):
        want = want + documented(V, NAMES[x], e, r, m, q, None if f is None else f(s), i)
    V.eq("rhs", c["fun"](s, q, *c["args"])[i], want)
    if method in ("BDF", "Radau", "LSODA"):
        V.eq("jacobian", c["options"]["jac"](s, q, *c["args"]), model.jacobian(s, q, f))


@contract("C05", fns=["rhs", "predict"], modes=("con",), cases={"kind": KINDS})
def integer_states(V, kind):
    """integer-valued states are states"""
    r, m = V.dim("r", hi=3), 1
    E, model = build(V, kind, "cAHB", r, m)
    q = V.rng.integers(-2, 3, r)
    u = V.array("u", 1)
    V.eq("rhs", ev(model, kind, q, u), ev(model, kind, q * 1.0, u))
    f = (lambda x: model.jacobian(0.1, x, lambda t: u)) if kind == "ContinuousModel" else (
        lambda x: model.jacobian(x, u))
    V.eq("jacobian", f(q), f(q * 1.0))
    if kind == "DiscreteModel":
        V.eq("predict", model.predict(q, 3, V.np.ones((1, 2))), model.predict(q * 1.0, 3, V.np.ones((1, 2))))


@contract("C05", fns=["rhs"], cases={"kind": KINDS, "ops": ["cA", "AB", "cAHB"]}, bound=RB, trials=12)
def rhs_follows_changes(V, kind, ops):
    """the value depends on the present entries, state and input only"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    E, model = build(V, kind, ops, r, m)
    q, u = V.array("q", r), V.array("u", m)
    q2, u2 = V.array("q2", r), V.array("u2", m)
    x, y = V.copy(q) * 1.0, V.copy(u) * 1.0
    has = usesin(ops)
    ev(model, kind, x, y if has else None)
    x[...] = q2
    y[...] = u2
    new = [make(V, NAMES[o], r, m, "New" + o) for o in ops]
    for op, (e, o) in zip(model.operators, new):
        op.set_entries(e)
    i = V.index("i", r)
    want = 0
    for o, (e, _) in zip(ops, new):
        want = want + documented(V, NAMES[o], e, r, m, q2, u2, i)
    V.eq("rhs", ev(model, kind, x, y if has else None)[i], want)
