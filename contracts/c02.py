"""C02: Jacobians are exact derivatives."""
from vp.harness import contract
from _ops import OPS, make, hasin, ddir, POLY

RB = {"r": [1, 2, 3]}


@contract("C02", fns=["jacobian", "_precompute_jacobian_jit", "expand_entries"], cases={"op": OPS}, bound=RB)
def operator_jacobian_is_derivative(V, op):
    r, m = V.dim("r"), V.dim("m", hi=3)
    E, o = make(V, op, r, m)
    q, h, u = V.array("q", r), V.array("h", r), V.array("u", m)
    q0 = V.copy(q)
    J = o.jacobian(q, u)
    d = ddir(lambda x: o.apply(x, u), q, h)
    if V.np.ndim(J) == 0:
        V.eq("zero", J, 0.0)
        V.eq("derivative", d, V.np.zeros(r))
    else:
        V.shape("jacobian", J, (r, r))
        V.eq("derivative", J @ h, d)
    V.eq("state unchanged", q, q0)


@contract("C02", fns=["jacobian"], cases={"op": sorted(POLY)}, bound=RB)
def operator_jacobian_at_a_second_state(V, op):
    """cached quantities do not leak from one state to the next, nor across new entries"""
    r = V.dim("r", hi=4)
    E, o = make(V, op, r, 1)
    q1, q2 = V.array("q1", r), V.array("q2", r)
    o.jacobian(q1)
    E2, o2 = make(V, op, r, 1, "F")
    J = o.jacobian(q2)
    fresh = getattr(V.opinf.operators, op)(E)
    V.eq("second state", J, fresh.jacobian(q2))
    o.set_entries(E2)
    V.eq("new entries", o.jacobian(q2), o2.jacobian(q2))


SETS = ["c", "A", "cA", "H", "cAH", "AB", "cAHB", "AN", "cAHBN", "BN", "G", "Q", "AHG"]


@contract("C02", fns=["jacobian", "rhs"], cases={"kind": ["ContinuousModel", "DiscreteModel"], "ops": SETS}, bound=RB,
          trials=10)
def model_jacobian_is_derivative_of_rhs(V, kind, ops):
    r, m = V.dim("r", hi=4), V.dim("m", hi=2)
    names = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
                 Q="QuarticOperator", B="InputOperator", N="StateInputOperator")
    os_ = [make(V, names[x], r, m, "E" + x)[1] for x in ops]
    model = getattr(V.opinf.models, kind)(os_)
    q, h = V.array("q", r), V.array("h", r)
    u = V.array("u", m) if any(hasin(names[x]) for x in ops) else None
    if kind == "ContinuousModel":
        uf = None if u is None else (lambda t: u)
        J = model.jacobian(0.3, q, uf)
        f = lambda x: model.rhs(0.3, x, uf)
    else:
        J = model.jacobian(q, u)
        f = lambda x: model.rhs(x, u)
    V.shape("jacobian", J, (r, r))
    V.eq("derivative", J @ h, ddir(f, q, h))


@contract("C02", fns=["jacobian"], cases={"op": OPS}, bound=RB, trials=8)
def arrays_may_be_reused(V, op):
    """the same state and input arrays, overwritten between two calls"""
    r, m = V.dim("r", hi=4), V.dim("m", hi=3)
    E, o = make(V, op, r, m)
    q, u = V.array("q", r) * 1.0, V.array("u", m) * 1.0
    q2, u2 = V.array("qnew", r), V.array("unew", m)
    o.jacobian(q, u)
    q[...] = q2
    u[...] = u2
    V.eq("second state", o.jacobian(q, u), getattr(V.opinf.operators, op)(V.copy(E)).jacobian(q2, u2))


@contract("C02", fns=["jacobian"], cases={"kind": ["ContinuousModel", "DiscreteModel"], "ops": ["A", "cAH", "AB", "cAHBN"]},
          bound=RB, trials=8)
def model_jacobian_follows_changes(V, kind, ops):
    """new entries, overwritten states and inputs: the jacobian is that of the present model"""
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    names = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", B="InputOperator", N="StateInputOperator")
    model = getattr(V.opinf.models, kind)([make(V, names[x], r, m, "E" + x)[1] for x in ops])
    q, q2, u, u2 = V.array("q", r) * 1.0, V.array("qnew", r), V.array("u", m) * 1.0, V.array("unew", m)
    has = any(hasin(names[x]) for x in ops)

    def ev(M, q, u):
        if kind == "ContinuousModel":
            return M.jacobian(0.3, q, (lambda t: u) if has else None)
        return M.jacobian(q, u if has else None)

    ev(model, q, u)
    q[...] = q2
    u[...] = u2
    fresh = getattr(V.opinf.models, kind)([getattr(V.opinf.operators, names[x])(V.copy(o.entries))
                                           for x, o in zip(ops, model.operators)])
    V.eq("second state", ev(model, q, u), ev(fresh, q2, u2))
    pairs = [make(V, names[x], r, m, "F" + x) for x in ops]
    for o, (e, _) in zip(model.operators, pairs):
        o.set_entries(V.copy(e))
    V.eq("new entries", ev(model, q, u), ev(getattr(V.opinf.models, kind)([o for _, o in pairs]), q2, u2))
