"""C01: operators apply exactly their entries times the data block."""
from vp.harness import contract
from _ops import OPS, make, ncols, documented, hasin

RB = {"r": [1, 2, 3]}


@contract("C01", fns=["apply", "datablock", "operator_dimension", "set_entries"], cases={"op": OPS}, bound=RB)
def apply_is_entries_times_datablock(V, op):
    r, m = V.dim("r"), V.dim("m", hi=3)
    E, o = make(V, op, r, m)
    E0 = V.copy(E)
    q, u = V.array("q", r), V.array("u", m)
    q0, u0 = V.copy(q), V.copy(u)
    y = o.apply(q, u)
    D = o.datablock(q[:, None], u[:, None])
    E2 = E0 if op != "ConstantOperator" else E0[:, None]
    V.eq("entries", o.entries, E0)
    V.eq("apply", y, (E2 @ D)[:, 0])
    V.true("dimension", D.shape[0] == o.operator_dimension(r, m))
    V.true("dimension.entries", E2.shape[1] == o.operator_dimension(r, m))
    V.true("state_dimension", o.state_dimension == r)
    if hasin(op):
        V.true("input_dimension", o.input_dimension == m)
    V.eq("state unchanged", q, q0)
    V.eq("input unchanged", u, u0)


@contract("C01", fns=["apply"], cases={"op": OPS}, bound=RB)
def apply_is_the_documented_sum(V, op):
    r, m = V.dim("r"), V.dim("m", hi=3)
    E, o = make(V, op, r, m)
    q, u = V.array("q", r), V.array("u", m)
    row = V.index("row", r)
    V.eq("value", o.apply(q, u)[row], documented(V, op, E, r, m, q, u, row))


@contract("C01", fns=["datablock"], cases={"op": OPS}, bound=RB)
def datablock_is_the_documented_features(V, op):
    """E @ datablock is the documented sum for every row vector E, column by column"""
    r, m, k = V.dim("r"), V.dim("m", hi=3), V.dim("k", hi=4)
    W = V.array("W", 1, ncols(op, r, m))
    Q, U = V.array("Q", r, k), V.array("U", m, k)
    D = getattr(V.opinf.operators, op).datablock(Q, U)
    V.shape("datablock", D, (ncols(op, r, m), k))
    j = V.index("j", k)
    want = W[0, 0] if op == "ConstantOperator" else documented(V, op, W, r, m, Q[:, j], U[:, j], 0)
    V.eq("value", (W @ D)[0, j], want)


@contract("C01", fns=["apply"], cases={"op": OPS}, bound=RB)
def apply_batch_is_column_by_column(V, op):
    r, m, k = V.dim("r"), V.dim("m", hi=3), V.dim("k", hi=4)
    E, o = make(V, op, r, m)
    Q, U = V.array("Q", r, k), V.array("U", m, k)
    Q0, U0 = V.copy(Q), V.copy(U)
    Y = o.apply(Q, U)
    V.shape("batch", Y, (r, k))
    j = V.index("j", k)
    V.eq("column", Y[:, j], o.apply(Q[:, j], U[:, j]))
    V.eq("states unchanged", Q, Q0)
    V.eq("inputs unchanged", U, U0)


@contract("C01", fns=["apply"], cases={"op": OPS})
def apply_one_dimensional_forms(V, op):
    """r = 1 (and m = 1): a one-dimensional array of k states is k snapshots"""
    k = V.dim("k", lo=2, hi=5)
    E, o = make(V, op, 1, 1)
    q, u = V.array("q", k), V.array("u", k)
    Y = o.apply(q, u)
    Z = o.apply(q[None, :], u[None, :])
    V.shape("two-dimensional", Z, (1, k))
    j = V.index("j", k)
    e = E[0] if op == "ConstantOperator" else E[0, 0]
    p = {"ConstantOperator": 0, "LinearOperator": 1, "QuadraticOperator": 2, "CubicOperator": 3,
         "QuarticOperator": 4, "InputOperator": 0, "StateInputOperator": 1}[op]
    want = e
    for _ in range(p):
        want = want * q[j]
    if hasin(op):
        want = want * u[j]
    V.eq("two-dimensional", Z[0, j], want)
    Y = V.np.reshape(Y, (k,))
    V.eq("one-dimensional", Y[j], want)


@contract("C01", fns=["apply"], cases={"op": ["InputOperator"]})
def input_operator_single_input_batch(V, op):
    """m = 1: a one-dimensional array of k inputs is k snapshots"""
    r, k = V.dim("r", lo=2), V.dim("k", lo=2)
    E, o = make(V, op, r, 1)
    u = V.array("u", k)
    Y = o.apply(None, u)
    V.shape("batch", Y, (r, k))
    i, j = V.index("i", r), V.index("j", k)
    V.eq("value", Y[i, j], E[i, 0] * u[j])


@contract("C01", fns=["apply", "set_entries"], modes=("con",), cases={"fmt": ["csr_array", "csc_matrix", "coo_array"]})
def sparse_linear_operator(V, fmt):
    import scipy.sparse as sp
    r, k = V.dim("r", hi=6), V.dim("k")
    E = V.array("E", r, r)
    E[V.rng.random((r, r)) < 0.5] = 0
    o = V.opinf.operators.LinearOperator(getattr(sp, fmt)(E))
    d = V.opinf.operators.LinearOperator(E)
    Q = V.array("Q", r, k)
    V.eq("batch", o.apply(Q), d.apply(Q))
    V.eq("single", o.apply(Q[:, 0]), d.apply(Q[:, 0]))
    V.eq("jacobian", o.jacobian(Q[:, 0]).toarray(), E)
    B = V.array("B", r, V.dim("s", hi=3))
    V.nonsingular(B.T @ B)
    V.eq("galerkin", o.galerkin(B).entries, d.galerkin(B).entries)


@contract("C01", fns=["apply"], modes=("con",), cases={"op": OPS})
def integer_states(V, op):
    """integer-valued states are states: the result equals that for the same floating point states"""
    r, m, k = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("k", hi=3)
    E, o = make(V, op, r, m)
    Q, U = V.rng.integers(-3, 4, (r, k)), V.rng.integers(-3, 4, (m, k))
    V.eq("batch", o.apply(Q, U), o.apply(Q * 1.0, U * 1.0))
    V.eq("single", o.apply(Q[:, 0], U[:, 0]), o.apply(Q[:, 0] * 1.0, U[:, 0] * 1.0))
    if r == 1:
        V.eq("flat", o.apply(Q[0], None if m > 1 and not hasin(op) else U[0]) if m == 1 else 0,
             o.apply(Q[0] * 1.0, U[0] * 1.0) if m == 1 else 0)
    V.eq("datablock", o.datablock(Q, U), o.datablock(Q * 1.0, U * 1.0))


@contract("C01", fns=["apply"], modes=("con",), cases={"op": OPS})
def no_state_leaks_between_calls(V, op):
    """the value depends on the arguments only, not on earlier calls or replaced entries"""
    r, m = V.dim("r", hi=4), V.dim("m", hi=2)
    E, o = make(V, op, r, m)
    E2, o2 = make(V, op, r, m, "E2")
    q, u = V.array("q", r), V.array("u", m)
    for s in V.rng.integers(0, 4, 5):
        x = V.array("x", r)
        o.apply(x, u) if s < 2 else o.jacobian(x, u)
    o.entries = E2
    V.eq("apply", o.apply(q, u), o2.apply(q, u))
    V.eq("jacobian", V.np.zeros((r, r)) + o.jacobian(q, u), V.np.zeros((r, r)) + o2.jacobian(q, u))
    V.true("equal", bool(o == o2))


@contract("C01", fns=["apply", "set_entries"], cases={"op": OPS, "how": ["set_entries", "property"]}, bound=RB, trials=10)
def replaced_entries_are_used(V, op, how):
    """also when the state array is overwritten in place between calls"""
    r, m = V.dim("r", hi=4), V.dim("m", hi=2)
    E, o = make(V, op, r, m)
    E2, o2 = make(V, op, r, m, "E2")
    q, u = V.array("q", r), V.array("u", m)
    q2, u2 = V.array("q2", r), V.array("u2", m)
    o.apply(q, u)
    q = V.copy(q) * 1.0
    u = V.copy(u) * 1.0
    o.apply(q, u)
    q[...] = q2
    u[...] = u2
    V.eq("overwritten state", o.apply(q, u), make_like(V, op, E).apply(q2, u2))
    if how == "property":
        o.entries = E2
    else:
        o.set_entries(E2)
    V.eq("replaced entries", o.apply(q, u), o2.apply(q2, u2))


def make_like(V, op, E):
    return getattr(V.opinf.operators, op)(E)


@contract("C01", fns=["apply", "datablock"], cases={"op": OPS}, bound=RB, trials=8)
def arrays_may_be_reused(V, op):
    """the same arrays, overwritten between two calls: the second call uses their present contents"""
    r, m, k = V.dim("r", hi=4), V.dim("m", hi=3), V.dim("k", hi=3)
    E, o = make(V, op, r, m)
    q, u, Q, U = V.array("q", r) * 1.0, V.array("u", m) * 1.0, V.array("Q", r, k) * 1.0, V.array("U", m, k) * 1.0
    new = [V.array(a + "new", *s) for a, s in (("q", (r,)), ("u", (m,)), ("Q", (r, k)), ("U", (m, k)))]
    o.apply(q, u)
    o.apply(Q, U)
    o.datablock(Q, U)
    for a, b in zip((q, u, Q, U), new):
        a[...] = b
    fresh = getattr(V.opinf.operators, op)(V.copy(E))
    q2, u2, Q2, U2 = new
    V.eq("one state", o.apply(q, u), fresh.apply(q2, u2))
    V.eq("several states", o.apply(Q, U), fresh.apply(Q2, U2))
    V.eq("datablock", o.datablock(Q, U), fresh.datablock(Q2, U2))


@contract("C01", fns=["apply", "datablock"], modes=("con",), cases={"op": OPS, "same": ["k=r", "m=r", "k=m", "k=m=r"]}, trials=6)
def coincident_sizes(V, op, same):
    """sizes that happen to be equal: the axes keep their meaning"""
    r, k, m = (int(x) for x in V.rng.permutation([2, 3, 4]))
    if "k=m=r" == same:
        k = m = r
    elif same == "k=r":
        k, m = r, int(V.rng.integers(1, 4))
    elif same == "m=r":
        m = r
    else:
        k = m
    E, o = make(V, op, r, m)
    Q, U = V.array("Q", r, k), V.array("U", m, k)
    Y = o.apply(Q, U)
    V.shape("batch", Y, (r, k))
    D = o.datablock(Q, U)
    V.eq("entries times data block", Y, V.np.reshape(o.entries, (r, -1)) @ D)
    for j in range(k):
        V.eq("column by column", Y[:, j], o.apply(Q[:, j], U[:, j]))
        V.eq("documented sum", Y[:, j], [documented(V, op, E, r, m, Q[:, j], U[:, j], i) for i in range(r)])
    if op == "InputOperator" and m == 1:
        V.eq("one-dimensional inputs", o.apply(None, U[0]), Y)
