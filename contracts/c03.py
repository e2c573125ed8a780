"""C03: Galerkin projection commutes with evaluation."""
from vp.harness import contract, Skip
from _ops import OPS, make, hasin

RB = {"n": [2, 3], "r": [1, 2]}


@contract("C03", fns=["galerkin", "_galerkin"], cases={"op": OPS, "test": ["same", "other"]}, bound=RB)
def galerkin_commutes_with_apply(V, op, test):
    n, r, m = V.dim("n", hi=5), V.dim("r", hi=3), V.dim("m", hi=2)
    V.assume(r <= n)
    E, o = make(V, op, n, m)
    E0 = V.copy(E)
    B = V.array("V", n, r)
    W = B if test == "same" else V.array("W", n, r)
    G = W.T @ B
    V.nonsingular(G)
    p = o.galerkin(B) if test == "same" else o.galerkin(B, W)
    z, u = V.array("z", r), V.array("u", m)
    V.true("kind", type(p) is type(o))
    V.true("new object", p is not o)
    V.eq("original entries", o.entries, E0)
    lhs = G @ p.apply(z, u)
    rhs = W.T @ o.apply(B @ z, u)
    V.eq("commutes", lhs, rhs)


GRAMS = ["orthonormal", "scaled", "unit columns", "biorthogonal", "diagonal", "unit triangular", "permuted",
         "square", "positive", "integer"]


@contract("C03", fns=["galerkin", "_galerkin"], cases={"op": OPS, "gram": GRAMS}, modes=("con",), trials=4)
def galerkin_structured_bases(V, op, gram):
    """bases for which W^T V has a structure that random matrices never have"""
    n, r, m = V.dim("n", lo=3, hi=6), V.dim("r", lo=2, hi=3), V.dim("m", hi=2)
    np, rng = V.np, V.rng
    if gram == "square":
        r = n
    E, o = make(V, op, n, m)
    B = V.array("V", n, r)
    W = None
    if gram == "orthonormal":
        B = np.linalg.qr(B)[0]
    elif gram == "scaled":
        B = np.linalg.qr(B)[0]
        W = B * 10.0 ** rng.integers(-4, 3)
    elif gram == "unit columns":
        B = B / np.linalg.norm(B, axis=0)
    elif gram == "positive":
        B = np.abs(B) / np.linalg.norm(B, axis=0)
        W = None if rng.random() < 0.5 else B
    elif gram == "integer":
        B = rng.integers(-2, 3, (n, r))
    elif gram != "square":
        G0 = {"biorthogonal": np.eye(r), "diagonal": np.diag(rng.uniform(1, 2, r)),
              "unit triangular": np.eye(r) + np.tril(rng.uniform(-1, 1, (r, r)), -1),
              "permuted": np.eye(r)[::-1]}[gram]
        W = V.array("W", n, r)
        V.nonsingular(W.T @ B)
        W = W @ np.linalg.inv(B.T @ W) @ G0.T
    G = (B if W is None else W).T @ B
    V.nonsingular(G)
    p = o.galerkin(B) if W is None else o.galerkin(B, W)
    z, u = V.array("z", r), V.array("u", m)
    V.eq("commutes", G @ p.apply(z, u), (B if W is None else W).T @ o.apply(B @ z, u))


SETS = ["A", "cAH", "AB", "cAHBN", "AHG", "Q"]


@contract("C03", fns=["galerkin"], cases={"kind": ["ContinuousModel", "DiscreteModel"], "ops": SETS,
                                          "test": ["same", "other"]}, bound=RB, trials=8)
def model_galerkin_commutes_with_rhs(V, kind, ops, test):
    n, r, m = V.dim("n", hi=5), V.dim("r", hi=3), V.dim("m", hi=2)
    V.assume(r <= n)
    names = dict(c="ConstantOperator", A="LinearOperator", H="QuadraticOperator", G="CubicOperator",
                 Q="QuarticOperator", B="InputOperator", N="StateInputOperator")
    pairs = [make(V, names[x], n, m, "E" + x) for x in ops]
    E0 = [V.copy(e) for e, _ in pairs]
    model = getattr(V.opinf.models, kind)([o for _, o in pairs])
    B = V.array("V", n, r)
    W = B if test == "same" else V.array("W", n, r)
    G = W.T @ B
    V.nonsingular(G)
    red = model.galerkin(B) if test == "same" else model.galerkin(B, W)
    V.true("kind", type(red) is type(model))
    V.true("operators", len(red.operators) == len(ops) and all(
        type(a) is type(b) for a, b in zip(red.operators, model.operators)))
    for i, (o, e) in enumerate(zip(model.operators, E0)):
        V.eq(f"original {i}", o.entries, e)
    z = V.array("z", r)
    u = V.array("u", m) if any(hasin(names[x]) for x in ops) else None
    if kind == "ContinuousModel":
        uf = None if u is None else (lambda t: u)
        a, b = red.rhs(0.0, z, uf), model.rhs(0.0, B @ z, uf)
    else:
        a, b = red.rhs(z, u), model.rhs(B @ z, u)
    V.eq("commutes", G @ a, W.T @ b)


CHANGES = ["bases", "overwritten", "entries"]


@contract("C03", fns=["galerkin", "_galerkin"], cases={"op": [o for o in OPS if o not in ("CubicOperator", "QuarticOperator")],
                                                       "change": CHANGES}, bound=RB, trials=6)
def repeated_projection(V, op, change):
    """projecting again, with other bases, overwritten bases or new entries: nothing of the first projection remains"""
    project_twice(V, op, change)


@contract("C03", fns=["galerkin", "_galerkin"], cases={"op": ["CubicOperator", "QuarticOperator"], "change": CHANGES},
          modes=("con",), trials=6)
def repeated_projection_of_higher_orders(V, op, change):
    project_twice(V, op, change)


def project_twice(V, op, change):
    n, r, m = V.dim("n", hi=4), V.dim("r", hi=3), V.dim("m", hi=2)
    V.assume(r <= n)
    E, o = make(V, op, n, m)
    B, W = V.array("V", n, r) * 1.0, V.array("W", n, r) * 1.0
    V.nonsingular(W.T @ B)
    o.galerkin(B, W)
    if change == "entries":
        F, _ = make(V, op, n, m, "F")
        o.set_entries(V.copy(F))
    else:
        B2, W2 = V.array("Vnew", n, r), V.array("Wnew", n, r)
        V.nonsingular(W2.T @ B2)
        if change == "overwritten":
            B[...] = B2
            W[...] = W2
        else:
            B, W = B2, W2
    z, u = V.array("z", r), V.array("u", m)
    V.eq("commutes", (W.T @ B) @ o.galerkin(B, W).apply(z, u), W.T @ o.apply(B @ z, u))


@contract("C03", fns=["galerkin", "_galerkin"], cases={"op": OPS}, modes=("con",), trials=12)
def nearly_biorthonormal_bases(V, op):
    """a test basis that is almost, but not quite, biorthonormal to the trial basis: W^T V = I + small"""
    n, r, m = V.dim("n", lo=2, hi=6), V.dim("r", hi=3), V.dim("m", hi=2)
    if r > n:
        raise Skip()
    np, rng = V.np, V.rng
    E, o = make(V, op, n, m)
    B = np.linalg.qr(V.array("V", n, r))[0]
    W = B @ (np.eye(r) + rng.choice([1e-4, 1e-3, 1e-2]) * rng.choice([-1, 1], (r, r)) * rng.uniform(.3, 1, (r, r)))
    G = W.T @ B
    p = o.galerkin(B, W)
    for j in range(3):
        z, u = V.array(f"z{j}", r), V.array(f"u{j}", m)
        f = o.apply(B @ z, u)
        V.eq("commutes", G @ p.apply(z, u), W.T @ f, tol=1e-6)
