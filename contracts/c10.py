"""C10: bases compress, decompress and project consistently."""
from vp.harness import contract, Skip
from _pre import locs_of

W = ["none", "diag", "full"]


def weights(V, how, n, tag=""):
    """-> (argument, function applying the weight matrix)"""
    if how == "none":
        return None, lambda q: q
    if how == "diag":
        w = V.array("w" + tag, n, sign="pos")
        return w, lambda q: w * q if q.ndim == 1 else w.reshape((-1, 1)) * q
    G = V.spd("M" + tag, n)
    return G, lambda q: G @ q


def linear(V, how, n, r, tag="", orth=False):
    """LinearBasis with arbitrary entries, or orthonormal ones"""
    w, mul = weights(V, how, n, tag)
    if orth and not V.symbolic:
        X = V.generic("X" + tag, n, r)
        L = V.np.linalg.cholesky(X.T @ mul(X))
        E = V.np.linalg.solve(L, X.T).T
    else:
        E = V.array("V" + tag, n, r)
        if orth:
            V.assume_eq("orthonormal" + tag, V.mm(E.T, mul(E)), V.eye(r))
    return V.opinf.basis.LinearBasis(V.copy(E), weights=w, check_orthogonality=False), E, mul


def states(V, name, n, nd):
    return V.array(name, n, V.dim("k", hi=5)) if nd == 2 else V.array(name, n)


@contract("C10", fns=["compress", "decompress", "project"], cases={"w": W, "nd": [1, 2]}, trials=20)
def linear_basis_is_the_documented_map(V, w, nd):
    n, r = V.dim("n"), V.dim("r")
    b, E, mul = linear(V, w, n, r)
    Q, Z = states(V, "Q", n, nd), states(V, "Z", r, nd)
    Q0, Z0 = V.copy(Q), V.copy(Z)
    V.eq("compress", b.compress(Q), E.T @ mul(Q0))
    V.eq("decompress", b.decompress(Z), E @ Z0)
    V.eq("project", b.project(Q), b.decompress(b.compress(Q)))
    V.eq("fit_compress", b.fit_compress(Q), E.T @ mul(Q0))
    V.eq("states unchanged", Q, Q0)
    V.eq("latent unchanged", Z, Z0)
    V.eq("entries", b.entries, E)
    V.true("shape", tuple(b.shape) == (n, r))
    V.true("n", b.full_state_dimension == n)
    V.true("r", b.reduced_state_dimension == r)


@contract("C10", fns=["compress", "decompress", "project"], cases={"w": W, "nd": [1, 2]}, trials=20)
def orthonormal_basis_projects(V, w, nd):
    n, r = V.dim("n", lo=2, hi=6), V.dim("r", hi=2)
    if V.symbolic:
        V.assume(r <= n)
    b, E, mul = linear(V, w, n, r, orth=True)
    Q, Z = states(V, "Q", n, nd), states(V, "Z", r, nd)
    V.eq("compress after decompress", b.compress(b.decompress(Z)), Z)
    V.eq("span unchanged", b.project(E @ Z), E @ Z)
    P = b.project(Q)
    V.eq("idempotent", b.project(P), P)
    V.eq("residual orthogonal", E.T @ mul(Q - P), 0 * b.compress(Q))


@contract("C10", fns=["decompress"], cases={"w": ["none", "diag"], "nd": [1, 2], "how": ["array", "slice", "stride"]}, trials=15)
def decompress_at_locations(V, w, nd, how):
    n, r = V.dim("n", hi=6), V.dim("r")
    b, E, mul = linear(V, w, n, r)
    Z = states(V, "Z", r, nd)
    L, ix = locs_of(V, how, n)
    V.eq("rows", b.decompress(Z, locs=L), b.decompress(Z)[ix])


@contract("C10", fns=["compress", "decompress", "project"], cases={"w": W}, trials=15)
def linear_and_column_by_column(V, w):
    n, r, k = V.dim("n"), V.dim("r"), V.dim("k")
    b, E, mul = linear(V, w, n, r)
    Q, P, Z, Y = V.array("Q", n, k), V.array("P", n, k), V.array("Z", r, k), V.array("Y", r, k)
    a = V.real("a")
    j = V.index("j", k)
    for name, f, x, y in (("compress", b.compress, Q, P), ("decompress", b.decompress, Z, Y), ("project", b.project, Q, P)):
        V.eq(name + " linear", f(x + a * y), f(x) + a * f(y))
        V.eq(name + " columns", f(x)[:, j], f(x[:, j]))
    L = V.locs("perm", k, k)
    V.eq("order of the snapshots", b.compress(Q[:, L]), b.compress(Q)[:, L])


@contract("C10", fns=["projection_error"], cases={"w": W, "nd": [1, 2], "relative": [True, False, None],
                                                  "multi": [False, True]}, trials=12)
def projection_error_is_the_documented_norm(V, w, nd, relative, multi):
    n, r = V.dim("n"), V.dim("r")
    b, E, mul = linear(V, w, n, r)
    N = n
    if multi:
        b = V.opinf.basis.BasisMulti([b, linear(V, "none", n, r, "2")[0]])
        N = 2 * n
    Q = V.generic("Q", N, V.dim("k")) if nd == 2 else V.generic("Q", N)
    Q0 = V.copy(Q)
    D = Q - b.project(Q)
    e = V.np.sqrt((D * D).sum())
    err = b.projection_error(Q) if relative is None else b.projection_error(Q, relative=relative)
    if relative is False:
        V.eq("absolute", err, e)
    else:
        V.eq("relative", err, e / V.np.sqrt((Q0 * Q0).sum()))
    V.eq("unchanged", Q, Q0)


@contract("C10", fns=["compress", "decompress", "project", "split", "get_var", "_slices"],
          cases={"q": [1, 2, 3], "nd": [1, 2], "w": ["none", "diag"], "ortho": [False, True]}, trials=12)
def multi_basis_acts_block_by_block(V, q, nd, w, ortho):
    bs, ns, rs = [], [], []
    for i in range(q):
        n, r = V.dim(f"n{i}", lo=2 if ortho else 1, split=False), V.dim(f"r{i}", hi=2 if ortho else 5, split=False)
        if V.symbolic and ortho:
            V.assume(r <= n)
        bs.append(linear(V, w if i < 2 else "none", n, r, str(i), orth=ortho))
        ns.append(n)
        rs.append(r)
    off = lambda ds: [sum(ds[:i]) for i in range(q + 1)]
    no, ro = off(ns), off(rs)
    mb = V.opinf.basis.BasisMulti([b for b, _, _ in bs])
    V.true("n", mb.full_state_dimension == no[q])
    V.true("r", mb.reduced_state_dimension == ro[q])
    V.true("sizes", tuple(mb.full_variable_sizes) == tuple(ns))
    V.true("reduced sizes", tuple(mb.reduced_variable_sizes) == tuple(rs))
    if V.symbolic:
        V.assume(no[q] != ro[q])
    elif no[q] == ro[q]:
        raise Skip()
    Q, Z = states(V, "Q", no[q], nd), states(V, "Z", ro[q], nd)
    C, D, P = mb.compress(Q), mb.decompress(Z), mb.project(Q)
    V.shape("compressed", C, (ro[q],) + tuple(Q.shape[1:]))
    V.shape("decompressed", D, (no[q],) + tuple(Q.shape[1:]))
    for i, (b, E, mul) in enumerate(bs):
        qi, zi = Q[no[i]:no[i + 1]], Z[ro[i]:ro[i + 1]]
        V.eq(f"compress {i}", C[ro[i]:ro[i + 1]], E.T @ mul(qi))
        V.eq(f"decompress {i}", D[no[i]:no[i + 1]], E @ zi)
        V.eq(f"project {i}", P[no[i]:no[i + 1]], E @ (E.T @ mul(qi)))
        V.eq(f"get_var {i}", mb.get_var(i, Q), qi)
        V.eq(f"get reduced {i}", mb.get_var(i, Z), zi)
        V.eq(f"get by name {i}", mb.get_var(mb.variable_names[i], Q), qi)
        V.true(f"basis {i}", mb[i] is b and mb[mb.variable_names[i]] is b)
    V.eq("split", mb.split(Q), [Q[no[i]:no[i + 1]] for i in range(q)])
    V.eq("split reduced", mb.split(Z), [Z[ro[i]:ro[i + 1]] for i in range(q)])
    if ortho:
        V.eq("compress after decompress", mb.compress(mb.decompress(Z)), Z)
        V.eq("idempotent", mb.project(P), P)


@contract("C10", fns=["decompress"], cases={"q": [1, 2, 3], "nd": [1, 2], "how": ["array", "slice"]}, trials=12)
def multi_basis_at_locations(V, q, nd, how):
    n = V.dim("n", lo=2, hi=6)
    bs, rs = [], []
    for i in range(q):
        rs.append(V.dim(f"r{i}", split=False))
        bs.append(linear(V, "none", n, rs[-1], str(i)))
    mb = V.opinf.basis.BasisMulti([b for b, _, _ in bs])
    if V.symbolic:
        V.assume(sum(rs) != q * n)
    elif sum(rs) == q * n:
        raise Skip()
    Z = states(V, "Z", sum(rs), nd)
    L, ix = locs_of(V, how, n)
    D = mb.decompress(Z)
    R = mb.decompress(Z, locs=L)
    p = D[0:n][ix].shape[0]
    for i in range(q):
        V.eq(f"rows {i}", R[i * p:(i + 1) * p], D[i * n:(i + 1) * n][ix])
    V.shape("shape", R, (q * p,) + tuple(Z.shape[1:]))


@contract("C10", fns=["_check_shape_full", "_check_shape_reduced", "decompress"], cases={"q": [2, 3]}, trials=10)
def multi_basis_rejects_misaligned_states(V, q):
    ns = [V.dim(f"n{i}", split=False) for i in range(q)]
    rs = [V.dim(f"r{i}", split=False) for i in range(q)]
    mb = V.opinf.basis.BasisMulti([linear(V, "none", n, r, str(i))[0] for i, (n, r) in enumerate(zip(ns, rs))])
    x = V.dim("extra", split=False)
    err = V.opinf.errors.DimensionalityError
    V.raises("compress", err, lambda: mb.compress(V.array("Q", sum(ns) + x)))
    V.raises("decompress", err, lambda: mb.decompress(V.array("Z", sum(rs) + x)))
    if V.symbolic:
        V.assume(ns[0] != ns[1])
    elif len(set(ns)) == 1:
        return
    V.raises("locs", ValueError, lambda: mb.decompress(V.array("Z2", sum(rs)), locs=slice(0, 1)))


@contract("C10", fns=["fit", "fit_compress", "compress", "decompress", "project"], modes=("con",),
          cases={"w": W, "solver": ["dense", "randomized", "method-of-snapshots"], "nd": [1, 2]}, trials=12)
def fitted_pod_basis_projects(V, w, solver, nd):
    np = V.np
    n, k = V.dim("n", lo=3, hi=7), V.dim("kk", lo=3, hi=7)
    wt, mul = weights(V, w, n)
    X = V.generic("X", n, k)
    r = int(V.rng.integers(1, min(n, k)))
    b = V.opinf.basis.PODBasis(num_vectors=r, svdsolver=solver, weights=wt)
    C = b.fit_compress(X)
    V.eq("fit_compress", C, b.compress(X))
    E = b.entries
    V.shape("entries", E, (n, r))
    Q, Z = states(V, "Q", n, nd), states(V, "Z", r, nd)
    V.eq("compress", b.compress(Q), E.T @ mul(Q))
    V.eq("decompress", b.decompress(Z), E @ Z)
    V.eq("compress after decompress", b.compress(b.decompress(Z)), Z, tol=1e-5)
    P = b.project(Q)
    V.eq("idempotent", b.project(P), P, tol=1e-5)
    V.eq("span", b.project(E @ Z), E @ Z, tol=1e-5)
    e = np.linalg.norm(Q - P)
    V.eq("absolute error", b.projection_error(Q, relative=False), e)
    V.eq("relative error", b.projection_error(Q), e / np.linalg.norm(Q))
    L, ix = locs_of(V, "array", n)
    V.eq("locations", b.decompress(Z, locs=L), (E @ Z)[ix])


@contract("C10", fns=["fit", "compress"], cases={"q": [1, 2, 3], "sizes": [False, True]}, trials=10)
def multi_basis_fits_each_variable(V, q, sizes):
    np = V.np
    k = V.dim("k", lo=3, hi=6)
    ns = [V.dim(f"n{i}", lo=3) for i in range(q)] if sizes else [V.dim("n", lo=3)] * q
    X = V.generic("X", sum(ns), k)
    mk = lambda: [V.opinf.basis.PODBasis(num_vectors=1 + i % 2, name=f"v{i}") for i in range(q)]
    mb = V.opinf.basis.BasisMulti(mk(), full_variable_sizes=ns if sizes else None)
    Y = mb.fit(X).compress(X)
    at = 0
    rat = 0
    for i, b in enumerate(mk()):
        Xi = X[at:at + ns[i]]
        b.fit(Xi)
        V.eq(f"basis {i}", np.abs(mb.bases[i].entries), np.abs(b.entries))
        r = 1 + i % 2
        V.eq(f"compress {i}", Y[rat:rat + r], mb.bases[i].compress(Xi))
        at += ns[i]
        rat += r
    V.raises("not divisible", V.opinf.errors.DimensionalityError if q > 1 else ValueError,
             (lambda: V.opinf.basis.BasisMulti(mk()).fit(V.generic("Y", q * 3 + 1, k))) if q > 1 else
             (lambda: V.opinf.basis.BasisMulti([])))


@contract("C10", fns=["compress", "decompress", "project"], cases={"w": W, "nd": [1, 2]}, trials=12)
def compression_follows_the_state(V, w, nd):
    """overwriting the state array between calls, or using two bases in turn, leaves no trace"""
    n, r = V.dim("n"), V.dim("r")
    b, E, mul = linear(V, w, n, r)
    b2, E2, mul2 = linear(V, w, n, r, "2")
    Q = states(V, "Q", n, nd)
    Q2 = V.array("Q2", *Q.shape)
    X = V.copy(Q) * 1.0
    b.compress(X)
    b2.compress(X)
    X[...] = Q2
    V.eq("first", b.compress(X), E.T @ mul(Q2))
    V.eq("second", b2.compress(X), E2.T @ mul2(Q2))


@contract("C10", fns=["fit", "compress", "decompress", "project"], modes=("con",),
          cases={"w": W, "solver": ["dense", "method-of-snapshots"], "multi": [False, True]}, trials=8)
def refitted_basis_forgets_the_first(V, w, solver, multi):
    np = V.np
    n, k = V.dim("n", lo=3, hi=7), V.dim("kk", lo=3, hi=7)
    wt, mul = weights(V, w, n)
    r = int(V.rng.integers(1, min(n, k)))
    q = 2 if multi else 1

    def new():
        bs = [V.opinf.basis.PODBasis(num_vectors=r, svdsolver=solver, weights=V.copy(wt)) for _ in range(q)]
        return V.opinf.basis.BasisMulti(bs) if multi else bs[0]

    b, c = new(), new()
    reuse, S = V.choice("reuse", [False, True]), np.zeros((q * n, k))
    for _ in range(3):
        X, Y = V.generic("X", q * n, k), V.generic("Y", q * n, 4)
        if reuse:
            S[...] = X
        b.fit(S if reuse else X)
        b.project(Y)
        b.projection_error(Y)
    c.fit(X)
    V.eq("project", b.project(Y), c.project(Y), tol=1e-5)
    Z = V.array("Z", q * r, 3)
    V.eq("compress after decompress", b.compress(b.decompress(Z)), Z, tol=1e-5)
    V.eq("error", b.projection_error(Y), c.projection_error(Y), tol=1e-5)


@contract("C10", fns=["compress", "decompress", "project", "projection_error"],
          cases={"fmt": ["csr", "csc", "coo", "dia", "dia diagonal"], "nd": [1, 2], "multi": [False, True]}, modes=("con",), trials=5)
def sparse_weights_are_used_entirely(V, fmt, nd, multi):
    """a sparse weight matrix acts as the same dense matrix does"""
    import scipy.sparse as sp
    n, r = int(V.rng.integers(3, 8)), 2
    M = V.np.diag(V.np.abs(V.array("w", n)) + 1)
    if fmt != "dia diagonal":
        k = V.array("k", n - 1)
        M = M + V.np.diag(k, 1) * .1 + V.np.diag(k, -1) * .1
    E = V.array("V", n, r)
    S = getattr(sp, fmt[:3] + "_array")(M)
    mk = lambda w: V.opinf.basis.LinearBasis(V.copy(E), weights=w, check_orthogonality=False)
    if multi:
        mkm = lambda w: V.opinf.basis.BasisMulti([mk(w), mk(None)])
        a, b = mkm(S), mkm(M)
    else:
        a, b = mk(S), mk(M)
    q = states(V, "q", n * (2 if multi else 1), nd)
    V.eq("compress", a.compress(q), b.compress(q))
    V.eq("project", a.project(q), b.project(q))
    V.eq("projection_error", a.projection_error(q), b.projection_error(q))


@contract("C10", fns=["project", "projection_error", "compress"], modes=("con",), trials=25, cases={"w": [None, "array", "matrix"], "nd": [1, 2]})
def states_of_any_magnitude(V, w, nd):
    """projection is homogeneous: the relative error does not depend on the units of the states"""
    n, r = V.dim("n", lo=2, hi=7), V.dim("r", hi=2)
    np = V.np
    E = np.linalg.qr(V.array("E", n, r))[0]
    wt = None
    if w is not None:
        wt = np.abs(V.array("w", n)) + .2
        E = E / np.sqrt(wt)[:, None]
        wt = np.diag(wt) if w == "matrix" else wt
    b = V.opinf.basis.LinearBasis(E, weights=wt)
    Q, s = states(V, "Q", n, nd), 10.0 ** V.rng.integers(-13, 14)
    if not np.all(np.abs(Q).sum(axis=0)):
        raise Skip()
    V.eq("compress", b.compress(Q * s) / s, b.compress(Q))
    V.eq("project", b.project(Q * s) / s, b.project(Q))
    e = np.linalg.norm(Q - b.project(Q))
    V.eq("absolute error", b.projection_error(Q * s, relative=False) / s, e)
    V.eq("relative error", b.projection_error(Q * s), e / np.linalg.norm(Q))
