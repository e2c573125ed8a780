"""C19: error metrics compute the documented norms."""
from vp.harness import contract, Skip

INF = float("inf")
PS = [1, 2, 3, 4, INF]


def pair(V, shape, same=False):
    Q = V.array("Q", *shape) if V.symbolic else V.generic("Q", *shape)
    X = V.array("X", *shape)
    if not V.symbolic:
        k = V.rng.integers(3)
        if k == 0:
            X = Q + 1e-3 * X
        if not V.np.abs(Q).sum(axis=0).all():
            raise Skip()
    return Q, X


def norm(V, n, f, p):
    """the p-norm of the n numbers f(i)"""
    if p == INF:
        return V.np.max(V.np.abs(V.tab((n,), f)))
    if p == 2:
        return V.sum(n, lambda i: f(i) * f(i)) ** 0.5
    return V.sum(n, lambda i: abs(f(i)) ** p) ** (1 / p)


def shapes(V, ndim):
    n = V.dim("n")
    return (n,) if ndim == 1 else (n, V.dim("k"))


def number(V, label, x):
    """a scalar result"""
    if not V.symbolic:
        V.true(label + " is a number", V.np.ndim(x) == 0)


@contract("C19", fns=["frobenius_error", "_absolute_and_relative_error"])
def frobenius(V):
    n, k = shapes(V, 2)
    Q, X = pair(V, (n, k))
    Q0, X0 = V.copy(Q), V.copy(X)
    out = V.opinf.post.frobenius_error(Q, X)
    V.true("two outputs", len(out) == 2)
    err = V.sum(n, lambda i: V.sum(k, lambda j: (Q0[i, j] - X0[i, j]) ** 2)) ** 0.5
    ref = V.sum(n, lambda i: V.sum(k, lambda j: Q0[i, j] ** 2)) ** 0.5
    number(V, "absolute", out[0])
    V.eq("absolute", out[0], err)
    V.eq("relative", out[1], err / ref)
    V.eq("reference unchanged", Q, Q0)
    V.eq("approximation unchanged", X, X0)


@contract("C19", fns=["projection_error"], cases={"ndim": [1, 2]})
def projection(V, ndim):
    n, r = V.dim("n"), V.dim("r", hi=3)
    B = V.array("B", n, r)
    tail = () if ndim == 1 else (V.dim("k"),)
    Q, _ = pair(V, (n,) + tail)
    Q0, B0 = V.copy(Q), V.copy(B)
    D = Q0 - B0 @ (B0.T @ Q0)
    if ndim == 1:
        err, ref = norm(V, n, lambda i: D[i], 2), norm(V, n, lambda i: Q0[i], 2)
    else:
        k = tail[0]
        err = V.sum(n, lambda i: V.sum(k, lambda j: D[i, j] ** 2)) ** 0.5
        ref = V.sum(n, lambda i: V.sum(k, lambda j: Q0[i, j] ** 2)) ** 0.5
    out = V.opinf.post.projection_error(Q, B)
    V.eq("absolute", out[0], err)
    V.eq("relative", out[1], err / ref)
    V.eq("states unchanged", Q, Q0)
    V.eq("basis unchanged", B, B0)


@contract("C19", fns=["lp_error"], cases={"ndim": [1, 2], "p": PS, "normalize": [False, True]})
def lp_by_snapshot(V, ndim, p, normalize):
    s = shapes(V, ndim)
    Q, X = pair(V, s)
    Q0, X0 = V.copy(Q), V.copy(X)
    kw = {} if p == 2 else {"p": p}
    if normalize:
        kw["normalize"] = True
    out = V.opinf.post.lp_error(Q, X, **kw)
    n = s[0]
    if ndim == 1:
        err, ref = norm(V, n, lambda i: Q0[i] - X0[i], p), norm(V, n, lambda i: Q0[i], p)
        number(V, "absolute", out[0])
        V.eq("absolute", out[0], err)
        V.eq("relative", out[1], err / ref)
    else:
        k = s[1]
        err = V.tab((k,), lambda j: norm(V, n, lambda i: Q0[i, j] - X0[i, j], p))
        ref = V.tab((k,), lambda j: norm(V, n, lambda i: Q0[i, j], p))
        V.eq("absolute", out[0], err)
        V.eq("relative", out[1], err / V.np.max(ref) if normalize else err / ref)
    V.eq("reference unchanged", Q, Q0)
    V.eq("approximation unchanged", X, X0)


def times(V, k):
    if V.symbolic:
        return V.array("t", k)
    return V.np.sort(V.rng.normal(size=k)) if V.rng.random() < 0.7 else V.np.linspace(0, 1, k)


def integral(V, k, f, t):
    """trapezoidal rule"""
    return V.sum(k - 1, lambda j: (f(j) + f(j + 1)) / 2 * (t[j + 1] - t[j]))


@contract("C19", fns=["Lp_error"], cases={"ndim": [1, 2], "p": PS})
def Lp_in_time(V, ndim, p):
    k = V.dim("k", lo=2, hi=7)
    n = 1 if ndim == 1 else V.dim("n")
    Q, X = pair(V, (k,) if ndim == 1 else (n, k))
    t = times(V, k)
    Q0, X0, t0 = V.copy(Q), V.copy(X), V.copy(t)
    at = (lambda A, i, j: A[j]) if ndim == 1 else (lambda A, i, j: A[i, j])
    D = lambda i, j: at(Q0, i, j) - at(X0, i, j)
    R = lambda i, j: at(Q0, i, j)
    kw = {} if p == 2 else {"p": p}
    if p == INF:
        out = V.opinf.post.Lp_error(Q, X, p=p)
        nrm = lambda f: V.np.max(V.np.abs(V.tab((n, k), f)))
        two = V.opinf.post.Lp_error(Q, X, t, p)
        V.eq("time is not needed", two[0], out[0])
    else:
        out = V.opinf.post.Lp_error(Q, X, t, **kw)
        nrm = lambda f: integral(V, k, lambda j: V.sum(n, lambda i: (f(i, j) ** p if p % 2 == 0 else abs(f(i, j)) ** p)), t0) ** (1 / p)
    V.true("two outputs", len(out) == 2)
    number(V, "absolute", out[0])
    V.eq("absolute", out[0], nrm(D))
    V.eq("relative", out[1], nrm(D) / nrm(R))
    V.eq("reference unchanged", Q, Q0)
    V.eq("approximation unchanged", X, X0)
    V.eq("times unchanged", t, t0)


METRICS = ["frobenius", "lp", "lp.normalize", "lp.1", "lp.inf", "Lp", "Lp.1", "Lp.inf"]


def metric(V, m, Q, X, t):
    P = V.opinf.post
    name, *opt = m.split(".")
    kw = {"normalize": True} if opt == ["normalize"] else {"p": float(opt[0]) if opt[0] == "inf" else int(opt[0])} if opt else {}
    if name == "frobenius":
        return P.frobenius_error(Q, X)
    return P.lp_error(Q, X, **kw) if name == "lp" else P.Lp_error(Q, X, t, **kw)


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], cases={"m": METRICS})
def zero_for_equal_data(V, m):
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, _ = pair(V, (n, k))
    out = metric(V, m, Q, V.copy(Q), times(V, k))
    V.eq("absolute error is zero", out[0], 0 * out[0])
    V.eq("relative error is zero", out[1], 0 * out[1])


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], cases={"m": METRICS}, trials=8)
def arrays_may_be_reused(V, m):
    """the same arrays, overwritten between two calls"""
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, X = pair(V, (n, k))
    Q2, X2, t = V.array("Qnew", n, k), V.array("Xnew", n, k), times(V, k)
    a, b = Q * 1.0, X * 1.0
    metric(V, m, a, b, t)
    a[...] = Q2
    b[...] = X2
    out, want = metric(V, m, a, b, t), metric(V, m, Q2, X2, t)
    V.eq("absolute", out[0], want[0])
    V.eq("relative", out[1], want[1])


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], cases={"m": METRICS}, modes=("con",))
def positive_for_different_data(V, m):
    np = V.np
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, _ = pair(V, (n, k))
    X = Q.copy()
    i, j = V.index("i", n), V.index("j", k)
    X[i, j] += V.rng.choice([-1, 1]) * 10.0 ** V.rng.integers(-4, 3)
    t = np.linspace(0, 1, k)
    a, r = metric(V, m, Q, X, t)
    if m.startswith("lp"):
        V.true("positive at the snapshot that differs only", (a > 0).tolist() == [c == j for c in range(k)])
        V.true("positive at the snapshot that differs only", (r > 0).tolist() == [c == j for c in range(k)])
    else:
        V.true("positive", a > 0 and r > 0)


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], cases={"m": METRICS, "sign": ["+", "-"]})
def scaling(V, m, sign):
    """absolute errors scale by |c|, relative errors do not change"""
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, X = pair(V, (n, k))
    t = times(V, k)
    c = V.real("c", sign="pos")
    s = c if sign == "+" else -c
    a, r = metric(V, m, Q, X, t)
    A, R = metric(V, m, s * Q, s * X, t)
    V.eq("absolute", A, c * a)
    V.eq("relative", R, r)


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], cases={"m": METRICS}, trials=12)
def normalized_by_the_reference_only(V, m):
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, X = pair(V, (n, k))
    t = V.np.linspace(0, 1, k)
    a, r = metric(V, m, Q, X, t)
    z, _ = metric(V, m, Q, 0 * Q, t)
    if m == "lp.normalize":
        z = z.max()
    V.eq("relative = absolute / norm of the reference", r * z, a)


@contract("C19", fns=["lp_error", "frobenius_error", "Lp_error"], modes=("con",), trials=4)
def integer_data(V):
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, X = V.rng.integers(1, 9, (n, k)), V.rng.integers(-9, 9, (n, k))
    t = V.np.arange(k)
    for m in METRICS:
        V.eq(m, list(metric(V, m, Q, X, t)), list(metric(V, m, Q.astype(float), X.astype(float), t.astype(float))))


@contract("C19", fns=["frobenius_error", "lp_error", "Lp_error"], trials=4)
def misaligned_arguments_are_rejected(V):
    P = V.opinf.post
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q, X = V.array("Q", n, k), V.array("X", n, k + 1)
    t = V.array("t", k)
    C = V.array("C", 2, 2, 2)
    for name, f in (("frobenius", P.frobenius_error), ("lp", P.lp_error), ("Lp", lambda a, b, **kw: P.Lp_error(a, b, t, **kw))):
        V.raises(name + " shapes", ValueError, lambda: f(Q, X))
        V.raises(name + " dimensions", ValueError, lambda: f(C, C))
        if name != "frobenius":
            V.raises(name + " p = 0", ValueError, lambda: f(Q, Q, p=0))
            V.raises(name + " p < 0", ValueError, lambda: f(Q, Q, p=-2))
    V.raises("1-D frobenius", ValueError, lambda: P.frobenius_error(t, t))
    V.raises("time required", ValueError, lambda: P.Lp_error(Q, Q))
    V.raises("time aligned", ValueError, lambda: P.Lp_error(X, X, t))
    V.raises("1-D time", ValueError, lambda: P.Lp_error(Q, Q, Q))


@contract("C19", fns=["lp_error", "Lp_error"], cases={"ndim": [1, 2]}, modes=("con",), trials=25)
def any_norm_order(V, ndim):
    """orders that are not 1, 2 or infinity, fractions included"""
    np = V.np
    Q, X = (V.array(x, *([7] if ndim == 1 else [4, 7])) for x in "QX")
    t = np.cumsum(np.abs(V.array("t", 7)) + .1)
    p = float(V.rng.choice([.5, 1.5, 3, 2.5, 4, 5, V.rng.uniform(.3, 6)]))
    if p == int(p) and V.rng.random() < .5:
        p = int(p)
    f = lambda Z: np.sum(np.abs(np.atleast_2d(Z)) ** p, axis=0)
    L = lambda Z: np.trapezoid(f(Z), t) ** (1 / p)
    a, b = V.opinf.post.Lp_error(Q, X, t, p=p)
    V.eq("Lp absolute", a, L(Q - X))
    V.eq("Lp relative", b, L(Q - X) / L(Q))
    if ndim == 2:
        a, b = V.opinf.post.lp_error(Q, X, p=p)
        V.eq("lp absolute", a, f(Q - X) ** (1 / p))
        V.eq("lp relative", b, f(Q - X) ** (1 / p) / f(Q) ** (1 / p))


@contract("C19", fns=["_absolute_and_relative_error", "frobenius_error", "lp_error", "Lp_error"], modes=("con",), trials=40,
          cases={"ndim": [1, 2]})
def errors_at_any_magnitude(V, ndim):
    """relative errors do not depend on the units of the data; absolute errors are in these units"""
    np = V.np
    Q, X = (V.array(x, *([6] if ndim == 1 else [3, 6])) for x in "QX")
    Q, X = (Z + .5 * np.where(Z < 0, -1, 1) for Z in (Q, X))
    t = np.cumsum(np.abs(V.array("t", 6)) + .1)
    s = 10.0 ** V.rng.integers(-14, 15)
    P = V.opinf.post
    f = [lambda a, b: P.Lp_error(a, b, t), lambda a, b: P.Lp_error(a, b, t, p=1), lambda a, b: P.Lp_error(a, b, p=np.inf)]
    if ndim == 2:
        f += [P.frobenius_error, P.lp_error, lambda a, b: P.lp_error(a, b, p=1), lambda a, b: P.lp_error(a, b, p=np.inf),
              lambda a, b: P.lp_error(a, b, normalize=True), lambda a, b: P.Lp_error(a, b, t, p=3)]
    for i, e in enumerate(f):
        (a, b), (c, d) = e(Q * s, X * s), e(Q, X)
        V.eq(f"absolute {i}", a / s, c)
        V.eq(f"relative {i}", b, d)
