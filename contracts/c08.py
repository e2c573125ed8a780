"""C08: preprocessing transformers are exactly invertible."""
from vp.harness import contract, Skip
from _pre import KINDS, make_tf, locs_of


def states(V, name, n, nd):
    return V.array(name, n, V.dim("k", hi=5)) if nd == 2 else V.array(name, n)


@contract("C08", fns=["transform", "inverse_transform"], cases={"kind": KINDS, "nd": [1, 2]}, trials=20)
def transform_is_the_documented_map_and_inverts(V, kind, nd):
    n = V.dim("n")
    t, f, lin = make_tf(V, kind, n)
    Q = states(V, "Q", n, nd)
    Q0 = V.copy(Q)
    Y = t.transform(Q)
    V.shape("transform", Y, Q0.shape)
    V.eq("map", Y, f(Q0))
    V.eq("argument unchanged", Q, Q0)
    Y0 = V.copy(Y)
    R = t.inverse_transform(Y)
    V.shape("inverse", R, Q0.shape)
    V.eq("inverse", R, Q0)
    V.eq("transformed unchanged", Y, Y0)
    Z = states(V, "Z", n, nd)
    V.eq("other inverse", t.transform(t.inverse_transform(Z)), Z)
    V.true("fresh", Y is not Q and R is not Y)
    Q[0] = 0
    V.eq("no alias", Y, Y0)


@contract("C08", fns=["transform", "inverse_transform", "transform_ddts"], cases={"kind": KINDS, "nd": [1, 2]},
          trials=20)
def inplace_writes_into_the_given_array(V, kind, nd):
    n = V.dim("n")
    t, f, lin = make_tf(V, kind, n)
    Q = states(V, "Q", n, nd)
    Q0 = V.copy(Q)
    Y = t.transform(Q, inplace=True)
    V.eq("returned", Y, f(Q0))
    V.eq("written", Q, f(Q0))
    V.true("same object", Y is Q)
    R = t.inverse_transform(Y, inplace=True)
    V.eq("back", R, Q0)
    V.eq("back written", Q, Q0)
    V.true("same object back", R is Q)
    D = states(V, "D", n, nd)
    D0 = V.copy(D)
    E = t.transform_ddts(D, inplace=True)
    V.eq("ddts", E, lin(D0))
    V.eq("ddts written", D, lin(D0))


@contract("C08", fns=["inverse_transform"], cases={"kind": KINDS, "nd": [1, 2], "how": ["array", "slice", "stride"],
                                                   "inplace": [False, True]}, trials=12)
def inverse_at_locations(V, kind, nd, how, inplace):
    n = V.dim("n", hi=6)
    t, f, lin = make_tf(V, kind, n)
    Q = states(V, "Q", n, nd)
    L, ix = locs_of(V, how, n)
    Y = V.copy(t.transform(Q)[ix])
    Y0 = V.copy(Y)
    R = t.inverse_transform(Y, inplace=inplace, locs=L)
    V.eq("states at locations", R, Q[ix])
    V.eq("argument", Y, Q[ix] if inplace else Y0)


SLICES = {"last": slice(-3, None), "but the last": slice(None, -2), "inner": slice(1, -1), "reversed": slice(None, None, -1),
          "backwards": slice(4, 0, -2), "beyond": slice(2, 100), "all": slice(None), "first": slice(0, 2), "one": slice(-1, None, 3)}


@contract("C08", fns=["inverse_transform"], cases={"kind": KINDS, "nd": [1, 2], "how": list(SLICES)}, modes=("con",), trials=4)
def inverse_at_any_slice(V, kind, nd, how):
    """slices count from the end, run backwards and are cut off as Python's do"""
    n = int(V.rng.integers(5, 9))
    t, f, lin = make_tf(V, kind, n)
    Q = states(V, "Q", n, nd)
    Y = V.copy(t.transform(Q)[SLICES[how]])
    V.eq("states at locations", t.inverse_transform(Y, locs=SLICES[how]), Q[SLICES[how]])
    T = V.opinf.pre.TransformerPipeline([t, V.opinf.pre.ShiftTransformer(V.array("b", n))])
    Y = V.copy(T.transform(Q)[SLICES[how]])
    V.eq("pipeline", T.inverse_transform(Y, locs=SLICES[how]), Q[SLICES[how]])


@contract("C08", fns=["inverse_transform"], cases={"kind": KINDS}, trials=12)
def misaligned_locations_are_rejected(V, kind):
    n = V.dim("n", lo=2)
    t, f, lin = make_tf(V, kind, n)
    Y = V.array("Y", n + 1)
    V.raises("locs", ValueError, lambda: t.inverse_transform(Y, locs=slice(None)))


@contract("C08", fns=["transform_ddts"], cases={"kind": KINDS, "nd": [1, 2]}, trials=20)
def transform_ddts_is_the_linear_part(V, kind, nd):
    n = V.dim("n")
    t, f, lin = make_tf(V, kind, n)
    Q, D = states(V, "Q", n, nd), states(V, "D", n, nd)
    D0 = V.copy(D)
    T = V.copy(t.transform_ddts(D, inplace=False))
    V.eq("ddts unchanged", D, D0)
    V.eq("linear part", T, t.transform(Q + D) - t.transform(Q))
    T[0] = 0
    V.eq("no alias", D, D0)


@contract("C08", fns=["transform", "inverse_transform", "transform_ddts"], cases={"kind": KINDS}, trials=15)
def transformations_act_column_by_column(V, kind):
    n, k = V.dim("n"), V.dim("k")
    t, f, lin = make_tf(V, kind, n)
    Q = V.array("Q", n, k)
    j = V.index("j", k)
    V.eq("transform", t.transform(Q)[:, j], t.transform(Q[:, j]))
    V.eq("inverse", t.inverse_transform(Q)[:, j], t.inverse_transform(Q[:, j]))
    V.eq("ddts", t.transform_ddts(Q, inplace=False)[:, j], t.transform_ddts(Q[:, j], inplace=False))


SCALINGS = [None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym", "maxnorm", "maxnormsym"]


def fresh_tf(V, kind, n, tag=""):
    """an untrained transformer of the kind"""
    pre = V.opinf.pre
    if kind == "null":
        return pre.NullTransformer()
    if kind == "shift":
        return pre.ShiftTransformer(V.array("ref" + tag, n))
    if kind == "scale":
        return pre.ScaleTransformer(V.real("scl" + tag, sign="pos"))
    if kind == "scalerow":
        return pre.ScaleTransformer(V.array("scl" + tag, n, sign="pos"))
    c, s, r = kind.split(":")
    return pre.ShiftScaleTransformer(centering=c == "c", scaling=None if s == "None" else s, byrow=r == "row")


FIT = ["null", "shift", "scale", "scalerow"] + [f"{c}:{s}:{r}" for c in ("c", "n") for s in SCALINGS for r in
                                                ("all", "row") if not (r == "row" and s in (None, "maxnorm", "maxnormsym"))]


@contract("C08", fns=["fit", "fit_transform", "transform", "inverse_transform"], cases={"kind": FIT}, trials=10)
def fit_transform_is_fit_then_transform(V, kind):
    n, k = V.dim("n"), V.dim("k", lo=2)
    a, b, c = [fresh_tf(V, kind, n, str(i)) if ":" in kind or kind == "null" else None for i in range(3)]
    if a is None:
        a = b = c = fresh_tf(V, kind, n)
    Q = V.generic("Q", n, k)
    Q0 = V.copy(Q)
    r = b.fit(Q)
    V.true("fit returns self", r is b)
    V.eq("training data unchanged", Q, Q0)
    V.true("dimension", b.state_dimension == n)
    Y = V.copy(a.fit_transform(Q, inplace=False))
    V.eq("training data unchanged", Q, Q0)
    V.eq("fit_transform", Y, b.transform(Q))
    W = V.array("W", n)
    V.eq("same map", a.transform(W), b.transform(W))
    X = V.copy(Q)
    Y2 = c.fit_transform(X, inplace=True)
    V.true("in place", Y2 is X)
    V.eq("in place value", X, Y)
    V.eq("round trip", a.inverse_transform(Y), Q0)
    Z = V.array("Z", n, 2)
    V.eq("round trip of other states", a.inverse_transform(a.transform(Z)), Z)


@contract("C08", fns=["transform", "inverse_transform", "transform_ddts"], cases={"kind": KINDS, "nd": [1, 2]}, trials=8)
def arrays_may_be_reused(V, kind, nd):
    """the same arrays, overwritten between two calls: the present contents are transformed"""
    n = V.dim("n")
    t, f, g = make_tf(V, kind, n)
    Q = states(V, "Q", n, nd) * 1.0
    Q2 = V.array("Qnew", *Q.shape)
    t.inverse_transform(t.transform(Q))
    t.transform_ddts(Q, inplace=False)
    Q[...] = Q2
    V.eq("transform", t.transform(Q), f(Q2))
    V.eq("derivatives", t.transform_ddts(Q, inplace=False), g(Q2))
    Q[...] = f(Q2)
    V.eq("inverse", t.inverse_transform(Q), Q2)


PARTS = [("shift", "scalerow"), ("ss.cr", "null"), ("null", "ss.s"), ("ss.c", "scale", "ss.r"), ("scale", "shift", "null"),
         ("ss.cs",)]


def make_multi(V, parts, equal, how):
    pre = V.opinf.pre
    ns = [V.dim("n0", hi=4)] * len(parts) if equal else [V.dim(f"n{i}", hi=4) for i in range(len(parts))]
    tfs = [make_tf(V, x, m, str(i)) for i, (x, m) in enumerate(zip(parts, ns))]
    args = [None if how == "none" and x == "null" else t[0] for x, t in zip(parts, tfs)]
    T = pre.TransformerMulti(args, variable_sizes=ns)
    return T, ns, tfs


def offs(ns):
    o = [0]
    for x in ns:
        o.append(o[-1] + x)
    return o


@contract("C08", fns=["transform", "inverse_transform", "transform_ddts", "split"],
          cases={"parts": PARTS, "nd": [1, 2], "inplace": [False, True], "how": ["given", "none"]}, trials=12)
def multi_transforms_each_variable(V, parts, nd, inplace, how):
    T, ns, tfs = make_multi(V, parts, False, how)
    o = offs(ns)
    n = o[-1]
    V.true("dimension", T.state_dimension == n)
    Q = states(V, "Q", n, nd)
    Q0 = V.copy(Q)
    Y = T.transform(Q, inplace=inplace)
    V.shape("transform", Y, Q0.shape)
    for i, (t, f, lin) in enumerate(tfs):
        s = slice(o[i], o[i + 1])
        V.eq(f"variable {i}", Y[s], f(Q0[s]))
        V.eq(f"argument {i}", Q[s], f(Q0[s]) if inplace else Q0[s])
    Y0 = V.copy(Y)
    R = T.inverse_transform(Y, inplace=inplace)
    V.eq("inverse", R, Q0)
    V.eq("argument of inverse", Y, Q0 if inplace else Y0)
    V.true("returned object", (R is Y and Y is Q) if inplace else True)
    D = states(V, "D", n, nd)
    D0 = V.copy(D)
    E = T.transform_ddts(D, inplace=inplace)
    for i, (t, f, lin) in enumerate(tfs):
        s = slice(o[i], o[i + 1])
        V.eq(f"ddts {i}", E[s], lin(D0[s]))
        V.eq(f"ddts argument {i}", D[s], lin(D0[s]) if inplace else D0[s])


@contract("C08", fns=["inverse_transform"], cases={"parts": [p for p in PARTS if len(p) > 1], "nd": [1, 2],
                                                   "how": ["array", "slice"]}, trials=12)
def multi_inverse_at_locations(V, parts, nd, how):
    T, ns, tfs = make_multi(V, parts, True, "given")
    n, q = ns[0], len(ns)
    Q = states(V, "Q", n * q, nd)
    L, ix = locs_of(V, how, n)
    Y = T.transform(Q)
    YL = V.np.concatenate([Y[i * n:(i + 1) * n][ix] for i in range(q)])
    QL = V.np.concatenate([Q[i * n:(i + 1) * n][ix] for i in range(q)])
    V.eq("states at locations", T.inverse_transform(YL, locs=L), QL)


@contract("C08", fns=["fit", "fit_transform"], cases={"parts": [("n:minmax:all", "c:standard:row"),
                                                                ("null", "n:maxabs:row", "c:None:all")]},
          trials=15)
def multi_fit_transform_is_fit_then_transform(V, parts):
    n, k = V.dim("n"), V.dim("k", lo=2)
    mk = lambda: V.opinf.pre.TransformerMulti([fresh_tf(V, x, n) for x in parts])
    a, b, c = mk(), mk(), mk()
    q = len(parts)
    Q = V.generic("Q", n * q, k)
    Q0 = V.copy(Q)
    b.fit(Q)
    Y = V.copy(a.fit_transform(Q))
    V.eq("training data unchanged", Q, Q0)
    V.eq("fit_transform", Y, b.transform(Q))
    for i, x in enumerate(parts):
        s = slice(i * n, (i + 1) * n)
        V.eq(f"variable {i} alone", Y[s], fresh_tf(V, x, n).fit_transform(V.copy(Q0[s]), inplace=False))
    X = V.copy(Q)
    c.fit_transform(X, inplace=True)
    V.eq("in place", X, Y)
    V.eq("round trip", a.inverse_transform(Y), Q0)


PIPES = [("shift", "scale"), ("ss.c", "ss.r", "null"), ("scalerow", "shift", "ss.cs"), ("null", "shift")]


@contract("C08", fns=["transform", "inverse_transform", "transform_ddts"],
          cases={"parts": PIPES, "nd": [1, 2], "inplace": [False, True], "how": [None, "array", "slice"]}, trials=12)
def pipeline_composes_its_stages(V, parts, nd, inplace, how):
    n = V.dim("n")
    tfs = [make_tf(V, x, n, str(i)) for i, x in enumerate(parts)]
    T = V.opinf.pre.TransformerPipeline([t for t, _, _ in tfs])
    Q = states(V, "Q", n, nd)
    Q0 = V.copy(Q)
    want = Q0
    for _, f, _ in tfs:
        want = f(want)
    Y = T.transform(Q, inplace=inplace)
    V.eq("composition", Y, want)
    V.eq("argument", Q, want if inplace else Q0)
    L, ix = locs_of(V, how, n)
    Z = V.copy(Y[ix])
    Z0 = V.copy(Z)
    R = T.inverse_transform(Z, inplace=inplace, locs=L)
    V.eq("inverse", R, Q0[ix])
    V.eq("argument of inverse", Z, Q0[ix] if inplace else Z0)
    D = states(V, "D", n, nd)
    D0 = V.copy(D)
    dw = D0
    for _, _, g in tfs:
        dw = g(dw)
    E = T.transform_ddts(D, inplace=inplace)
    V.eq("ddts", E, dw)
    V.eq("ddts argument", D, dw if inplace else D0)


@contract("C08", fns=["fit_transform"], cases={"parts": [("c:None:all", "n:minmax:all"), ("n:maxabs:row", "c:standard:all", "null"),
                                                         ("n:minmaxsym:all", "c:maxabs:row")]}, trials=15)
def pipeline_fit_transform_is_fit_then_transform(V, parts):
    n, k = V.dim("n"), V.dim("k", lo=2)
    mk = lambda: V.opinf.pre.TransformerPipeline([fresh_tf(V, x, n) for x in parts])
    a, b, c = mk(), mk(), mk()
    Q = V.generic("Q", n, k)
    Q0 = V.copy(Q)
    b.fit(Q)
    V.eq("training data unchanged", Q, Q0)
    Y = V.copy(a.fit_transform(Q))
    V.eq("training data unchanged", Q, Q0)
    V.eq("fit_transform", Y, b.transform(Q))
    want = Q0
    for x in parts:
        want = fresh_tf(V, x, n).fit_transform(V.copy(want), inplace=False)
    V.eq("stages fitted in turn", Y, want)
    X = V.copy(Q)
    c.fit_transform(X, inplace=True)
    V.eq("in place", X, Y)
    V.eq("round trip", a.inverse_transform(Y), Q0)


@contract("C08", fns=["fit_transform", "inverse_transform"],
          cases={"centering": [False, True], "scaling": [None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym"],
                 "byrow": [False, True], "size": [1e-11, 1e-6, 1e6, 1e11]}, modes=("con",), trials=3)
def round_trip_at_any_magnitude(V, centering, scaling, byrow, size):
    """data of any magnitude come back"""
    n, k = int(V.rng.integers(1, 6)), int(V.rng.integers(3, 8))
    Q = V.generic("Q", n, k) * size
    t = V.opinf.pre.ShiftScaleTransformer(centering, scaling, byrow and scaling is not None)
    Y = t.fit_transform(Q)
    V.eq("round trip", t.inverse_transform(Y) / size, Q / size)
    D = V.array("D", n, k) * size
    V.eq("derivatives", t.transform_ddts(D) * 1.0, t.transform(Q + D) - t.transform(Q), tol=1e-5)
