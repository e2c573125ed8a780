"""C09: learned shifts and scalings have their documented targets."""
from vp.harness import contract, Skip
from c08 import SCALINGS, fresh_tf, PARTS

SS = [(c, s, r) for c in (False, True) for s in SCALINGS for r in (False, True)
      if not (r and s in (None, "maxnorm", "maxnormsym"))]


def documented(V, Q, c, s, r):
    """the documented formula, in terms of the training data"""
    np = V.np
    ax = 1 if r else None
    b = (lambda x: x.reshape((-1, 1))) if r else (lambda x: x)
    if c:
        Q = Q - np.mean(Q, axis=1).reshape((-1, 1))
    if s == "standard":
        return (Q - b(np.mean(Q, axis=ax))) / b(np.std(Q, axis=ax))
    if s == "minmax":
        return (Q - b(np.min(Q, axis=ax))) / b(np.max(Q, axis=ax) - np.min(Q, axis=ax))
    if s == "minmaxsym":
        return (Q - b(np.min(Q, axis=ax))) * 2 / b(np.max(Q, axis=ax) - np.min(Q, axis=ax)) - 1
    if s == "maxabs":
        return Q / b(np.max(np.abs(Q), axis=ax))
    if s == "maxabssym":
        Z = Q - b(np.mean(Q, axis=ax))
        return Z / b(np.max(np.abs(Z), axis=ax))
    if s == "maxnorm":
        return Q / np.max(np.linalg.norm(Q, axis=0))
    if s == "maxnormsym":
        Z = Q - np.mean(Q)
        return Z / np.max(np.linalg.norm(Z, axis=0))
    return Q


@contract("C09", fns=["fit_transform"], cases={"opts": SS}, trials=25)
def shift_scale_applies_the_documented_formula(V, opts):
    n, k = V.dim("n"), V.dim("k", lo=2)
    t = V.opinf.pre.ShiftScaleTransformer(*opts, verbose=bool(V.choice("verbose", [0, 1])) if not V.symbolic else False)
    Q = V.generic("Q", n, k)
    Y = t.fit_transform(Q)
    V.eq("formula", Y, documented(V, Q, *opts))


@contract("C09", fns=["fit", "transform"], cases={"opts": SS}, trials=15)
def learned_map_is_the_documented_formula_on_new_states(V, opts):
    """the same affine map, with the statistics of the training data, on every state"""
    c, s, r = opts
    np = V.np
    n, k = V.dim("n"), V.dim("k", lo=2)
    t = V.opinf.pre.ShiftScaleTransformer(*opts)
    Q = V.generic("Q", n, k)
    t.fit(Q)
    W = V.array("W", n)
    P = Q
    if c:
        mean = np.mean(Q, axis=1)
        V.eq("mean", t.mean_, mean)
        W0 = W - mean
        P = Q - mean.reshape((-1, 1))
    else:
        V.true("no mean", t.mean_ is None)
        W0 = W
    ax = 1 if r else None
    b = (lambda x: x.reshape((-1, 1))) if r else (lambda x: x)
    if s == "standard":
        want = (W0 - np.mean(P, axis=ax)) / np.std(P, axis=ax)
    elif s in ("minmax", "minmaxsym"):
        want = (W0 - np.min(P, axis=ax)) / (np.max(P, axis=ax) - np.min(P, axis=ax))
        if s == "minmaxsym":
            want = 2 * want - 1
    elif s == "maxabs":
        want = W0 / np.max(np.abs(P), axis=ax)
    elif s == "maxabssym":
        mu = np.mean(P, axis=ax)
        want = (W0 - mu) / np.max(np.abs(P - b(mu)), axis=ax)
    elif s == "maxnorm":
        want = W0 / np.max(np.linalg.norm(P, axis=0))
    elif s == "maxnormsym":
        want = (W0 - np.mean(P)) / np.max(np.linalg.norm(P - np.mean(P), axis=0))
    else:
        want = W0
    V.eq("map", t.transform(W), want)


@contract("C09", fns=["fit_transform"], cases={"opts": [o for o in SS if o[0] or o[1]]}, trials=25)
def transformed_training_data_meets_the_target(V, opts):
    c, s, r = opts
    np = V.np
    n, k = V.dim("n"), V.dim("k", lo=2)
    t = V.opinf.pre.ShiftScaleTransformer(*opts)
    Q = V.generic("Q", n, k)
    Y = t.fit_transform(Q)
    ax = 1 if r else None
    like = np.zeros(n) if r else 0.0
    if c and (s is None or s in ("maxabs", "maxnorm")):
        V.eq("zero mean snapshot", np.mean(Y, axis=1), np.zeros(n))
    if s in ("standard", "maxabssym", "maxnormsym"):
        V.eq("zero mean", np.mean(Y, axis=ax), like)
    if s == "standard":
        V.eq("unit deviation", np.std(Y, axis=ax), like + 1.0)
    if s in ("minmax", "minmaxsym"):
        V.eq("minimum", np.min(Y, axis=ax), like + (0.0 if s == "minmax" else -1.0))
        V.eq("maximum", np.max(Y, axis=ax), like + 1.0)
    if s in ("maxabs", "maxabssym"):
        V.eq("largest absolute value", np.max(np.abs(Y), axis=ax), like + 1.0)
    if s in ("maxnorm", "maxnormsym"):
        V.eq("largest norm", np.max(np.linalg.norm(Y, axis=0)), 1.0)


@contract("C09", fns=["fit", "fit_transform"], cases={"opts": SS}, trials=10)
def refitting_forgets_the_previous_data(V, opts):
    n, k, l = V.dim("n"), V.dim("k", lo=2), V.dim("l", lo=2)
    mk = lambda: V.opinf.pre.ShiftScaleTransformer(*opts)
    a, b = mk(), mk()
    A, Q = V.generic("A", n, k), V.generic("Q", n, l)
    a.fit(A)
    a.fit(Q)
    b.fit(Q)
    W = V.array("W", n)
    V.eq("same map", a.transform(W), b.transform(W))


@contract("C09", fns=["fit", "fit_transform"], cases={"opts": SS}, trials=8)
def arrays_may_be_reused(V, opts):
    """fitted twice with the same array, overwritten in between: the map is that of the present contents"""
    n, k = V.dim("n"), V.dim("k", lo=2)
    mk = lambda: V.opinf.pre.ShiftScaleTransformer(*opts)
    a, b = mk(), mk()
    A, Q = V.generic("A", n, k) * 1.0, V.generic("Q", n, k)
    a.fit(A)
    A[...] = Q
    a.fit(A)
    b.fit(Q)
    W = V.array("W", n)
    V.eq("same map", a.transform(W), b.transform(W))


@contract("C09", fns=["shift"], cases={"by": ["mean", "vector", "column"]}, trials=25)
def shift_function(V, by):
    n, k = V.dim("n"), V.dim("k")
    Q = V.generic("Q", n, k)
    Q0 = V.copy(Q)
    if by == "mean":
        Y, s = V.opinf.pre.shift(Q)
        V.eq("mean", s, V.np.mean(Q0, axis=1))
        V.eq("zero mean", V.np.mean(Y, axis=1), V.np.zeros(n))
    else:
        s = V.array("s", n)
        Y = V.opinf.pre.shift(Q, s if by == "vector" else s.reshape((-1, 1)))
    V.eq("shifted", Y, V.tab((n, k), lambda i, j: Q0[i, j] - s[i]))
    V.eq("unchanged", Q, Q0)
    V.eq("undone", V.opinf.pre.shift(Y, -s), Q0)


@contract("C09", fns=["scale"], cases={"given": [False, True]}, trials=40)
def scale_function(V, given):
    n, k = V.dim("n"), V.dim("k", lo=2)
    Q = V.generic("Q", n, k)
    Q0 = V.copy(Q)
    lo, w = V.real("lo"), V.real("w", sign="pos")
    to = (lo, lo + w)
    if given:
        a, b = V.real("a"), V.real("b", sign="pos")
        frm = (a, a + b)
        Y = V.opinf.pre.scale(Q, to, frm)
    else:
        Y, to1, frm = V.opinf.pre.scale(Q, to)
        V.eq("from minimum", frm[0], V.np.min(Q0))
        V.eq("from maximum", frm[1], V.np.max(Q0))
        V.eq("to minimum", to1[0], to[0])
        V.eq("to maximum", to1[1], to[1])
        V.eq("new minimum", V.np.min(Y), to[0])
        V.eq("new maximum", V.np.max(Y), to[1])
    V.eq("formula", Y, (Q0 - frm[0]) / (frm[1] - frm[0]) * (to[1] - to[0]) + to[0])
    V.eq("unchanged", Q, Q0)
    V.eq("undone", V.opinf.pre.scale(Y, frm, to), Q0)


@contract("C09", fns=["fit", "fit_transform"], cases={"parts": [("n:minmax:all", "c:standard:row"), ("null", "n:maxabs:row"),
                                                      ("c:maxnorm:all", "n:standard:all", "c:None:all")],
                                                      "sizes": ["equal", "given"]}, trials=15)
def multi_fits_each_variable_on_its_own_data(V, parts, sizes):
    q, k = len(parts), V.dim("k", lo=2)
    ns = [V.dim("n0")] * q if sizes == "equal" else [V.dim(f"n{i}") for i in range(q)]
    tfs = [fresh_tf(V, x, None) for x in parts]
    T = V.opinf.pre.TransformerMulti(tfs, variable_sizes=None if sizes == "equal" else ns)
    Q = V.generic("Q", sum(ns), k)
    T.fit(Q)
    W = V.array("W", sum(ns))
    Y = T.transform(W)
    o = 0
    for i, (x, n) in enumerate(zip(parts, ns)):
        t = fresh_tf(V, x, None)
        t.fit(V.copy(Q[o:o + n]))
        V.eq(f"variable {i}", Y[o:o + n], t.transform(V.copy(W[o:o + n])))
        V.true(f"size {i}", T.variable_sizes[i] == n)
        o = o + n


@contract("C09", fns=["fit", "fit_transform"], cases={"parts": [("c:None:all", "n:minmax:all"), ("n:maxabs:row", "c:standard:all"),
                                                      ("n:minmaxsym:all", "null", "c:maxabs:row")]}, trials=15)
def pipeline_fits_each_stage_on_its_own_data(V, parts):
    n, k = V.dim("n"), V.dim("k", lo=2)
    P = V.opinf.pre.TransformerPipeline([fresh_tf(V, x, None) for x in parts])
    Q = V.generic("Q", n, k)
    P.fit(Q)
    W = V.array("W", n)
    X, w = V.copy(Q), V.copy(W)
    for x in parts:
        t = fresh_tf(V, x, None)
        t.fit(V.copy(X))
        X, w = t.transform(X), t.transform(w)
    V.eq("map", P.transform(W), w)


@contract("C09", fns=["fit_transform"], cases={"opts": SS, "size": [1e-11, 1e-6, 1e6, 1e11]}, modes=("con",), trials=3)
def formula_at_any_magnitude(V, opts, size):
    """the documented formula holds for data of any magnitude and of either sign"""
    n, k = int(V.rng.integers(1, 6)), int(V.rng.integers(3, 8))
    Q = (V.generic("Q", n, k) + V.rng.choice([-4, 0, 4])) * size
    Y = V.opinf.pre.ShiftScaleTransformer(*opts).fit_transform(Q)
    f = 1 if opts[1] else 1 / size
    V.eq("formula", Y * f, documented(V, Q, *opts) * f)
