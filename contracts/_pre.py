"""Transformers with arbitrary parameters, and their documented affine maps."""
KINDS = ["shift", "scale", "scalerow", "null", "ss", "ss.c", "ss.s", "ss.cs", "ss.r", "ss.cr", "ss.c.norow"]


def rowvec(V, x, Q):
    """broadcast a per-row quantity against states of one or two dimensions"""
    return x.reshape((-1, 1)) if getattr(x, "ndim", 0) == 1 and Q.ndim > 1 else x


def make_tf(V, kind, n, tag=""):
    """-> (transformer, affine map f(Q, locs), linear part g(Q, locs))"""
    pre = V.opinf.pre
    at = lambda x, locs: x if locs is None or getattr(x, "ndim", 0) == 0 else x[locs]
    if kind == "null":
        t = pre.NullTransformer()
        t.state_dimension = n
        m, a, b = None, None, None
    elif kind == "shift":
        m, a, b = V.array("ref" + tag, n), None, None
        t = pre.ShiftTransformer(V.copy(m))
    elif kind == "scale":
        m, a, b = None, V.real("scl" + tag, sign="pos"), None
        if not V.symbolic and V.rng.random() < 0.5:
            a = -a
        t = pre.ScaleTransformer(a)
        t.state_dimension = n
    elif kind == "scalerow":
        m, a, b = None, V.array("scl" + tag, n, sign="pos"), None
        if not V.symbolic:
            a = a * V.rng.choice([-1.0, 1.0], n)
        t = pre.ScaleTransformer(V.copy(a))
    else:
        c = "c" in kind
        row = "r" in kind.split(".", 1)[-1].replace("norow", "") if "." in kind else False
        scaled = row or "s" in kind.split(".", 1)[-1] if "." in kind else False
        m = V.array("mean" + tag, n) if c else None
        a = b = None
        t = pre.ShiftScaleTransformer(centering=c, scaling="minmax" if scaled else None,
                                      byrow=row or kind == "ss.c.norow")
        t.state_dimension = n
        if c:
            t.mean_ = V.copy(m)
        if scaled:
            if row:
                a, b = V.array("a" + tag, n, sign="pos"), V.array("b" + tag, n)
            else:
                a, b = V.real("a" + tag, sign="pos"), V.real("b" + tag)
            t.scale_, t.shift_ = V.copy(a), V.copy(b)

    def lin(Q, locs=None):
        return Q if a is None else Q * rowvec(V, at(a, locs), Q)

    def f(Q, locs=None):
        Y = Q if m is None else Q - rowvec(V, at(m, locs), Q)
        Y = lin(Y, locs)
        return Y if b is None else Y + rowvec(V, at(b, locs), Y)
    return t, f, lin


def locs_of(V, how, n):
    """-> (locs argument, index selecting the same entries)"""
    if how is None:
        return None, slice(None)
    if how == "array":
        p = V.dim("p", hi=4)
        L = V.locs("locs", p, n)
        return L, L
    if how == "slice":
        lo = V.index("lo", n)
        return slice(lo, None), slice(lo, None)
    return slice(0, n, 2), slice(0, n, 2)
