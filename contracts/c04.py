"""C04: compressed and full Kronecker entries describe the same operator."""
from vp.harness import contract
from _ops import POLY, make, ncols

OPN = sorted(POLY)
RB = {"r": [1, 2, 3], "a": [1, 2]}


def qpow(V, q, p):
    x = q
    for _ in range(p - 1):
        x = V.np.kron(x, q)
    return x


def cls(V, op):
    return getattr(V.opinf.operators, op)


@contract("C04", fns=["compress_entries", "ckron"], cases={"op": OPN}, bound=RB)
def compress_preserves_action(V, op):
    r, a, p = V.dim("r", hi=4), V.dim("a", hi=3), POLY[op]
    H = V.array("H", a, r ** p)
    H0 = V.copy(H)
    q = V.array("q", r)
    Hc = cls(V, op).compress_entries(H)
    V.shape("compressed", Hc, (a, ncols(op, r, 1)))
    V.eq("action", Hc @ cls(V, op).ckron(q), H0 @ qpow(V, q, p))
    V.eq("argument unchanged", H, H0)


@contract("C04", fns=["expand_entries", "ckron"], cases={"op": OPN}, bound=RB)
def expand_preserves_action(V, op):
    r, a, p = V.dim("r", hi=4), V.dim("a", hi=3), POLY[op]
    Hc = V.array("Hc", a, ncols(op, r, 1))
    H0 = V.copy(Hc)
    q = V.array("q", r)
    H = cls(V, op).expand_entries(Hc)
    V.shape("expanded", H, (a, r ** p))
    V.eq("action", H @ qpow(V, q, p), H0 @ cls(V, op).ckron(q))
    V.eq("argument unchanged", Hc, H0)


@contract("C04", fns=["expand_entries", "compress_entries"], cases={"op": OPN}, bound=RB)
def compress_undoes_expand(V, op):
    r, a = V.dim("r", hi=4), V.dim("a", hi=3)
    Hc = V.array("Hc", a, ncols(op, r, 1))
    V.eq("identity", cls(V, op).compress_entries(cls(V, op).expand_entries(Hc)), Hc)


@contract("C04", fns=["expand_entries"], cases={"op": OPN}, bound=RB)
def expanded_entries_are_symmetric(V, op):
    r, a, p = V.dim("r", hi=4), V.dim("a", hi=2), POLY[op]
    Hc = V.array("Hc", a, ncols(op, r, 1))
    T = cls(V, op).expand_entries(Hc).reshape((a,) + (r,) * p)
    for s in range(1, p):
        perm = list(range(p + 1))
        perm[s], perm[s + 1] = perm[s + 1], perm[s]
        V.eq(f"swap {s}", T.transpose(*perm), T)


@contract("C04", fns=["set_entries", "__init__"], cases={"op": OPN, "form": ["full", "tensor"]}, bound=RB)
def construction_accepts_full_entries(V, op, form):
    r, p = V.dim("r", hi=4), POLY[op]
    H = V.array("H", r, r ** p)
    given = H if form == "full" else V.copy(H).reshape((r,) * (p + 1))
    g0 = V.copy(given)
    o = cls(V, op)(given)
    V.eq("entries", o.entries, cls(V, op).compress_entries(H))
    V.eq("argument unchanged", given, g0)
    q = V.array("q", r)
    V.eq("action", o.apply(q), H @ qpow(V, q, p))


@contract("C04", fns=["ckron_indices", "ckron"], cases={"op": OPN}, bound=RB)
def ckron_indices_select_ckron(V, op):
    r, k = V.dim("r", hi=5), V.dim("k", hi=3)
    q = V.array("q", r, k)
    mask = cls(V, op).ckron_indices(r)
    V.shape("mask", mask, (ncols(op, r, 1), POLY[op]))
    V.eq("values", V.np.prod(q[mask], axis=1), cls(V, op).ckron(q))


@contract("C04", fns=["compress_entries", "expand_entries"], cases={"op": OPN})
def one_dimensional_entries(V, op):
    """a single row may be given as a one-dimensional array"""
    r, p = V.dim("r", hi=4, split=False) if not V.symbolic else 3, POLY[op]
    H = V.array("H", r ** p)
    h = V.array("h", ncols(op, r, 1))
    V.eq("compress", cls(V, op).compress_entries(H), cls(V, op).compress_entries(H[None, :]))
    V.eq("expand", cls(V, op).expand_entries(h), cls(V, op).expand_entries(h[None, :]))


@contract("C04", fns=["_rfromcompressed"], modes=("con",), trials=3, budget=60)
def inverse_of_operator_dimension(V):
    """expand_entries recovers r from the number of columns, for every r up to 400 (bounded)"""
    ops = V.opinf.operators
    for r in range(1, 401):
        if r <= 60:
            Hc = V.np.zeros((1, r * (r + 1) // 2))
            V.true("quadratic", ops.QuadraticOperator.expand_entries(Hc).shape == (1, r ** 2))
        V.true("cubic", ops.CubicOperator._rfromcompressed(r * (r + 1) * (r + 2) // 6) == r)
        V.true("quartic", ops.QuarticOperator._rfromcompressed(r * (r + 1) * (r + 2) * (r + 3) // 24) == r)


@contract("C04", fns=["compress_entries", "expand_entries"], modes=("con",), trials=4, cases={"op": OPN})
def larger_dimensions(V, op):
    """the same laws at dimensions beyond the small ones (r = 5..9)"""
    p = POLY[op]
    r = V.dim("r", lo=5, hi={2: 40, 3: 10, 4: 6}[p])
    Hc = V.array("Hc", 1, ncols(op, r, 1))
    H = cls(V, op).expand_entries(Hc)
    q = V.array("q", r)
    V.eq("action", H @ qpow(V, q, p), Hc @ cls(V, op).ckron(q))
    V.eq("identity", cls(V, op).compress_entries(H), Hc)
