"""Assumed contracts of external numerical routines (trusted base).

Each routine returns opaque arrays, one per distinct argument (normal form),
constrained only by the contract stated here.
"""
import math
import os as _os
import types
import importlib
from fractions import Fraction
import numpy as np
import scipy
import scipy.stats
import z3
from . import core, arrays, rules, shim
from . import terms as T
from .core import IP, SI, SB, ip, mk, cmp0, PATH, Unsupported
from .arrays import A, SR, SymList, asarr, deep_sym, try_concrete, po, memo, surely_eq, dims_equal, index
from .shim import Shim, sym, use, passthru, np_atleast_2d, NP


# ------------------------------------------------------------------ keys
def akey(x):
    """normal-form key of an array (generic element over blinded indices)"""
    if x is None or isinstance(x, (str, bool)):
        return repr(x)
    if isinstance(x, (int, float, np.number, SI, SR)):
        return po(x).skey() if not (isinstance(x, float) and not math.isfinite(x)) else repr(x)
    x = asarr(x)
    st = PATH.push()
    try:
        idx = []
        for k, d in enumerate(x.shape):
            s = x.struct.get(k)
            if s is not None:
                v = None
            d_ = PATH.norm(ip(d))
            v = f"%k{k}"
            PATH.assume(z3.And(core.zvar(v) >= 0, cmp0(d_ - IP.var(v) - IP.const(1), "ge")))
            idx.append(IP.var(v))
        try:
            t = x.get(tuple(idx))
            t = T.inv_rewrite(rules.reduce(t))
        except Unsupported as ex:
            # structured axis: use digits
            t = structured_generic(x)
    finally:
        PATH.pop(st)
    return "(" + ",".join(repr(PATH.norm(ip(d))) for d in x.shape) + ")" + t.skey()


def structured_generic(x):
    idx = []
    for k, d in enumerate(x.shape):
        s = x.struct.get(k)
        if s is None:
            v = f"%k{k}"
            idx.append(IP.var(v))
        else:
            c = PATH.counter
            PATH.counter = 10 ** 6 + 100 * k
            try:
                idx.append(s.skolem(f"key{k}"))
            finally:
                PATH.counter = c
    return x.get(tuple(idx))


def opaque_name(fn, *args):
    k = ("opaque", fn) + tuple(akey(a) for a in args)
    n = PATH.memo.get(k)
    log = PATH.memo.setdefault(("opaqueargs", fn), [])
    if n is None:
        # the path may have learned equations since the key was made
        for old, m, nsub in log:
            if nsub != len(PATH.sub) and len(old) == len(args):
                try:
                    if ("opaque", fn) + tuple(akey(a) for a in old) == k:
                        n = PATH.memo[k] = m
                        break
                except Unsupported:
                    pass
    new = n is None
    if new:
        keep = tuple(a.frozen() if isinstance(a, A) else a for a in args)
        log.append((keep, f"{fn}#{PATH.memo.get('opq', 0)}", len(PATH.sub)))
    if new:
        c = PATH.memo.get("opq", 0)
        PATH.memo["opq"] = c + 1
        n = PATH.memo[k] = f"{fn}#{c}"
    return n, new


def opaque(fn, shape, *args, sign=None, structs=None):
    n, new = opaque_name(fn, *args)
    PATH.realdecl[n] = sign
    return A(shape, arr_fn(n, structs), "f", dict(structs or {})), n, new


def arr_fn(n, structs=None):
    return lambda idx: T.arr(n, idx)


# ------------------------------------------------------- rules from equations
def mono_pattern(m, env):
    """monomial -> (ranges, facs) or None.  env: variable -> pattern name"""
    bs, cons, facs = m
    env = dict(env)
    ranges = {}
    for i, b in enumerate(bs):
        env[b] = f"!b{i}"
    los, his = set(), {}
    for t, p in cons:
        if t != "ge":
            return None
        vs = [v for v in p.vars() if v in bs]
        if len(vs) != 1:
            return None
        b = vs[0]
        c = p.lincoef(b)
        if c == 1 and p == IP.var(b):
            los.add(b)
        elif c == -1 and b not in his:
            his[b] = p + IP.var(b) + IP.const(1)
        else:
            return None
    if los != set(bs) or set(his) != set(bs):
        return None
    for b in bs:
        ranges[env[b]] = his[b]
    out = []
    for a, e in facs:
        if a[0] == "v" and a[1] not in env and PATH.dims.get(a[1], 0) > 0 and isinstance(e, int):
            out.append((a, (), e))
            continue
        if a[0] != "a" or not isinstance(e, (int, Fraction)):
            return None
        if not isinstance(e, int) or e < 1:
            if PATH.realdecl.get(a[1]) != "pos":
                return None
            step, e = e, 1
        else:
            step = 1
        idx = []
        for x in a[2]:
            if len(x.d) == 1 and len(x.vars()) == 1 and x == IP.var(next(iter(x.vars()))) \
                    and next(iter(x.vars())) in env:
                idx.append(env[next(iter(x.vars()))])
            elif x.vars() & set(env):
                vs = x.vars() & set(env)
                v = next(iter(vs))
                off = x - IP.var(v)
                if len(vs) != 1 or off.vars() & set(env):
                    return None
                idx.append(rules.Off(env[v], off))
            else:
                idx.append(x)
        out += [(a[1], tuple(idx), step)] * e
    return ranges, out


def equation_rule(name, lhs_fn, free, rhs_fn, prefer=None):
    """Assume  lhs(free) == rhs(free) for all values of the free indices; orient it
    by a leading monomial of lhs made of array entries only.

    lhs_fn, rhs_fn: tuple of IPs -> Po;  free: list of upper bounds (dims)."""
    one = [isinstance(d, int) and d == 1 for d in free]
    if any(one):
        full = lambda idx: tuple(next(it) if not o else IP.const(0) for o in one) if (it := iter(idx)) else ()
        lhs0, rhs0 = lhs_fn, rhs_fn
        lhs_fn, rhs_fn = (lambda i: lhs0(full(i))), (lambda i: rhs0(full(i)))
        free = [d for d, o in zip(free, one) if not o]
    vs = [f"%f{i}" for i in range(len(free))]
    st = PATH.push()
    try:
        for v, d in zip(vs, free):
            PATH.assume(z3.And(core.zvar(v) >= 0, cmp0(PATH.norm(ip(d)) - IP.var(v) - IP.const(1), "ge")))
        lhs = lhs_fn(tuple(IP.var(v) for v in vs))
    finally:
        PATH.pop(st)
    best = None
    env = {v: f"?{i}" for i, v in enumerate(vs)}
    for m, c in lhs.d.items():
        pt = mono_pattern(m, env)
        if pt is None:
            continue
        pats = {rules.patname(q) for _, idx, _ in pt[1] for q in idx if (rules.patname(q) or "")[:1] == "?"}
        if pats != set(env.values()):
            continue
        if prefer and not all(any(f[0] == p for f in pt[1]) for p in prefer):
            continue
        key = (len(pt[0]), len(pt[1]), T.mrepr(m))
        if best is None or key > best[0]:
            best = (key, m, c, pt)
    if best is None:
        return False
    _, m, c, (ranges, facs) = best
    rest = T.Po({k: v for k, v in lhs.d.items() if k != m})

    # divide by positive factors without bound indices
    free_pos = [f for f in facs if (isinstance(f[0], tuple) or PATH.realdecl.get(f[0]) == "pos") and
                not any((rules.patname(q) or "")[:1] == "!" or isinstance(q, rules.Off) for q in f[1])]
    left = [f for f in facs if f not in free_pos]
    if free_pos and not {rules.patname(q) for f in left for q in f[1] if (rules.patname(q) or "")[:1] == "?"} >= set(env.values()):
        free_pos, left = [], facs
    names = {f[0] for f in left}
    if free_pos and any(a[0] == "a" and a[1] in names for m2 in rest.d for a, _ in m2[2]):
        free_pos, left = [], facs           # dividing would not terminate
    facs = left

    def rhs(e):
        sub = {v: e[f"?{i}"] for i, v in enumerate(vs)}
        idx = tuple(sub[v] for v in vs)
        r = (rhs_fn(idx) - rest.subst(sub)).scale(1 / c)
        for nm, ix, step in free_pos:
            r = r * T.pw(T.atom(nm) if isinstance(nm, tuple) else T.arr(nm, tuple(e[q] if isinstance(q, str) else q for q in ix)), -step)
        return r
    rules.add(rules.Rule(name, ranges, facs, rhs, {f"?{i}": ip(d) for i, d in enumerate(free)}))
    return True


def fullsum(f, n):
    return T.psum(f, IP.const(0), PATH.norm(ip(n)))


# -------------------------------------------------------------------- solve
def inverse(G):
    """inv(G), contract  inv(G) G = G inv(G) = I   (precondition: G nonsingular)"""
    G = np_atleast_2d(asarr(G))
    n = G.shape[0]
    if not dims_equal(n, G.shape[1]):
        raise ValueError("expected square matrix")
    if isinstance(n, int) and n == 1:
        return 1 / G
    # identity / diagonal
    g = G.snap()
    st = PATH.push()
    isid = False
    try:
        v, w = "%k0", "%k1"
        for x in (v, w):
            PATH.assume(z3.And(core.zvar(x) >= 0, cmp0(PATH.norm(ip(n)) - IP.var(x) - IP.const(1), "ge")))
        try:
            d = g((IP.var(v), IP.var(w))) - rules.delta(IP.var(v), IP.var(w))
            isid = T.is_zero(d).ok
        except Unsupported:
            pass
    finally:
        PATH.pop(st)
    if isid:
        return NP["eye"](n)
    use("inverse: inv(G) G = G inv(G) = I")
    X, name, new = opaque("inv", (n, n), G)
    X.nonsingular = True
    if new:
        nn = ip(n)
        equation_rule("inv.left", lambda i: fullsum(lambda k: T.arr(name, (i[0], k)) * g((k, i[1])), nn),
                      [n, n], lambda i: rules.delta(*i), [name])
        equation_rule("inv.right", lambda i: fullsum(lambda k: g((i[0], k)) * T.arr(name, (k, i[1])), nn),
                      [n, n], lambda i: rules.delta(*i), [name])
        # symmetric argument -> symmetric inverse
        st = PATH.push()
        try:
            for x in ("%k0", "%k1"):
                PATH.assume(z3.And(core.zvar(x) >= 0, cmp0(PATH.norm(nn) - IP.var(x) - IP.const(1), "ge")))
            d = g((IP.var("%k0"), IP.var("%k1"))) - g((IP.var("%k1"), IP.var("%k0")))
            issym = T.is_zero(d).ok
        finally:
            PATH.pop(st)
        if issym:
            PATH.sym2.add(name)
    return X


def la_solve(a, b, *args, **k):
    a, b = asarr(a), asarr(b)
    X = inverse(a)
    return arrays.matmul(X, b)


def la_inv(a, *x, **k):
    return inverse(a)


def factor(kind):
    def f(a, *args, **k):
        lower = args[0] if args else k.get("lower", False)
        return (Factor(kind, inverse(a)), lower)
    return f


class Factor:
    def __init__(self, kind, inv):
        self.kind = kind
        self.inv = inv


def factor_solve(kind):
    def f(c, b, *a, **k):
        fac = c[0]
        if not isinstance(fac, Factor) or fac.kind != kind:
            raise Unsupported(f"{kind} solve of a foreign factor")
        if k.get("trans"):
            return arrays.matmul(fac.inv.T, asarr(b))
        return arrays.matmul(fac.inv, asarr(b))
    return f


def keepreal(real, f):
    def g(*a, **k):
        if deep_sym(a) or deep_sym(k) or any(isinstance(x, tuple) and x and isinstance(x[0], Factor) for x in a):
            return f(*a, **k)
        return real(*a, **k)
    return g


# -------------------------------------------------------------------- lstsq
def la_lstsq(a, b, *args, **k):
    """contract: normal equations  A^T A X = A^T B  (X minimises ||A X - B||_F)"""
    a, b = asarr(a), asarr(b)
    if a.ndim != 2:
        raise ValueError("Input array a should be 2D")
    if not dims_equal(a.shape[0], b.shape[0]):
        raise ValueError("Shape mismatch: a and b should have the same number of rows")
    if k.get("cond") is not None or args and args[0] is not None or k.get("rcond") is not None:
        raise Unsupported("lstsq with a cutoff")
    use("lstsq: normal equations A^T A X = A^T B")
    m, n = a.shape
    shape = (n,) + b.shape[1:]
    structs = {}
    if 1 in a.struct:
        structs[0] = a.struct[1]
    X, name, new = opaque("lstsq", shape, a, b)
    if structs:
        X.struct.update(structs)
    if new:
        fa, fb = a.snap(), b.snap()
        if b.ndim == 2:
            equation_rule("lstsq", lambda i: fullsum(lambda q: fullsum(
                lambda t: fa((q, i[0])) * fa((q, t)) * T.arr(name, (t, i[1])), n), m),
                [n, b.shape[1]], lambda i: fullsum(lambda q: fa((q, i[0])) * fb((q, i[1])), m), [name])
        else:
            equation_rule("lstsq", lambda i: fullsum(lambda q: fullsum(
                lambda t: fa((q, i[0])) * fa((q, t)) * T.arr(name, (t,)), n), m),
                [n], lambda i: fullsum(lambda q: fa((q, i[0])) * fb((q,)), m), [name])
    res, _, _ = opaque("lstsq_res", b.shape[1:], a, b)
    sv, _, _ = opaque("lstsq_sv", (n,), a, sign="nonneg")
    return X, res, NP["array"](n) if False else n, sv


# ---------------------------------------------------------------------- svd
def la_svd(x, full_matrices=True, compute_uv=True, **k):
    x = asarr(x)
    n, m = x.shape
    kk = n if mk(ip(n)) <= m else m
    if full_matrices and compute_uv:
        if not (isinstance(kk, int) and False):
            raise Unsupported("full SVD")
    use("svd: X = U diag(s) Vt, U^T U = I, Vt Vt^T = I, s >= 0 in descending order")
    s, sn, new = opaque("svd_s", (kk,), x, sign="nonneg")
    PATH.desc.add(sn)
    if not compute_uv:
        return s
    U, un, newu = opaque("svd_U", (n, kk), x)
    V, vn, _ = opaque("svd_Vt", (kk, m), x)
    if newu:
        svd_rules(x, un, sn, vn, n, m, kk)
    return U, s, V


def svd_rules(x, un, sn, vn, n, m, kk):
    fx = x.snap()
    a = T.arr
    equation_rule("svd.UtU", lambda i: fullsum(lambda q: a(un, (q, i[0])) * a(un, (q, i[1])), n), [kk, kk],
                  lambda i: rules.delta(*i))
    equation_rule("svd.VtV", lambda i: fullsum(lambda q: a(vn, (i[0], q)) * a(vn, (i[1], q)), m), [kk, kk],
                  lambda i: rules.delta(*i))
    # X^T U = V S ,  X V = U S  (consequences of X = U S Vt)
    equation_rule("svd.XtU", lambda i: fullsum(lambda q: fx((q, i[0])) * a(un, (q, i[1])), n), [m, kk],
                  lambda i: a(sn, (i[1],)) * a(vn, (i[1], i[0])), [un])
    equation_rule("svd.XV", lambda i: fullsum(lambda q: fx((i[0], q)) * a(vn, (i[1], q)), m), [n, kk],
                  lambda i: a(sn, (i[1],)) * a(un, (i[0], i[1])), [vn])
    equation_rule("svd.USV", lambda i: fullsum(lambda q: a(un, (i[0], q)) * a(sn, (q,)) * a(vn, (q, i[1])), kk),
                  [n, m], lambda i: fx(i), [un, sn, vn])
    # energy: sum of squares of X = sum of squares of the singular values
    equation_rule("svd.energy", lambda i: fullsum(lambda p: fullsum(lambda q: T.pw(fx((p, q)), 2), m), n), [],
                  lambda i: fullsum(lambda q: T.pw(a(sn, (q,)), 2), kk))


# --------------------------------------------------------------------- eigh
def la_eigh(x, b=None, **k):
    if b is not None or deep_sym(k):
        raise Unsupported("generalised eigh")
    x = asarr(x)
    n = x.shape[0]
    if isinstance(n, int) and n == 1:
        return x[0], NP["eye"](1)
    use("eigh: X = Q diag(w) Q^T, Q^T Q = I, w ascending (X symmetric)")
    w, wn, new = opaque("eigh_w", (n,), x)          # stored in descending order
    PATH.desc.add(wn)
    w = A((n,), lambda i: T.arr(wn, (ip(n) - i[0] - IP.const(1),)), "f")
    Q, qn, newq = opaque("eigh_Q", (n, n), x)
    fx = x.snap()
    a = T.arr
    if newq:
        equation_rule("eigh.QtQ", lambda i: fullsum(lambda q: a(qn, (q, i[0])) * a(qn, (q, i[1])), n), [n, n],
                      lambda i: rules.delta(*i))
        equation_rule("eigh.XQ", lambda i: fullsum(lambda q: fx((i[0], q)) * a(qn, (q, i[1])), n), [n, n],
                      lambda i: a(wn, (ip(n) - i[1] - IP.const(1),)) * a(qn, (i[0], i[1])), [qn])
    return w, Q


def la_sqrtm(x, *a, **k):
    x = asarr(x)
    n = x.shape[0]
    if arrays.surely_eq(n, 1) is True:
        return NP["sqrt"](x)
    use("sqrtm: R R = X, R symmetric (X symmetric positive definite)")
    for W, R in PATH.memo.get("spd", ()):
        if W is x or akey(W) == akey(x):
            return R
    R, name, new = opaque("sqrtm", (n, n), x)
    PATH.sym2.add(name)
    return R


# ------------------------------------------------------------------ modules
LA = {
    "norm": sym(scipy.linalg.norm)(shim.norm),
    "solve": sym(scipy.linalg.solve)(la_solve),
    "inv": sym(scipy.linalg.inv)(la_inv),
    "lstsq": sym(scipy.linalg.lstsq)(la_lstsq),
    "svd": sym(scipy.linalg.svd)(la_svd),
    "svdvals": sym(scipy.linalg.svdvals)(lambda x, **k: la_svd(x, compute_uv=False)),
    "eigh": sym(scipy.linalg.eigh)(la_eigh),
    "cho_factor": keepreal(scipy.linalg.cho_factor, factor("cho")),
    "cho_solve": keepreal(scipy.linalg.cho_solve, factor_solve("cho")),
    "lu_factor": keepreal(scipy.linalg.lu_factor, factor("lu")),
    "lu_solve": keepreal(scipy.linalg.lu_solve, factor_solve("lu")),
    "block_diag": sym(scipy.linalg.block_diag)(shim.block_diag),
    "khatri_rao": sym(scipy.linalg.khatri_rao)(shim.khatri_rao),
    "sqrtm": sym(scipy.linalg.sqrtm)(la_sqrtm),
    "kron": NP["kron"],
}
NPLA = {
    "norm": sym(np.linalg.norm)(shim.norm),
    "solve": sym(np.linalg.solve)(la_solve),
    "inv": sym(np.linalg.inv)(la_inv),
    "lstsq": sym(np.linalg.lstsq)(la_lstsq),
    "svd": sym(np.linalg.svd)(la_svd),
    "eigh": sym(np.linalg.eigh)(la_eigh),
}


def binom(n, k, **kw):
    if not isinstance(k, (int, np.integer)):
        raise Unsupported("binom with symbolic k")

    def one(t):
        r = T.UNIT
        for j in range(int(k)):
            r = r * (t - T.const(j))
        return r.scale(Fraction(1, math.factorial(int(k))))
    if isinstance(n, SI):
        return arrays.SR(one(po(n)))
    return arrays.ew1(one, asarr(n), "f")


def comb(n, k, exact=False, repetition=False):
    if repetition:
        n = n + k - 1
    r = binom(n, k)
    if exact and isinstance(r, SR):
        return mk(arrays.po2ip(r.t))
    return r


SPECIAL = {"binom": sym(scipy.special.binom)(binom), "comb": sym(scipy.special.comb)(comb)}

class _DiaMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is cls or _isinstance(x, scipy.sparse.dia_array)


_isinstance = isinstance


class dia_array(A, metaclass=_DiaMeta):
    """dia_array(([d], [0]), shape=(n, n)): the diagonal matrix with diagonal d"""
    __slots__ = ("diag_",)

    def __new__(cls, arg, shape=None, **k):
        if not arrays.is_sym(arg) and not deep_sym(arg):
            return scipy.sparse.dia_array(arg, shape=shape, **k)
        return object.__new__(cls)

    def __init__(self, arg, shape=None, **k):
        (data, offs) = arg
        if len(offs) != 1 or offs[0] != 0:
            raise Unsupported("dia_array with several diagonals")
        d = asarr(data[0])
        f = d.snap()
        use("scipy.sparse.dia_array(([d], [0])) is the diagonal matrix of d")
        A.__init__(self, shape, lambda i: T.ite([("eq", i[1] - i[0])], lambda: f((i[0],)), lambda: T.ZERO), "f")
        self.diag_ = A((d.shape[0],), f, d.kind)

    @property
    def data(self):
        return [self.diag_]

    @property
    def format(self):
        return "dia"

    def copy(self):
        return dia_array(([self.diag_], [0]), shape=self.shape)

    def toarray(self):
        return A.copy(self)


def issparse(x):
    if type(x) is dia_array:
        return True
    return False if arrays.is_sym(x) else scipy.sparse.issparse(x)


SPARSE = {"dia_array": dia_array, "issparse": issparse}


def trapezoid(y, x=None, dx=1.0, axis=-1):
    """definition: sum_i (x_{i+1} - x_i) (y_i + y_{i+1}) / 2"""
    y = asarr(y)
    if y.ndim != 1 and axis not in (-1, y.ndim - 1):
        raise Unsupported("trapezoid axis")
    pre = (Ellipsis,)
    mid = (index(y, pre + (slice(1, None),)) + index(y, pre + (slice(None, -1),)))
    if x is None:
        d = dx
    else:
        d = shim.np_diff(asarr(x))
    return ((d * mid) * 0.5).sum(axis=-1)


INTEGRATE = {"trapezoid": sym(scipy.integrate.trapezoid)(trapezoid)}

_mods = {}


def module(name):
    if name in _mods:
        return _mods[name]
    m = make(name)
    _mods[name] = m
    return m


class SymCovariance:
    """scipy.stats.Covariance built from a symbolic precision matrix"""

    def __init__(self, precision):
        self.precision = precision

    @property
    def covariance(self):
        return inverse(self.precision)


class MVN:
    """frozen multivariate normal: mean, cov, and draws with the shapes scipy gives them"""

    def __init__(self, mean, cov, by_precision):
        self.mean, self.cov, self.by_precision = mean, cov, by_precision
        self.dim = mean.shape[0]

    def rvs(self, size=1, random_state=None):
        if not (isinstance(size, int) and size == 1):
            raise Unsupported("several draws at once")
        use("scipy.stats.multivariate_normal.rvs")
        log = PATH.memo.setdefault("draws", [])
        x = arrays.fresh_array(f"draw{len(log)}", (self.dim,), "f")
        log.append((self, x))
        if self.by_precision:
            return x[None, :]
        if surely_eq(self.dim, 1) or bool(self.dim == 1):
            return x[0]
        return x


class StatsCovariance:
    @staticmethod
    def from_precision(precision, covariance=None):
        if not deep_sym(precision):
            return scipy.stats.Covariance.from_precision(precision, covariance)
        use("scipy.stats.Covariance.from_precision")
        return SymCovariance(precision)


def mvn(mean=None, cov=1, allow_singular=False, **k):
    if not (deep_sym(mean) or deep_sym(cov) or isinstance(cov, SymCovariance)):
        return scipy.stats.multivariate_normal(mean, cov, allow_singular, **k)
    use("scipy.stats.multivariate_normal")
    byp = isinstance(cov, SymCovariance)
    c = cov.covariance if byp else cov
    if not surely_eq(c.shape[0], mean.shape[0]):
        raise Unsupported("multivariate normal with unequal dimensions")
    return MVN(asarr(mean), c, byp)


STATS = {"Covariance": StatsCovariance, "multivariate_normal": mvn}

class Result:
    pass


def _optimized(name, fun, x, args, **rec):
    """assumed contract of an optimiser: some point, the objective there, success or not"""
    use("scipy.optimize." + name)
    r = Result()
    r.x, r.fun = x, fun(x, *args)
    r.success = PATH.choose(2, "success") == 0
    PATH.memo.setdefault("optimizations", []).append(dict(rec, name=name, result=r))
    return r


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
    k = len(PATH.memo.get("optimizations", ()))
    x = arrays.fresh_array(f"argmin{k}", (), "f").item()
    if bounds is None:
        raise Unsupported("minimize_scalar without bounds")
    lo, hi = bounds
    PATH.assume(x >= lo)
    PATH.assume(x <= hi)
    return _optimized("minimize_scalar", fun, x, args, bounds=(lo, hi), method=method)


def minimize(fun, x0, args=(), method=None, **kw):
    k = len(PATH.memo.get("optimizations", ()))
    x = arrays.fresh_array(f"argmin{k}", asarr(x0).shape, "f")
    return _optimized("minimize", fun, x, args, x0=x0, method=method, **kw)


OPTIMIZE = {"minimize_scalar": minimize_scalar, "minimize": minimize}

EXTRA = {}         # module name -> overrides registered by other files


def make(name):
    from . import fakeh5      # registers the assumed contracts of h5py and os.path
    if name in ("copy", "os", "warnings", "time"):
        if name in EXTRA:
            return Shim(name, importlib.import_module(name), EXTRA[name])
        return None
    real = importlib.import_module(name)
    over = {
        "numpy": dict(NP), "numpy.linalg": NPLA, "scipy.linalg": LA, "scipy.special": SPECIAL,
        "scipy.sparse": SPARSE, "scipy.integrate": INTEGRATE, "scipy.stats": STATS,
        "scipy.optimize": OPTIMIZE,
    }.get(name, {})
    over = dict(over)
    over.update(EXTRA.get(name, {}))
    if name == "numpy":
        over["linalg"] = module("numpy.linalg")
        over["errstate"] = shim._Err
    if name == "scipy":
        for s in ("linalg", "special", "sparse", "integrate", "interpolate", "optimize", "stats"):
            over[s] = module("scipy." + s)
    if name.split(".")[0] == "matplotlib":
        return real
    sh = Shim(name, real, over)
    return sh
