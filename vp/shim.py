"""Shims for the libraries the verified code calls.

Every shim function behaves as the real library function does on concrete
arguments (it calls it); on symbolic arguments it implements the documented
semantics of that function over the reals (definitions), or an assumed
contract (factorisations, solvers, interpolators ... in `assumed.py`).
Anything else raises Unsupported: the obligation is then reported as
undischarged, never as proved.
"""
import builtins
import math
import itertools
import numbers
import types
from fractions import Fraction
import numpy as np
import z3
from . import core, arrays
from . import terms as T
from .core import IP, SI, SB, ip, mk, cmp0, PATH, Unsupported, SymRepeat
from .arrays import (A, SR, SymList, asarr, asarr0, deep_sym, is_sym, try_concrete, ew1, ew2, ewcmp, ewbool,
                     reduce_, quant, matmul, index, reshape, po, po2ip, fn1, kind_of, join_kind, bshape, bget,
                     bstruct, surely_eq, dims_equal, memo, pick, Prod, Ragged, isnum, arrays_equal_bool,
                     check_same_shape, norm_dim, minmax2, fresh_array)

ASSUMED = {}          # name -> number of uses of an assumed contract
DEFINED = {}          # name -> number of uses of a definition


def use(name):
    ASSUMED[name] = ASSUMED.get(name, 0) + 1


class Shim(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}

    def __getattr__(self, k):
        o = self._over
        if k in o:
            return o[k]
        c = self._cache
        if k in c:
            return c[k]
        v = getattr(self._real, k)
        if isinstance(v, types.ModuleType):
            v = MODULES.get(v.__name__) or v
        elif callable(v) and not isinstance(v, type):
            v = passthru(f"{self.__name__}.{k}", v)
        c[k] = v
        return v

    def __dir__(self):
        return dir(self._real)


def concretise(x, d=0):
    if isinstance(x, (A, SR)):
        c = try_concrete(x)
        if c is None:
            raise Unsupported("symbolic")
        return c
    if isinstance(x, (SI, SB, SymList, SymRepeat)):
        raise Unsupported("symbolic")
    if d < 4 and isinstance(x, (list, tuple)):
        y = [concretise(z, d + 1) for z in x]
        return type(x)(y) if type(x) in (list, tuple) else y
    if isinstance(x, np.ndarray) and x.dtype == object and deep_sym(x):
        raise Unsupported("symbolic")
    return x


def passthru(name, f):
    def g(*a, **k):
        if deep_sym(a) or deep_sym(k):
            try:
                a = [concretise(x) for x in a]
                k = {q: concretise(x) for q, x in k.items()}
            except Unsupported:
                raise Unsupported(f"{name} on a symbolic argument") from None
        return f(*a, **k)
    g.__name__ = name
    g.__wrapped__ = f
    return g


def sym(real):
    """decorator: concrete arguments -> the real function, symbolic -> the shim"""
    def deco(f):
        def g(*a, **k):
            if not (deep_sym(a) or deep_sym(k)):
                return real(*a, **k)
            return f(*a, **k)
        g.__name__ = getattr(real, "__name__", "f")
        return g
    return deco


# ================================================================= builtins
def v_len(x):
    if isinstance(x, A):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, (SymList, SymRepeat)):
        return mk(ip(x.n))
    if isinstance(x, SymRange):
        return x.n
    if isinstance(x, (SI, SR)):
        raise TypeError("object of type 'float' has no len()")
    return builtins.len(x)


class SymRange(SymList):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        d = hi - lo if step > 0 else lo - hi
        if not (d > 0):
            n = 0
        elif abs(step) == 1:
            n = d
        else:
            n = (d + (abs(step) - 1)) // abs(step)
        super().__init__(n, lambda i: lo + step * i)


def v_range(*a):
    a = [mk(po2ip(x.get(()))) if isinstance(x, A) and x.ndim == 0 else x for x in a]
    a = [mk(po2ip(x.t)) if isinstance(x, SR) else x for x in a]
    a = [mk(x.p) if isinstance(x, SI) else x for x in a]
    if not any(isinstance(x, SI) for x in a):
        return builtins.range(*a)
    lo, hi, step = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[:2]
        step = a[2] if len(a) > 2 else 1
    if isinstance(step, SI):
        raise Unsupported("symbolic range step")
    d = (hi - lo) if step > 0 else (lo - hi)
    if isinstance(d, int):
        n = max(0, -(-d // abs(step)))
        return [lo + step * i for i in builtins.range(n)]
    r = SymRange(lo, hi, step)
    if isinstance(r.n, int):
        return [lo + step * i for i in builtins.range(r.n)]
    return r


_real_isinstance = builtins.isinstance


def v_isinstance(x, t):
    if _real_isinstance(x, (A, SR, SI, SB)):
        if _real_isinstance(t, tuple):
            return any(v_isinstance(x, s) for s in t)
        if _real_isinstance(t, types.UnionType):
            return any(v_isinstance(x, s) for s in t.__args__)
        if t in (numbers.Number, numbers.Real, numbers.Complex, object):
            return not _real_isinstance(x, A) or t is object
        if t in (int, numbers.Integral, numbers.Rational):
            return _real_isinstance(x, SI) or (_real_isinstance(x, SB) and t is int)
        if t is np.integer or t is np.int64:
            return False
        if t is float:
            return _real_isinstance(x, SR)
        if t in (np.number, np.floating, np.float64, np.generic):
            return _real_isinstance(x, SR)
        if t is bool:
            return _real_isinstance(x, SB)
        if t is np.ndarray or t is ndarray_t:
            return _real_isinstance(x, A)
        return _real_isinstance(x, t)
    if _real_isinstance(x, SymList):
        if _real_isinstance(t, tuple):
            return any(v_isinstance(x, s) for s in t)
        if t is list:
            return True
        return False
    if t is ndarray_t:
        return _real_isinstance(x, np.ndarray)
    if _real_isinstance(t, tuple) and ndarray_t in t:
        return any(v_isinstance(x, s) for s in t)
    return _real_isinstance(x, t)


ndarray_t = np.ndarray


def v_int(*a, **k):
    if a and isinstance(a[0], A) and a[0].size == 1:
        a = (a[0].item(),)
    if a and isinstance(a[0], SI):
        return a[0]
    if a and isinstance(a[0], SR):
        return mk(po2ip(a[0].t))
    if a and isinstance(a[0], SB):
        return 1 if a[0] else 0
    return builtins.int(*a, **k)


def v_float(*a):
    if a and isinstance(a[0], A) and a[0].size == 1:
        a = (a[0].item(),)
    if a and isinstance(a[0], SI):
        return core._real(a[0])
    if a and isinstance(a[0], (SR,)):
        return a[0]
    return builtins.float(*a)


def v_bool(x=False):
    return builtins.bool(x)


def v_sum(x, start=0):
    if isinstance(x, A):
        if x.ndim == 1:
            return x.sum() + start
        return x.sum(axis=0) + start
    if isinstance(x, SymList):
        return asarr(x).sum(axis=0) + start
    return builtins.sum(x, start)


def v_max(*a, **k):
    return _mm(builtins.max, "max", *a, **k)


def v_min(*a, **k):
    return _mm(builtins.min, "min", *a, **k)


def _mm(real, nm, *a, **k):
    if not k:
        xs = a
        if len(a) == 1:
            if isinstance(a[0], A):
                return reduce_(nm, a[0], None if a[0].ndim == 1 else 0)
            if isinstance(a[0], SymList):
                return reduce_(nm, asarr(a[0]), None)
            xs = list(a[0])
        if any(isinstance(x, SR) for x in xs) and all(isnum(x) for x in xs) and xs:
            r = po(xs[0])
            for x in xs[1:]:
                r = minmax2(nm, r, po(x))
            return SR(r)
        return real(*xs) if len(a) > 1 else real(xs)
    return real(*a, **k)


def v_enumerate(x, start=0):
    if isinstance(x, SymList):
        return SymList(x.n, lambda i: (start + i, x.f(i)))
    if isinstance(x, A) and not isinstance(x.shape[0], int):
        return SymList(x.shape[0], lambda i: (start + i, x[i]))
    return builtins.enumerate(x, start)


def symlen(x):
    if isinstance(x, (SymList, SymRepeat)):
        return ip(x.n)
    if isinstance(x, A):
        return ip(x.shape[0])
    return None


def sget(x):
    if isinstance(x, SymList):
        return x.f
    if isinstance(x, A):
        return lambda i: x[i]
    if isinstance(x, SymRepeat):
        return lambda i: x.elem
    if isinstance(x, itertools.count):
        return lambda i: i
    raise Unsupported("zip over mixed symbolic lists")


def v_zip(*a, strict=False):
    if any(isinstance(x, (SymList, SymRepeat)) or (isinstance(x, A) and not isinstance(x.shape[0], int)) for x in a):
        ns = [symlen(x) for x in a if symlen(x) is not None]
        if len(ns) != len(a):
            fin = [len(x) for x in a if isinstance(x, (list, tuple))]
            if fin:
                m = min(fin)
                for n in ns:
                    if not mk(n) >= m:
                        raise Unsupported("zip of lists of different lengths")
                out = []
                for i in builtins.range(m):
                    out.append(tuple(x[i] if not isinstance(x, SymRepeat) else x.elem for x in a))
                return out
            raise Unsupported("zip")
        for n in ns[1:]:
            if not surely_eq(mk(n), mk(ns[0])):
                raise Unsupported("zip of symbolic lists of different lengths")
        gs = [sget(x) for x in a]
        return SymList(mk(ns[0]), lambda i: tuple(g(i) for g in gs))
    return builtins.zip(*a, strict=strict)


def v_list(*a):
    if a and isinstance(a[0], SymList):
        return a[0]
    if a and isinstance(a[0], A) and not isinstance(a[0].shape[0], int):
        x = a[0]
        return SymList(x.shape[0], lambda i: x[i])
    return builtins.list(*a)


def v_tuple(*a):
    if a and isinstance(a[0], SymList):
        return a[0]
    return builtins.tuple(*a)


def v_reversed(x):
    if isinstance(x, SymList):
        return SymList(x.n, lambda i: x.f(x.n - 1 - i))
    return builtins.reversed(x)


def v_abs(x):
    return abs(x)


def v_all(x):
    if isinstance(x, A):
        return x.all()
    if isinstance(x, SymList):
        raise Unsupported("all() of a symbolic list")
    return builtins.all(x)


def v_any(x):
    if isinstance(x, A):
        return x.any()
    if isinstance(x, SymList):
        raise Unsupported("any() of a symbolic list")
    return builtins.any(x)


def v_listcomp(f, it):
    if isinstance(it, A) and not isinstance(it.shape[0], int):
        x = it
        it = SymList(x.shape[0], lambda i: x[i])
    if isinstance(it, SymList):
        n = it.n
        cache = {}

        def g(i):
            k = ip(i)
            return f(it.f(i))
        return SymList(n, g)
    return [f(x) for x in it]


def v_genexp(f, it):
    if isinstance(it, A) and not isinstance(it.shape[0], int):
        return v_listcomp(f, it)
    if isinstance(it, SymList):
        return v_listcomp(f, it)
    return (f(x) for x in it)


CALLS = {"int": v_int, "float": v_float, "bool": v_bool, "list": v_list, "tuple": v_tuple, "range": v_range,
         "enumerate": v_enumerate, "zip": v_zip, "len": v_len, "isinstance": v_isinstance, "sum": v_sum,
         "max": v_max, "min": v_min, "abs": v_abs, "all": v_all, "any": v_any, "reversed": v_reversed}


# ==================================================================== numpy
NP = {}


def npf(*names, real=None):
    def deco(f):
        for n in names:
            r = real
            if r is None:
                r = np
                for part in n.split("."):
                    r = getattr(r, part)
            NP[n] = sym(r)(f)
        return f
    return deco


def npraw(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def normshape(s):
    if isinstance(s, (int, SI, np.integer)):
        return (s,)
    if isinstance(s, A):
        return tuple(s)
    return tuple(s)


def dkind(dt, default="f"):
    if dt is None:
        return default
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "o"}[np.dtype(dt).kind]


_un = itertools.count()


def creation(val):
    def f(shape, dtype=None, order="C", **k):
        shape = normshape(shape)
        if all(isinstance(d, (int, np.integer)) for d in shape) and any(d < 0 for d in shape):
            raise ValueError("negative dimensions are not allowed")
        for d in shape:
            if isinstance(d, SI) and d < 0:
                raise ValueError("negative dimensions are not allowed")
        kind = dkind(dtype)
        if kind == "b":
            v = bool(val)
            return A(shape, lambda i: v, "b")
        if kind == "o":
            return np.empty(shape, dtype=object)
        if val is None:
            return uninit(shape, kind)
        t = T.const(val)
        return A(shape, lambda i: t, kind)
    return f


def uninit(shape, kind="f"):
    n = f"uninit{next(_un)}"
    return A(shape, lambda idx: T.arr(n, idx), kind)


NP["zeros"] = creation(0)
NP["ones"] = creation(1)
NP["empty"] = creation(None)


def _like(maker):
    def f(x, dtype=None, shape=None, **k):
        x = asarr(x)
        if dtype is None:
            dtype = x.dtype
        return maker(x.shape if shape is None else shape, dtype)
    return f


NP["zeros_like"] = _like(NP["zeros"])
NP["ones_like"] = _like(NP["ones"])
NP["empty_like"] = _like(NP["empty"])


@npraw("result_type")
def np_result_type(*xs):
    return np.result_type(*[(x.dtype if isinstance(x, A) else np.dtype(int) if isinstance(x, SI) else
                             np.dtype(float) if isinstance(x, SR) else x) for x in xs])


@npraw("full")
def np_full(shape, v, dtype=None, **k):
    shape = normshape(shape)
    kind = dkind(dtype, kind_of(v) if not isinstance(v, A) else v.kind)
    out = uninit(shape, kind)
    out[...] = v
    return out


@npraw("full_like")
def np_full_like(x, v, dtype=None, **k):
    x = asarr(x)
    return np_full(x.shape, v, x.dtype if dtype is None else dtype)


@npraw("eye", "identity")
def np_eye(n, M=None, k=0, dtype=float, **kw):
    m = n if M is None else M
    if isinstance(k, SI):
        raise Unsupported("eye offset")
    return A((n, m), lambda i: T.ite([("eq", i[1] - i[0] - IP.const(k))], lambda: T.UNIT, lambda: T.ZERO),
             dkind(dtype))


@npf("array")
def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = asarr(x)
    r = r.copy() if copy else r
    if ndmin > r.ndim:
        r = index(r, (None,) * (ndmin - r.ndim) + (Ellipsis,))
    return r.astype(dtype) if dtype is not None else r


@npf("asarray", "asanyarray", "ascontiguousarray")
def np_asarray(x, dtype=None, **k):
    r = asarr(x)
    if dtype is not None and dkind(dtype) != r.kind:
        return r.astype(dtype)
    return r


@npf("copy")
def np_copy(x, **k):
    return asarr(x).copy()


@npf("atleast_1d")
def np_atleast_1d(*xs):
    out = []
    for x in xs:
        x = asarr(x)
        out.append(reshape(x, (1,)) if x.ndim == 0 else x)
    return out[0] if len(out) == 1 else tuple(out)


@npf("atleast_2d")
def np_atleast_2d(*xs):
    out = []
    for x in xs:
        x = asarr(x)
        if x.ndim == 0:
            x = reshape(x, (1, 1))
        elif x.ndim == 1:
            x = index(x, (None, slice(None)))
        out.append(x)
    return out[0] if len(out) == 1 else tuple(out)


@npf("shape")
def np_shape(x):
    if isinstance(x, (SI, SR, SB)):
        return ()
    return asarr(x).shape


@npf("ndim")
def np_ndim(x):
    if isinstance(x, (SI, SR, SB)):
        return 0
    return asarr(x).ndim


@npf("size")
def np_size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


@npf("isscalar")
def np_isscalar(x):
    return isinstance(x, (SI, SR, SB))


@npf("reshape")
def np_reshape(x, shape=None, order="C", **k):
    return asarr(x).reshape(k.get("newshape", shape), order=order)


@npf("ravel")
def np_ravel(x, order="C"):
    return asarr(x).ravel(order)


@npf("transpose")
def np_transpose(x, axes=None):
    return asarr(x).transpose(*([] if axes is None else [axes]))


@npf("swapaxes")
def np_swapaxes(x, a, b):
    return asarr(x).swapaxes(a, b)


@npf("moveaxis")
def np_moveaxis(x, a, b):
    x = asarr(x)
    ax = [k for k in range(x.ndim) if k != a % x.ndim]
    ax.insert(b % x.ndim, a % x.ndim)
    return x.transpose(*ax)


@npf("squeeze")
def np_squeeze(x, axis=None):
    return asarr(x).squeeze(axis)


@npf("expand_dims")
def np_expand_dims(x, axis):
    x = asarr(x)
    axis = axis % (x.ndim + 1)
    return index(x, (slice(None),) * axis + (None, Ellipsis))


@npf("broadcast_to")
def np_broadcast_to(x, shape):
    x = asarr(x)
    shape = normshape(shape)
    check_same_shape(shape, x.shape)
    return A(shape, bget(x, shape), x.kind, bstruct(shape, x))


for _n, _o in [("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"),
               ("true_divide", "div"), ("power", "pow"), ("maximum", "maximum"), ("minimum", "minimum"),
               ("float_power", "pow")]:
    def _mkop(o, n):
        real = getattr(np, n)

        def f(a, b, out=None, **k):
            if not (deep_sym(a) or deep_sym(b) or deep_sym(out)):
                return real(a, b, **({"out": out} if out is not None else {}))
            r = ew2(o, a, b)
            if out is not None:
                out[...] = r
                return out
            return r
        f.outer = lambda a, b: ew2(o, asarr(a).ravel()[:, None], asarr(b).ravel()[None, :])
        return f
    NP[_n] = _mkop(_o, _n)

for _n, _o in [("equal", "eq"), ("not_equal", "ne"), ("less", "lt"), ("less_equal", "le"),
               ("greater", "gt"), ("greater_equal", "ge")]:
    def _mkc(o, n):
        return sym(getattr(np, n))(lambda a, b, **k: ewcmp(o, a, b))
    NP[_n] = _mkc(_o, _n)

for _n in ["sqrt", "abs", "exp", "log", "sin", "cos", "tan", "log10", "tanh", "expm1", "log1p"]:
    def _mk1(n):
        def f(x, out=None, **k):
            if isinstance(x, (SI,)):
                x = core._real(x)
            if isinstance(x, (list, tuple)):
                x = asarr(x)
            if isinstance(x, A) and x.kind == "i" and n == "abs":
                return ew1(lambda p: fn1(n, p), x)
            r = ew1(lambda p: fn1(n, p), x, "f" if isinstance(x, A) else None)
            if out is not None:
                out[...] = r
                return out
            return r
        return sym(getattr(np, n))(f)
    NP[_n] = _mk1(_n)
NP["absolute"] = NP["fabs"] = NP["abs"]


@npf("square")
def np_square(x):
    return ew1(lambda p: p * p, asarr(x) if isinstance(x, (list, tuple)) else x)


@npf("reciprocal")
def np_recip(x):
    return 1 / x


@npf("negative")
def np_neg(x):
    return -x


@npf("conj", "conjugate", "real")
def np_conj(x):
    return x


@npf("sign")
def np_sign(x):
    if not isinstance(x, (A, SR)):
        return np.sign(x)
    return ew1(T.fn_sign, x) if isinstance(x, A) else SR(T.fn_sign(x.t))


@npf("isnan", "isinf")
def np_isnan(x, **k):
    if isinstance(x, A):
        return A(x.shape, lambda i: False, "b")
    return False


@npf("isfinite")
def np_isfinite(x, **k):
    if isinstance(x, A):
        return A(x.shape, lambda i: True, "b")
    return True


def redf(op):
    def f(x, axis=None, keepdims=False, ddof=0, out=None, initial=None, **k):
        if isinstance(x, (SI, SR)):
            return x
        if k.get("dtype") or out is not None or initial is not None:
            raise Unsupported(f"{op} options")
        return reduce_(op, x, axis, bool(keepdims), ddof)
    return f


for _n in ["sum", "mean", "std", "var", "max", "min", "prod"]:
    NP[_n] = sym(getattr(np, _n))(redf(_n))
NP["amax"], NP["amin"] = NP["max"], NP["min"]


@npf("average")
def np_average(x, axis=None, weights=None):
    if weights is not None:
        raise Unsupported("average weights")
    return reduce_("mean", x, axis)


@npf("any")
def np_any(x, axis=None, **k):
    if isinstance(x, SB):
        return x
    return quant(asarr(x) if isinstance(x, (list, tuple)) else x, "any", axis)


@npf("all")
def np_all(x, axis=None, **k):
    if isinstance(x, SB):
        return x
    if isinstance(x, (list, tuple)):
        for y in x:
            if not np_all(y):
                return False
        return True
    return quant(x, "all", axis)


@npf("logical_and")
def np_land(a, b):
    return ewbool(z3.And, a, b)


@npf("logical_or")
def np_lor(a, b):
    return ewbool(z3.Or, a, b)


@npf("logical_not")
def np_lnot(a):
    return ~a


@npf("allclose")
def np_allclose(a, b, *x, **k):
    a, b = asarr(a), asarr(b)
    shape = bshape(a.shape, b.shape)
    return arrays_equal_bool(shape, bget(a, shape), bget(b, shape), "allclose")


@npf("array_equal")
def np_array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape, b.shape):
        if not dims_equal(p, q):
            return False
    return arrays_equal_bool(a.shape, bget(a, a.shape), bget(b, a.shape), "all_eq")


@npf("isclose")
def np_isclose(a, b, *x, **k):
    d = ew2("sub", a, b)
    if isinstance(d, SR):
        if T.is_zero(d.t).ok:
            return True
        return SB(z3.Bool("isclose:" + d.t.skey()))
    f = d.snap()

    def g(i):
        t = f(i)
        if T.is_zero(t).ok:
            return True
        return z3.Bool("isclose:" + t.skey())
    return A(d.shape, g, "b")


def mono_count(x):
    r = getattr(x, "mono", 0)
    if r == 0:
        r = x.mono = mono_count_(x)
    return r


def mono_mask(x):
    """slice equivalent to indexing with the monotone Boolean array x"""
    r = mono_count(x)
    if r is None:
        return None
    return slice(None, r[0]) if r[1] else slice(r[0], None)


def mono_count_(x):
    """For a comparison x(i) monotone in i on range(n): (c, True) if x is true exactly for i < c,
    (c, False) if exactly for i >= c; None if monotonicity is not proved.
    Contract: 0 <= c <= n, the predicate changes between c - 1 and c."""
    cmp = getattr(x, "cmp", None)
    if cmp is None or x.ndim != 1 or cmp[0] not in ("lt", "le", "gt", "ge"):
        return None
    op, fa, fb = cmp
    sg = 1 if op in ("gt", "ge") else -1
    op = {"lt": "gt", "le": "ge"}.get(op, op)
    d = lambda i: (fa((i,)) - fb((i,))).scale(sg)
    n = x.shape[0]
    if isinstance(n, int) and n == 1:
        z = T.real_cmp(d(IP.const(0)), op)
        b = z if isinstance(z, bool) else PATH.branch(z)
        return (1, True) if b else (0, True)
    v = T.fresh()
    st = PATH.push_soft()
    try:
        PATH.assume(z3.And(core.zvar(v) >= 0, core.zvar(v) < ip(n).z() - 1))
        i = IP.var(v)
        try:
            D = d(i) - d(i + IP.const(1))
            if T.prove_nonneg(D):
                prefix = True
            elif T.prove_nonneg(-D):
                prefix = False
            else:
                return None
        except Unsupported:
            return None
    finally:
        PATH.pop_soft(st)
    use("the number of elements satisfying a monotone predicate is the position where it changes")
    k = PATH.choose(3, "count")
    if k == 0:
        f = T.real_cmp(d(IP.const(0)), op)           # none of the first kind
        PATH.assume(core.zb_(znot_(f) if prefix else f))
        return 0, prefix
    if k == 1:
        f = T.real_cmp(d(ip(n) - IP.const(1)), op)
        PATH.assume(core.zb_(f if prefix else znot_(f)))
        return n, prefix
    c = PATH.fresh("cnt")
    PATH.assume(z3.And(core.zvar(c) >= 1, core.zvar(c) < ip(n).z()))
    PATH.dims[c] = 1
    lo, hi = T.real_cmp(d(IP.var(c) - IP.const(1)), op), T.real_cmp(d(IP.var(c)), op)
    PATH.assume(core.zb_(lo if prefix else znot_(lo)))
    PATH.assume(core.zb_(znot_(hi) if prefix else hi))
    return mk(IP.var(c)), prefix


def znot_(z):
    return (not z) if isinstance(z, bool) else z3.Not(z)


@npf("searchsorted")
def np_searchsorted(a, v, side="left", **k):
    a = asarr(a)
    if getattr(v, "ndim", 0):
        raise Unsupported("searchsorted of an array")
    r = mono_count(arrays.ewcmp("lt" if side == "left" else "le", a, v))
    if r is None or not r[1]:
        if r is not None and (r[0] is a.shape[0] or not isinstance(a.shape[0], int)):
            pass
        raise Unsupported("searchsorted in an array not known to be ascending")
    return r[0]


@npf("count_nonzero")
def np_count_nonzero(x, axis=None, **k):
    x = asarr(x)
    if axis is not None or x.ndim != 1:
        raise Unsupported("count_nonzero")
    n = x.shape[0]
    if isinstance(n, int):
        c = 0
        for i in range(n):
            if x[i]:
                c += 1
        return c
    mono = mono_count(x)
    if mono is not None:
        c, prefix = mono
        return c if prefix else mk(ip(n) - ip(c))
    # opaque count in [0, n], keyed by the predicate
    i = T.fresh()
    st = PATH.push()
    try:
        PATH.assume(core.inrange(i, n))
        z = x.get((IP.var(i),))
        if x.kind != "b":
            if T.is_positive(z) or T.is_positive(-z):
                return n
            raise Unsupported("count_nonzero of reals")
        kz = str(z).replace(i, "*")
        if PATH.entails(core.zb_(z)):
            return n
    finally:
        PATH.pop(st)
    key = ("count", kz, PATH.norm(ip(n)).key)
    v = PATH.memo.get(key)
    if v is None:
        v = PATH.fresh("cnt")
        PATH.memo[key] = v
        PATH.assume(z3.And(core.zvar(v) >= 0, core.zvar(v) <= ip(n).z()))
    return mk(IP.var(v))


@npf("arange")
def np_arange(*a, dtype=None, **k):
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[:2]
        st = a[2] if len(a) > 2 else k.get("step", 1)
    if not all(isinstance(v, (int, SI, np.integer)) for v in (lo, hi, st)) or isinstance(st, SI):
        raise Unsupported("arange of reals")
    r = v_range(lo, hi, st)
    n = v_len(r)
    return A((n,), lambda i: T.from_int(ip(lo) + i[0].scale(Fraction(int(st)))), dkind(dtype, "i"))


@npf("linspace")
def np_linspace(a, b, num=50, endpoint=True, **k):
    if k.get("retstep"):
        raise Unsupported("linspace retstep")
    if num == 1:
        return A((1,), lambda i: po(a), "f")
    d = po(b) - po(a)
    n = ip(num) - IP.const(1) if endpoint else ip(num)
    return A((num,), lambda i: po(a) + d * T.from_int(i[0]) * T.pw(T.from_int(n), -1), "f")


# ------------------------------------------------------------- joining
def concat(parts, axis=0):
    if isinstance(parts, SymList):
        return concat_sym(parts, axis)
    parts = [asarr(p) for p in parts]
    if not parts:
        raise ValueError("need at least one array to concatenate")
    nd = parts[0].ndim
    for p in parts:
        if p.ndim == 0:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
        if p.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if axis is None:
        parts = [p.ravel() for p in parts]
        axis, nd = 0, 1
    axis = axis % nd
    shp = list(parts[0].shape)
    for p in parts[1:]:
        for k in range(nd):
            if k != axis and not dims_equal(shp[k], p.shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    parts = [p for p in parts if not (isinstance(p.shape[axis], int) and p.shape[axis] == 0)] or parts[:1]
    tot = IP.const(0)
    offs = []
    for p in parts:
        offs.append(tot)
        tot = tot + ip(p.shape[axis])
    shp[axis] = mk(tot)
    fs = [p.snap() for p in parts]
    kind = join_kind([p.kind for p in parts])
    struct = {}
    for k in range(nd):
        if k != axis:
            for p in parts:
                if k in p.struct:
                    struct[k] = p.struct[k]
                    break
    if len(parts) == 1:
        return A(shp, fs[0], kind, dict(parts[0].struct))
    if kind == "b":
        raise Unsupported("concatenation of Boolean arrays")
    struct[axis] = Cat([ip(p.shape[axis]) for p in parts], [p.struct.get(axis) for p in parts])

    def f(idx):
        i = idx[axis]
        c, j = struct_cat.decode(i)
        if c is not None:
            return fs[c](idx[:axis] + (j,) + idx[axis + 1:])

        def rec(k):
            if k == len(fs) - 1:
                return fs[k](idx[:axis] + (PATH.norm(i - offs[k]),) + idx[axis + 1:])
            return T.ite([("ge", offs[k + 1] - i - IP.const(1))],
                         lambda: fs[k](idx[:axis] + (PATH.norm(i - offs[k]),) + idx[axis + 1:]),
                         lambda: rec(k + 1))
        return rec(0)
    struct_cat = struct[axis]
    return A(shp, memo(f), kind, struct)


class Cat:
    """concatenation of finitely many pieces"""

    def __init__(self, lens, structs):
        self.lens = lens
        self.structs = structs
        self.offs = [IP.const(0)]
        for n in lens:
            self.offs.append(self.offs[-1] + n)

    def key(self):
        return ("cat",) + tuple((PATH.norm(n), s.key() if s else None) for n, s in zip(self.lens, self.structs))

    def size(self):
        return self.offs[-1]

    def psum(self, f):
        out = T.ZERO
        for c, (n, s) in enumerate(zip(self.lens, self.structs)):
            out = out + arrays.axis_sum(n, s, lambda j, c=c: f(self._reg(c, j)))
        return out

    def _reg(self, c, j):
        p = PATH.norm(self.offs[c] + j)
        PATH.memo[("cat", self.key(), p)] = (c, j)
        return p

    def skolem(self, tag):
        live = [c for c in range(len(self.lens)) if PATH.feasible(cmp0(self.lens[c], "gt"))]
        if not live:
            raise core.PathEnd("empty axis")
        if PATH.scopes:
            raise Unsupported("piecewise axis inside a quantifier")
        c = live[PATH.choose(len(live), "piece")]
        j = arrays.axis_skolem(self.lens[c], self.structs[c], tag + str(c))
        return self._reg(c, j)

    def decode(self, p):
        p = PATH.norm(p)
        r = PATH.memo.get(("cat", self.key(), p))
        if r:
            return r
        for c in range(len(self.lens)):
            lo, hi = p - self.offs[c], self.offs[c + 1] - p - IP.const(1)
            if PATH.entails(cmp0(lo, "ge")) and PATH.entails(cmp0(hi, "ge")):
                return c, PATH.norm(lo)
        return None, None


def concat_sym(parts, axis):
    """concatenation of a symbolic number of pieces"""
    n = ip(parts.n)
    st = PATH.push()
    try:
        v = PATH.fresh("s")
        PATH.assume(core.inrange(v, n))
        e = asarr(parts.f(SI(IP.var(v))))
        nd = e.ndim
        if nd == 0:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
        ax = axis % nd
        ell = ip(e.shape[ax])
        shp = list(e.shape)
        kind = e.kind
        for k in range(nd):
            if k != ax and isinstance(shp[k], SI) and v in shp[k].p.vars():
                raise ValueError("concatenation: dimensions must match")
        inner0 = e.struct.get(ax)
    finally:
        PATH.pop(st)
    inner = None
    if inner0 is not None:
        inner = lambda i: asarr(parts.f(mk(i))).struct.get(ax)
    if v in ell.vars():
        s = Ragged(n, ell, v, inner)
    else:
        s = Ragged(n, ell, v, inner)
    shp[ax] = mk(s.size())

    def f(idx):
        i, j = s.decode(PATH.norm(idx[ax]))
        return asarr(parts.f(mk(i))).get(idx[:ax] + (j,) + idx[ax + 1:])
    return A(shp, memo(f), kind, {ax: s})


@npf("concatenate", "concat")
def np_concatenate(parts, axis=0, **k):
    return concat(parts, axis)


@npf("hstack")
def np_hstack(parts, **k):
    if isinstance(parts, SymList):
        raise Unsupported("hstack of a symbolic list")
    parts = [np_atleast_1d(p) for p in parts]
    return concat(parts, 0 if parts[0].ndim == 1 else 1)


@npf("vstack")
def np_vstack(parts, **k):
    if isinstance(parts, SymList):
        return concat_sym(v_listcomp(np_atleast_2d, parts), 0)
    return concat([np_atleast_2d(p) for p in parts], 0)


@npf("column_stack")
def np_column_stack(parts):
    if isinstance(parts, SymList):
        return asarr(parts).T
    out = []
    for p in parts:
        p = asarr(p)
        out.append(p if p.ndim == 2 else index(np_atleast_1d(p), (slice(None), None)))
    return concat(out, 1)


@npf("stack")
def np_stack(parts, axis=0, **k):
    r = asarr(parts)
    if axis:
        axis = axis % r.ndim
        ax = list(range(1, r.ndim))
        ax.insert(axis, 0)
        r = r.transpose(*ax)
    return r


@npf("append")
def np_append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None:
        return concat([a.ravel(), b.ravel() if b.ndim else reshape(b, (1,))], 0)
    return concat([a, b], axis)


@npf("block")
def np_block(x):
    if all(isinstance(r, list) for r in x):
        return concat([concat([np_atleast_2d(c) for c in r], 1) for r in x], 0)
    return np_hstack(x)


@npf("split", "array_split")
def np_split(x, where, axis=0):
    x = asarr(x)
    axis = axis % x.ndim
    n = x.shape[axis]
    if isinstance(where, (A, np.ndarray)):
        where = list(where)
    if isinstance(where, (list, tuple)):
        cuts = [0] + list(where) + [n]
    else:
        q = n // where
        if not surely_eq(q * where, n):
            if not dims_equal(q * where, n):
                raise ValueError("array split does not result in an equal division")
        if isinstance(where, SI):
            sel = x.sel or [("ax", k, IP.const(0), 1) for k in range(x.ndim)]
            shape = x.shape[:axis] + (q,) + x.shape[axis + 1:]

            def piece(i):
                return A(shape, None, x.kind, {k: st for k, st in x.struct.items() if k != axis}, store=x.store, sel=[
                    ("ax", axis, s[2] + (ip(q) * ip(i)).scale(Fraction(s[3])), s[3])
                    if s[0] == "ax" and s[1] == axis else s for s in sel])
            return SymList(where, piece)
        cuts = [q * i for i in range(where)] + [n]
    out = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        out.append(index(x, (slice(None),) * axis + (slice(a, b), Ellipsis)))
    st = x.struct.get(axis)
    if isinstance(st, Cat) and len(st.lens) == len(out):
        for p, s, ln in zip(out, st.structs, st.lens):
            if s is not None and surely_eq(mk(ln), p.shape[axis]):
                p.struct[axis] = s
    return out


@npf("vsplit")
def np_vsplit(x, where):
    return np_split(x, where, 0)


@npf("hsplit")
def np_hsplit(x, where):
    x = asarr(x)
    return np_split(x, where, 1 if x.ndim > 1 else 0)


@npf("repeat")
def np_repeat(x, n, axis=None):
    x = asarr(x)
    if axis is None:
        x = x.ravel() if x.ndim else reshape(x, (1,))
        axis = 0
    if not isinstance(n, (int, SI)):
        raise Unsupported("repeat counts")
    y = index(x, (slice(None),) * (axis + 1) + (None, Ellipsis))
    shp = list(y.shape)
    shp[axis + 1] = n
    y = A(shp, bget(y, tuple(shp)), y.kind)
    s2 = list(x.shape)
    s2[axis] = s2[axis] * n
    return reshape(y, s2)


@npf("tile")
def np_tile(x, reps):
    x = asarr(x)
    if isinstance(reps, (int, SI)):
        reps = (reps,)
    reps = tuple(reps)
    n = max(len(reps), x.ndim)
    reps = (1,) * (n - len(reps)) + reps
    if x.ndim < n:
        x = index(x, (None,) * (n - x.ndim) + (Ellipsis,))
    shp, src, fin = [], [], []
    key = []
    for d, r in zip(x.shape, reps):
        if isinstance(d, int) and d == 1:
            shp.append(r)
            fin.append(r)
            key.append(slice(None))
        elif isinstance(r, int) and r == 1:
            shp.append(d)
            fin.append(d)
            key.append(slice(None))
        else:
            shp += [r, d]
            fin.append(r * d)
            key += [None, slice(None)]
    y = index(x, tuple(key))
    y = A(shp, bget(y, tuple(shp)), y.kind)
    return reshape(y, fin)


@npf("roll")
def np_roll(x, k, axis=None):
    raise Unsupported("roll")


@npf("flipud")
def np_flipud(x):
    return np_flip(x, 0)


@npf("flip")
def np_flip(x, axis=None):
    x = asarr(x)
    if axis is None:
        return index(x, (slice(None, None, -1),) * x.ndim)
    return index(x, (slice(None),) * (axis % x.ndim) + (slice(None, None, -1),))


@npf("fliplr")
def np_fliplr(x):
    return np_flip(x, 1)


@npf("diag")
def np_diag(x, k=0):
    x = asarr(x)
    if k != 0:
        raise Unsupported("diag offset")
    f = x.snap()
    if x.ndim == 1:
        return A((x.shape[0], x.shape[0]), lambda i: T.ite([("eq", i[0] - i[1])], lambda: f((i[0],)), lambda: T.ZERO),
                 x.kind, {k_: s for k_, s in ((0, x.struct.get(0)), (1, x.struct.get(0))) if s})
    if not dims_equal(x.shape[0], x.shape[1]):
        raise Unsupported("diag of a rectangular matrix")
    return A((x.shape[0],), lambda i: f((i[0], i[0])), x.kind)


@npf("diagonal")
def np_diagonal(x):
    return np_diag(x)


@npf("trace")
def np_trace(x):
    return np_diag(x).sum()


def diagm(x):
    return np_diag(x)


def triu_(lower):
    def f(x, k=0):
        x = asarr(x)
        g = x.snap()
        if x.ndim != 2:
            raise Unsupported("triu")
        kk = IP.const(k)

        def h(i):
            d = (i[0] - i[1] + kk) if lower else (i[1] - i[0] - kk)
            return T.ite([("ge", d)], lambda: g(i), lambda: T.ZERO)
        return A(x.shape, h, x.kind)
    return f


NP["triu"] = sym(np.triu)(triu_(False))
NP["tril"] = sym(np.tril)(triu_(True))


@npf("kron")
def np_kron(a, b):
    a, b = asarr(a), asarr(b)
    nd = max(a.ndim, b.ndim)
    if a.ndim < nd:
        a = index(a, (None,) * (nd - a.ndim) + (Ellipsis,))
    if b.ndim < nd:
        b = index(b, (None,) * (nd - b.ndim) + (Ellipsis,))
    fa, fb = a.snap(), b.snap()
    shp = [p * q for p, q in zip(a.shape, b.shape)]
    pr = [Prod(ip(p), ip(q), a.struct.get(k), b.struct.get(k)) for k, (p, q) in enumerate(zip(a.shape, b.shape))]

    def f(idx):
        ia, ib = [], []
        for s, i in zip(pr, idx):
            p, q = s.decode(PATH.norm(i))
            ia.append(p)
            ib.append(q)
        return fa(tuple(ia)) * fb(tuple(ib))
    struct = {}
    for k, s in enumerate(pr):
        one = lambda z: PATH.norm(z).isconst() and PATH.norm(z).cval() == 1
        if one(s.n1):
            if s.s2:
                struct[k] = s.s2
        elif one(s.n2):
            if s.s1:
                struct[k] = s.s1
        else:
            struct[k] = s
    return A(shp, memo(f), join_kind([a.kind, b.kind]), struct)


@npf("outer")
def np_outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return ew2("mul", a[:, None], b[None, :])


def khatri_rao(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise ValueError("The both arrays should be 2-dimensional.")
    if not dims_equal(a.shape[1], b.shape[1]):
        raise ValueError("The number of columns for both arrays should be equal.")
    fa, fb = a.snap(), b.snap()
    s = Prod(ip(a.shape[0]), ip(b.shape[0]), a.struct.get(0), b.struct.get(0))

    def f(idx):
        i, j = s.decode(PATH.norm(idx[0]))
        return fa((i, idx[1])) * fb((j, idx[1]))
    struct = {0: s}
    if 1 in a.struct or 1 in b.struct:
        struct[1] = a.struct.get(1) or b.struct.get(1)
    return A((a.shape[0] * b.shape[0], a.shape[1]), memo(f), join_kind([a.kind, b.kind]), struct)


@npf("dot", "matmul")
def np_dot(a, b, out=None):
    if isinstance(a, A) and a.ndim == 0 or isinstance(b, A) and b.ndim == 0 or isnum(a) or isnum(b):
        return a * b
    return matmul(a, b)


@npf("inner")
def np_inner(a, b):
    return matmul(asarr(a), asarr(b).T)


@npf("vdot")
def np_vdot(a, b):
    return matmul(asarr(a).ravel(), asarr(b).ravel())


@npf("tensordot")
def np_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if axes == 1:
        return matmul(a, b) if a.ndim <= 2 and b.ndim <= 2 else tdot1(a, b)
    raise Unsupported("tensordot")


def tdot1(a, b):
    ea = "abcdefg"[:a.ndim]
    eb = ea[-1] + "hijklm"[:b.ndim - 1]
    return einsum(f"{ea},{eb}->{ea[:-1]}{eb[1:]}", a, b)


@npf("einsum")
def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    if "->" not in spec:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims, structs = {}, {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for i, c in enumerate(s):
            if c in dims:
                if not dims_equal(dims[c], o.shape[i]):
                    raise ValueError("operands could not be broadcast together in einsum")
            dims[c] = o.shape[i]
            if i in o.struct:
                structs[c] = o.struct[i]
    summed = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]

    def f(idx):
        env = dict(zip(out, idx))

        def rec(t):
            if t == len(summed):
                r = T.UNIT
                for s, g in zip(ins, fs):
                    r = r * g(tuple(env[c] for c in s))
                return r
            c = summed[t]

            def body(v):
                env[c] = v
                return rec(t + 1)
            return arrays.axis_sum(ip(dims[c]), structs.get(c), body)
        return rec(0)
    if not out:
        return SR(f(()))
    return A([dims[c] for c in out], memo(f), join_kind([o.kind for o in ops]),
             {i: structs[c] for i, c in enumerate(out) if c in structs})


@npf("vander")
def np_vander(x, N=None, increasing=False):
    x = asarr(x)
    n = x.shape[0] if N is None else N
    if isinstance(n, SI):
        raise Unsupported("vander of symbolic size")
    f = x.snap()
    cols = [(i if increasing else n - 1 - i) for i in range(n)]
    fs = [(lambda idx, e=e: T.pw(f((idx[0],)), e) if e else T.UNIT) for e in cols]
    return A((x.shape[0], n), memo(lambda idx: pick(fs, idx[1], (idx[0],))), x.kind)


@npf("cumsum")
def np_cumsum(x, axis=None, **k):
    if isinstance(x, (list, tuple)):
        out, acc = [], 0
        for y in x:
            acc = acc + y
            out.append(acc)
        return asarr(out)
    x = asarr(x)
    if x.ndim == 1 and isinstance(x.shape[0], int):
        out, acc = [], 0
        for i in range(x.shape[0]):
            acc = acc + x[i]
            out.append(acc)
        return asarr(out)
    if axis is not None and x.ndim == 1:
        axis = None
    return x.cumsum(axis)


@npf("diff")
def np_diff(x, n=1, axis=-1, **k):
    x = asarr(x)
    if n != 1:
        raise Unsupported("diff order")
    axis = axis % x.ndim
    pre = (slice(None),) * axis
    return index(x, pre + (slice(1, None),)) - index(x, pre + (slice(None, -1),))


@npf("clip")
def np_clip(x, lo, hi):
    if lo is not None:
        x = ew2("maximum", x, lo)
    if hi is not None:
        x = ew2("minimum", x, hi)
    return x


@npf("where")
def np_where(c, *ab):
    if not ab:
        raise Unsupported("where indices")
    a, b = ab
    if isinstance(c, SB):
        return a if c else b
    c = asarr(c)
    shape = bshape(c.shape, asarr(a).shape, asarr(b).shape)
    fa, fb = bget(asarr(a), shape), bget(asarr(b), shape)
    fc = c.snap()
    off = len(shape) - c.ndim

    def f(idx):
        z = fc(tuple(IP.const(0) if isinstance(d, int) and d == 1 else idx[k + off] for k, d in enumerate(c.shape)))
        if isinstance(z, bool):
            return fa(idx) if z else fb(idx)
        if PATH.entails(z):
            return fa(idx)
        if PATH.entails(z3.Not(z)):
            return fb(idx)
        raise Unsupported("elementwise selection by an undetermined condition")
    return A(shape, f, join_kind([kind_of(asarr(a)), kind_of(asarr(b))]))


@npf("sort")
def np_sort(x, axis=-1, **k):
    x = asarr(x)
    if isinstance(x.shape[axis], int) and x.ndim == 1 and x.shape[0] <= 4:
        xs = [x[i] for i in range(x.shape[0])]
        return asarr(sorted(xs, key=_ck()))
    if x.ndim == 1:
        f = x.snap()
        n = x.shape[0]
        v = T.fresh()
        st = PATH.push_soft()
        try:
            PATH.assume(z3.And(core.zvar(v) >= 0, core.zvar(v) < ip(n).z() - 1))
            D = f((IP.var(v),)) - f((IP.var(v) + IP.const(1),))
            desc = T.prove_nonneg(D)
            asc = not desc and T.prove_nonneg(-D)
        finally:
            PATH.pop_soft(st)
        if desc:
            return index(x, (slice(None, None, -1),)).copy()
        if asc:
            return x.copy()
    raise Unsupported("sort")


def _ck():
    import functools

    def c(a, b):
        if a < b:
            return -1
        if a > b:
            return 1
        return 0
    return functools.cmp_to_key(c)


@npf("argsort")
def np_argsort(x, axis=-1, **k):
    x = asarr(x)
    if x.ndim == 1 and isinstance(x.shape[0], int) and x.shape[0] <= 4:
        xs = [(x[i], i) for i in range(x.shape[0])]
        ck = _ck()
        xs = sorted(xs, key=lambda p: ck(p[0]))
        return np.array([i for _, i in xs], dtype=int)
    raise Unsupported("argsort")


@npf("argmin")
def np_argmin(x, **k):
    x = asarr(x)
    if x.ndim == 1 and isinstance(x.shape[0], int):
        b = 0
        for i in range(1, x.shape[0]):
            if x[i] < x[b]:
                b = i
        return b
    raise Unsupported("argmin")


@npf("argmax")
def np_argmax(x, **k):
    x = asarr(x)
    if x.ndim == 1 and isinstance(x.shape[0], int):
        b = 0
        for i in range(1, x.shape[0]):
            if x[i] > x[b]:
                b = i
        return b
    raise Unsupported("argmax")


@npf("gradient")
def np_gradient(f, *ts, axis=None, edge_order=1):
    """second-order differences on a given grid (numpy's documented formulas)"""
    f = asarr(f)
    if axis is None and f.ndim == 1:
        axis = 0
    if axis is None or not isinstance(axis, int) or len(ts) > 1 or edge_order != 2:
        raise Unsupported("np.gradient with these options")
    axis = axis % f.ndim
    k = f.shape[axis]
    if not k >= 3:
        raise ValueError("Shape of array too small to calculate a numerical gradient, "
                         "at least (edge_order + 1) elements are required.")
    t = ts[0] if ts else 1
    if isinstance(t, (A, np.ndarray)) and t.ndim:
        t = asarr(t)
        if t.ndim != 1:
            raise ValueError("distances must be either scalars or 1d")
        if not dims_equal(t.shape[0], k):
            raise ValueError("when 1d, distances must match the length of the corresponding dimension")
        dx = np_diff(t)
    else:
        dx = asarr(t) * NP["ones"](k - 1)
    use("gradient: three-point formulas on a nonuniform grid")
    pre = (slice(None),) * axis
    at = lambda lo, hi: index(f, pre + (slice(lo, hi),))
    d = lambda lo, hi: index(dx, (slice(lo, hi),))
    sh = lambda c: c.reshape((-1,) + (1,) * (f.ndim - 1 - axis))
    h, g = d(None, -1), d(1, None)
    mid = at(None, -2) * sh(-g / (h * (h + g))) + at(1, -1) * sh((g - h) / (h * g)) + at(2, None) * sh(h / (g * (h + g)))
    h, g = d(0, 1), d(1, 2)
    first = at(0, 1) * sh(-(2 * h + g) / (h * (h + g))) + at(1, 2) * sh((h + g) / (h * g)) + \
        at(2, 3) * sh(-h / (g * (h + g)))
    h, g = d(-2, -1), d(-1, None)
    last = at(-3, -2) * sh(g / (h * (h + g))) + at(-2, -1) * sh(-(h + g) / (h * g)) + \
        at(-1, None) * sh((2 * g + h) / (g * (h + g)))
    return NP["concatenate"]([first, mid, last], axis=axis)


@npf("einsum_path", "unique", "nonzero", "flatnonzero", "interp", "round", "around",
     "trapezoid", "histogram", "meshgrid", "cumprod", "median", "quantile")
def np_unsupported(*a, **k):
    raise Unsupported("numpy function on a symbolic argument")


class _Err:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# =============================================================== norms etc.
def norm(x, ord=None, axis=None, keepdims=False, **k):
    x = asarr(x)
    if axis is None and x.ndim > 2 and ord is not None:
        raise Unsupported("norm of tensor")
    if axis is not None and not isinstance(axis, int):
        raise Unsupported("norm over axes")
    if axis is None and x.ndim == 2 and ord not in (None, "fro", "f"):
        raise Unsupported("matrix norm")
    if ord in (None, "fro", "f", 2):
        if ord == "fro" and axis is not None:
            raise ValueError("Invalid norm order")
        return NP["sqrt"](reduce_("sum", ew1(lambda p: p * p, x), axis, keepdims))
    if isinstance(ord, float) and ord == math.inf or ord is np.inf:
        return reduce_("max", ew1(T.fn_abs, x), axis, keepdims)
    if ord == 1:
        return reduce_("sum", ew1(T.fn_abs, x), axis, keepdims)
    if isinstance(ord, (int, float, SR, SI)):
        if isinstance(ord, (int, float)) and ord <= 0:
            raise Unsupported("norm order")
        s = reduce_("sum", ew2("pow", ew1(T.fn_abs, x), ord), axis, keepdims)
        return ew2("pow", s, ew2("div", 1, ord) if isinstance(ord, (SR, SI)) else Fraction(1) / Fraction(ord))
    raise Unsupported(f"norm order {ord!r}")


def block_diag(*xs):
    xs = [np_atleast_2d(x) for x in xs]
    rows = []
    for i, x in enumerate(xs):
        row = []
        for j, y in enumerate(xs):
            row.append(x if i == j else NP["zeros"]((x.shape[0], y.shape[1])))
        rows.append(concat(row, 1))
    return concat(rows, 0)


MODULES = {}
