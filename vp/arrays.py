"""Symbolic arrays: shape = integers or symbolic integers, elements = normal-form terms."""
import builtins
import itertools
import math
import numbers
import weakref
from fractions import Fraction
import numpy as np
import z3
from . import core
from . import terms as T
from .core import IP, SI, SB, ip, mk, mkb, cmp0, PATH, Unsupported
from .terms import Po
from . import loops


# ------------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, (A, SR, SI, SB, core.SymRepeat, SymList))


def deep_sym(x, d=0):
    if is_sym(x):
        return True
    if d < 4 and isinstance(x, (list, tuple)):
        return any(deep_sym(y, d + 1) for y in x)
    if d < 4 and isinstance(x, dict):
        return any(deep_sym(y, d + 1) for y in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(deep_sym(y, d + 1) for y in x.ravel().tolist())
    return False


def isnum(x):
    return isinstance(x, (numbers.Number, SI, SR, np.number)) and not isinstance(x, complex)


def po(x):
    """scalar -> Po"""
    if isinstance(x, Po):
        return x
    if isinstance(x, SR):
        return x.t
    if isinstance(x, SI):
        return T.from_int(x.p)
    if isinstance(x, IP):
        return T.from_int(x)
    if isinstance(x, (bool, np.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, (float, np.floating)):
        return T.const(T.rat(x))
    if isinstance(x, SB):
        return bool_po(x.z)
    if isinstance(x, A) and x.ndim == 0:
        return x.get(())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return po(x.item())
    raise Unsupported(f"not a real scalar: {type(x).__name__}")


def bool_po(z):
    if isinstance(z, bool):
        return T.const(int(z))
    if PATH.entails(z):
        return T.UNIT
    if PATH.entails(z3.Not(z)):
        return T.ZERO
    raise Unsupported("undetermined Boolean used as a number")


def po2ip(p):
    d = {}
    for (bs, cons, facs), c in p.d.items():
        if bs or cons or any(a[0] != "v" or not isinstance(e, int) or e < 0 for a, e in facs):
            raise Unsupported("index is not a polynomial of integer unknowns")
        d[tuple(sorted((a[1], e) for a, e in facs))] = c
    return IP(d)


def scal(p):
    """Po -> python number or SR"""
    if p.isconst():
        c = p.cval()
        return SR(p) if c.denominator != 1 else SR(p)
    return SR(p)


# -------------------------------------------------------------- real scalars
class SR:
    __slots__ = ("t",)
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(float)

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        if isinstance(o, A):
            return None
        if isinstance(o, np.ndarray) and o.ndim:
            return None
        if o is None or isinstance(o, (str, list, tuple)):
            return None
        if isinstance(o, float) and (o != o or abs(o) == math.inf):
            raise Unsupported("arithmetic with inf/nan")
        return po(o)

    def _bin(self, o, f, g):
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if isinstance(o, np.ndarray) and o.ndim:
            o = asarr(o)
        if isinstance(o, A):
            return g(o)
        q = self._o(o)
        if q is None:
            return NotImplemented
        return SR(f(self.t, q))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda o: ew2("add", self, o))
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, lambda o: ew2("add", o, self))
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda o: ew2("sub", self, o))
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda o: ew2("sub", o, self))
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda o: ew2("mul", self, o))
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, lambda o: ew2("mul", o, self))
    def __truediv__(self, o): return self._bin(o, lambda a, b: div(a, b), lambda o: ew2("div", self, o))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: div(b, a), lambda o: ew2("div", o, self))
    def __pow__(self, o): return self._bin(o, powr, lambda o: ew2("pow", self, o))
    def __rpow__(self, o): return self._bin(o, lambda a, b: powr(b, a), lambda o: ew2("pow", o, self))
    def __matmul__(self, o): raise ValueError("matmul: Input operand 0 does not have enough dimensions")
    def __rmatmul__(self, o): raise ValueError("matmul: Input operand 1 does not have enough dimensions")

    def __neg__(self): return SR(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SR(T.fn_abs(self.t))

    def _cmp(self, o, op):
        if isinstance(o, (A, np.ndarray)) and getattr(o, "ndim", 0):
            return ewcmp(op, self, o)
        if isinstance(o, float) and abs(o) == math.inf:
            return (op in ("lt", "le", "ne")) if o > 0 else (op in ("gt", "ge", "ne"))
        if isinstance(o, float) and o != o:
            return op == "ne"
        q = self._o(o)
        if q is None:
            return NotImplemented
        z = T.real_cmp(self.t - q, op)
        return z if isinstance(z, bool) else SB(z)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple)):
            return False
        return self._cmp(o, "eq")
    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple)):
            return True
        return self._cmp(o, "ne")
    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __bool__(self): return bool(self._cmp(0, "ne"))
    def __hash__(self): return 11
    def __float__(self): raise Unsupported("float() of a symbolic real")
    def __int__(self): raise Unsupported("int() of a symbolic real")
    def __array__(self, *a, **k): raise Unsupported("symbolic real passed to numpy")
    def __repr__(self): return f"<{self.t.skey()[:60]}>"
    def __format__(self, s): return repr(self)
    def __round__(self, n=None):
        try:
            return mk(po2ip(self.t))
        except Unsupported:
            raise Unsupported("round() of a symbolic real")
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def max(self, *a, **k): return self
    min = sum = mean = all_ = max
    def any(self): return self != 0
    all = any
    def is_integer(self): return False
    real = property(lambda s: s)
    T = property(lambda s: s)
    def conj(self): return self
    def astype(self, t): return self
    def reshape(self, *s): return asarr0(self).reshape(*s)
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")


def div(a, b):
    if b.isconst():
        if b.cval() == 0:
            raise Unsupported("division by zero constant")
        return a.scale(1 / b.cval())
    PATH.notes.append(("nonzero", b))
    return a * T.pw(b, -1)


def powr(a, b):
    if b.isconst():
        return T.pw(a, b.cval())
    if a.isconst() and a.cval() == 10:
        return T.atom(("f", "exp", (b * T.atom(("f", "log", (T.const(10),))),)))
    try:
        e = po2ip(b)
    except Unsupported:
        e = None
    if e is not None:
        if len(a.d) == 1 and T.is_positive(a):
            return T.pw(a, e)
        return T.atom(("f", "pow", (a, b)))
    # pow(x^p, 1/p)
    if len(a.d) == 1 and T.is_positive(a):
        (m, c), = a.d.items()
        if c == 1 and not m[0] and not m[1]:
            out = T.UNIT
            for at, k in m[2]:
                kk = T.from_int(k) if isinstance(k, IP) else T.const(k)
                prod = kk * b
                if prod.isconst():
                    out = out * T.pw(T.atom(at), prod.cval())
                else:
                    out = out * T.atom(("f", "pow", (T.atom(at), prod)))
            return out
    return T.atom(("f", "pow", (a, b)))


def fn1(name, p):
    if name == "sqrt":
        return T.fn_sqrt(p)
    if name == "abs":
        return T.fn_abs(p)
    if p.isconst():
        c = p.cval()
        if c == 0 and name in ("sin", "expm1"):
            return T.ZERO
        if c == 0 and name in ("exp", "cos"):
            return T.UNIT
        if name == "log" and c == 1:
            return T.ZERO
        if name == "log10":
            for k in range(-20, 21):
                if Fraction(10) ** k == c:
                    return T.const(k)
    return T.atom(("f", name, (p,)))


# ------------------------------------------------------------- axis structure
class Prod:
    """flat = i*n2 + j"""

    def __init__(self, n1, n2, s1=None, s2=None):
        self.n1, self.n2, self.s1, self.s2 = ip(n1), ip(n2), s1, s2

    def key(self):
        return ("prod", PATH.norm(self.n1), PATH.norm(self.n2),
                self.s1.key() if self.s1 else None, self.s2.key() if self.s2 else None)

    def flat(self, i, j):
        return i * self.n2 + j

    def size(self):
        return self.n1 * self.n2

    def psum(self, f):
        return axis_sum(self.n1, self.s1, lambda i: axis_sum(
            self.n2, self.s2, lambda j: f(reg(self, i, j))))

    def skolem(self, tag):
        i = axis_skolem(self.n1, self.s1, tag + "a")
        j = axis_skolem(self.n2, self.s2, tag + "b")
        return reg(self, i, j)

    def decode(self, p):
        r = PATH.memo.get(("dec", p))
        if r and r[0] == self.key():
            return r[1]
        if self.n2.isconst() and p.isconst():
            q, s = divmod(int(p.cval()), int(self.n2.cval()))
            return IP.const(q), IP.const(s)
        if PATH.norm(self.n1).isconst() and PATH.norm(self.n1).cval() == 1:
            return IP.const(0), p
        if PATH.norm(self.n2).isconst() and PATH.norm(self.n2).cval() == 1:
            return p, IP.const(0)
        return digits(p, self.n1, self.n2)


def power_structure(N):
    """Prod structure of an axis of length r**d, n1*n2, ..."""
    if len(N.d) == 1:
        (m, c), = N.d.items()
        fs = [v for v, e in m for _ in range(e)]
        if c == 1 and len(fs) >= 2:
            def go(fs):
                if len(fs) == 1:
                    return IP.var(fs[0]), None
                n2, s2 = go(fs[1:])
                s = Prod(IP.var(fs[0]), n2, None, s2)
                return s.size(), s
            return go(fs)[1]
    return None


def digit_cands(p, n2):
    cands = []
    if len(n2.d) == 1 and not n2.isconst():
        (m, c), = n2.d.items()
        hi, lo = {}, {}
        for k, x in p.d.items():
            d = dict(k)
            if all(d.get(v, 0) >= e for v, e in m) and c == 1:
                for v, e in m:
                    d[v] -= e
                hi[tuple(sorted((v, e) for v, e in d.items() if e))] = x
            else:
                lo[k] = x
        cands.append((IP(hi), IP(lo)))
    elif n2.isconst():
        c = n2.cval()
        hi, lo = {}, {}
        for k, x in p.d.items():
            if (x / c).denominator == 1:
                hi[k] = x / c
            else:
                lo[k] = x
        cands.append((IP(hi), IP(lo)))
    cands.append((IP.const(0), p))
    return cands


def split_digits(p, st):
    """digits (nested pairs) of a polynomial position within a Prod structure, or None;
    i*n2 + j with 0 <= i < n1, 0 <= j < n2 lies in [0, n1*n2) (lemma about radix notation)"""
    if not isinstance(st, Prod):
        return None
    p = PATH.norm(p)
    n1, n2 = PATH.norm(st.n1), PATH.norm(st.n2)
    for i, j in digit_cands(p, n2):
        if not (PATH.entails(cmp0(i, "ge")) and PATH.entails(cmp0(n1 - i - IP.const(1), "ge"))):
            continue
        if isinstance(st.s2, Prod):
            d = split_digits(j, st.s2)
            if d is not None:
                return (i, d)
        elif st.s2 is None and PATH.entails(cmp0(j, "ge")) and PATH.entails(cmp0(n2 - j - IP.const(1), "ge")):
            return (i, j)
    return None


def radix_lemma(p, n):
    """if p is visibly a position in radix notation within [0, n): add that fact"""
    n, p = PATH.norm(n), PATH.norm(p)
    if len(p.d) < 2 or n.isconst():
        return False
    st = power_structure(n)
    return st is not None and split_digits(p, st) is not None


def digits(p, n1, n2):
    """p = i*n2 + j with 0<=j<n2, 0<=i<n1: syntactic digit extraction, checked by z3"""
    n2 = PATH.norm(n2)
    p = PATH.norm(p)
    cands = digit_cands(p, n2)
    for i, j in cands:
        if PATH.entails(cmp0(j, "ge")) and PATH.entails(cmp0(n2 - j - IP.const(1), "ge")):
            return i, j
    # generic index: introduce the (existing and unique) digits
    if PATH.scopes == 0:
        a, b = PATH.fresh("dg"), PATH.fresh("dg")
        i, j = IP.var(a), IP.var(b)
        PATH.assume(z3.And(i.z() >= 0, i.z() < n1.z(), j.z() >= 0, j.z() < n2.z()))
        PATH.assume(cmp0(p - i * n2 - j, "eq"))
        if len(p.vars()) == 1 and len(p.d) == 1:
            PATH.learn_eq(p - i * n2 - j)
        return i, j
    raise Unsupported("cannot split a flat index into digits")


class Ragged:
    """concatenation of n pieces, piece i of length ell(i) (polynomial), offset S(i)"""

    def __init__(self, n, ellpoly, var, inner=None):
        self.n = ip(n)
        self.var = var
        self.ell = ellpoly            # IP in var
        self.S = faulhaber(ellpoly, var)   # sum_{t<var} ell(t)
        self.inner = inner            # function i -> structure of piece i (or None)

    def L(self, i):
        return self.ell.subst({self.var: i})

    def off(self, i):
        return self.S.subst({self.var: i})

    def key(self):
        v = IP.var("#")
        inner = None
        if self.inner:
            st = PATH.push()
            try:
                PATH.assume(core.inrange("#", self.n))
                x = self.inner(v)
                inner = x.key() if x is not None else None
            finally:
                PATH.pop(st)
        return ("ragged", PATH.norm(self.n), self.ell.subst({self.var: v}), inner)

    def size(self):
        return self.off(self.n)

    def flat(self, i, j):
        return self.off(i) + j

    def psum(self, f):
        return T.psum(lambda i: axis_sum(self.L(i), self.inner(i) if self.inner else None,
                                         lambda j: f(reg(self, i, j))), IP.const(0), self.n)

    def skolem(self, tag):
        i = axis_skolem(self.n, None, tag + "a")
        j = axis_skolem(self.L(i), self.inner(i) if self.inner else None, tag + "b")
        return reg(self, i, j)

    def decode(self, p):
        r = PATH.memo.get(("dec", p))
        if r and r[0][0] == "ragged" and r[0][2:] == self.key()[2:]:
            return r[1]
        n = PATH.norm(self.n)
        if n.isconst() and p.isconst():
            x = int(p.cval())
            for i in range(int(n.cval())):
                if x < int(self.off(IP.const(i + 1)).cval()):
                    return IP.const(i), IP.const(x - int(self.off(IP.const(i)).cval()))
        raise Unsupported("cannot decode a flat index of a ragged concatenation")


def reg(st, i, j):
    p = PATH.norm(st.flat(i, j))
    PATH.memo[("dec", p)] = (st.key(), (i, j))
    return p


def faulhaber(p, var):
    """sum_{t=0}^{var-1} p(t) as a polynomial in var"""
    deg = max((dict(m).get(var, 0) for m in p.d), default=0)
    pts = []
    acc = IP({})
    for x in range(deg + 2):
        pts.append(acc)
        acc = acc + p.subst({var: IP.const(x)})
    # Lagrange interpolation through (x, pts[x]), x = 0..deg+1
    out = IP({})
    v = IP.var(var)
    for i, y in enumerate(pts):
        num = IP.const(1)
        den = Fraction(1)
        for k in range(deg + 2):
            if k != i:
                num = num * (v - IP.const(k))
                den *= (i - k)
        out = out + (num * y).scale(1 / den)
    return out


def axis_sum(n, struct, f):
    if struct is not None:
        return struct.psum(f)
    return T.psum(f, IP.const(0), n)


def axis_skolem(n, struct, tag):
    if struct is not None:
        return struct.skolem(tag)
    n = PATH.norm(ip(n))
    v = PATH.fresh("k_" + tag)
    PATH.assume(z3.And(core.zvar(v) >= 0, cmp0(n - IP.var(v) - IP.const(1), "ge")))
    if n.isconst() and n.cval() == 1:
        PATH.learn_eq(IP.var(v))
    return PATH.norm(IP.var(v))


# ------------------------------------------------------------------- storage
class Store:
    __slots__ = ("f", "shape", "name", "seq", "struct", "alias", "__weakref__")
    count = [0]

    def __init__(self, f, shape, name=None):
        self.f = f
        self.shape = shape
        self.name = name
        Store.count[0] += 1
        self.seq = Store.count[0]
        self.struct = None         # axis structure found by a loop (loops.py)
        self.alias = ()            # weak references to stores that share memory with this one (reshaped views)


def sidx(x):
    return ip(x)


def map_sel(sel, idx):
    out = []
    for s in sel:
        if s[0] == "fix":
            out.append(PATH.norm(s[1]))
        else:
            x = idx[s[1]]
            if s[3] != 1:
                x = x.scale(Fraction(s[3]))
            out.append(PATH.norm(s[2] + x))
    return tuple(out)


NDARRAY = {x for x in dir(np.ndarray) if not x.startswith("__")}


class A:
    """symbolic ndarray"""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, f, kind="f", struct=None, store=None, sel=None):
        self._shape = tuple(norm_dim(d) for d in shape)
        self.kind = kind
        self.store = store if store is not None else Store(f, self._shape)
        self.sel = sel            # None = identity
        self._struct = struct or {}

    @property
    def struct(self):
        if self.store.struct and self.sel is None and not self._struct:
            return self.store.struct
        return self._struct

    # -- shape
    @property
    def shape(self):
        return tuple(norm_dim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return np.dtype({"f": float, "i": int, "b": bool, "o": object}[self.kind])

    @property
    def nbytes(self):
        return 8 * self.size

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() of a symbolic dimension outside the verified namespace")

    # -- element access
    def get(self, idx):
        idx = tuple(PATH.norm(ip(i)) for i in idx)
        f = self.store.f
        return f(self._map(idx))

    def _map(self, idx):
        return idx if self.sel is None else map_sel(self.sel, idx)

    def snap(self):
        """immutable element function of the current content"""
        f = self.store.f
        sel = self.sel
        if sel is None:
            return f
        return lambda idx: f(map_sel(sel, tuple(PATH.norm(ip(i)) for i in idx)))

    def frozen(self):
        f = self.snap()
        return A(self.shape, f, self.kind, dict(self.struct))

    def write(self, g, cons_extra=None):
        """self[...] = g(view idx)"""
        if any(r() is not None for r in self.store.alias):
            raise Unsupported("write to an array that shares memory with a reshaped view")
        loops.on_write(self, g, cons_extra)
        old = self.store.f
        if self.sel is None:
            if cons_extra is None:
                self.store.f = memo(g)
            else:
                self.store.f = memo(lambda idx: T.ite(cons_extra(idx), lambda: g(idx), lambda: old(idx)))
            return
        sel, shape = self.sel, self.shape
        sshape = self.store.shape

        def newf(idx):
            cons = []
            vidx = [IP.const(0)] * len(shape)
            for k, (s, x) in enumerate(zip(sel, idx)):
                if s[0] == "fix":
                    cons.append(("eq", PATH.norm(x - s[1])))
                else:
                    _, ax, start, step = s
                    if step == 1:
                        v = x - start
                    elif step == -1:
                        v = start - x
                    else:
                        d = (x - start)
                        q = core.idiv(d, IP.const(step))
                        v = ip(q)
                        cons.append(("eq", PATH.norm(d - v.scale(Fraction(step)))))
                    n = ip(shape[ax])
                    full = (step == 1 and not start.d and PATH.norm(n - ip(sshape[k])) == IP({}))
                    if not full:
                        cons.append(("ge", v))
                        cons.append(("ge", n - v - IP.const(1)))
                    vidx[ax] = v
            if cons_extra is not None:
                cons += cons_extra(tuple(vidx))
            return T.ite(cons, lambda: g(tuple(vidx)), lambda: old(idx))
        self.store.f = memo(newf)

    def view(self, *a):
        if a:
            raise Unsupported("view with another type")
        return index(self, (slice(None),) * self.ndim if self.ndim else ())

    def __getattr__(self, name):
        if name in NDARRAY:
            raise Unsupported(f"ndarray.{name} of a symbolic array")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    # -- indexing
    def __getitem__(self, key):
        return index(self, key)

    def __setitem__(self, key, val):
        setindex(self, key, val)

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        return iter(SymList(n, lambda i: self[i]))

    def __contains__(self, x):
        raise Unsupported("'in' on symbolic array")

    # -- arithmetic
    def __add__(self, o): return ew2("add", self, o)
    def __radd__(self, o): return ew2("add", o, self)
    def __sub__(self, o): return ew2("sub", self, o)
    def __rsub__(self, o): return ew2("sub", o, self)
    def __mul__(self, o): return ew2("mul", self, o)
    def __rmul__(self, o): return ew2("mul", o, self)
    def __truediv__(self, o): return ew2("div", self, o)
    def __rtruediv__(self, o): return ew2("div", o, self)
    def __pow__(self, o): return ew2("pow", self, o)
    def __rpow__(self, o): return ew2("pow", o, self)
    def __floordiv__(self, o): raise Unsupported("floor division of arrays")
    def __mod__(self, o): raise Unsupported("mod of arrays")
    def __neg__(self): return ew1(lambda p: -p, self)
    def __pos__(self): return self
    def __abs__(self): return ew1(T.fn_abs, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _iop(self, op, o):
        r = ew2(op, self, o)
        if isinstance(r, A) and r.kind == "f" and self.kind != "f":
            raise TypeError(f"Cannot cast ufunc '{op}' output from float64 to {self.dtype} "
                            "with casting rule 'same_kind'")
        if not isinstance(r, A):
            r = asarr0(r)
        check_same_shape(self.shape, r.shape)
        f = r.snap()
        self.write(lambda idx: f(idx))
        return self

    def __iadd__(self, o): return self._iop("add", o)
    def __isub__(self, o): return self._iop("sub", o)
    def __imul__(self, o): return self._iop("mul", o)
    def __itruediv__(self, o): return self._iop("div", o)
    def __ipow__(self, o): return self._iop("pow", o)

    def __eq__(self, o): return ewcmp("eq", self, o)
    def __ne__(self, o): return ewcmp("ne", self, o)
    def __lt__(self, o): return ewcmp("lt", self, o)
    def __le__(self, o): return ewcmp("le", self, o)
    def __gt__(self, o): return ewcmp("gt", self, o)
    def __ge__(self, o): return ewcmp("ge", self, o)
    def __and__(self, o): return ewbool(z3.And, self, o)
    def __or__(self, o): return ewbool(z3.Or, self, o)
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return A(self.shape, (lambda f: lambda i: znot(f(i)))(self.snap()), "b")
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1 or (isinstance(n, SI) and n == 1):
            e = self.get((IP.const(0),) * self.ndim)
            if self.kind == "b":
                return bool(mkb(e) if not isinstance(e, bool) else e)
            return bool(SR(e))
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __array__(self, *a, **k):
        c = try_concrete(self)
        if c is not None:
            return c
        raise Unsupported("symbolic array passed to numpy")

    def __repr__(self):
        return f"<A {self.shape}>"

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo_):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # -- methods
    def copy(self, order="C"):
        f = self.snap()
        return A(self.shape, f, self.kind, dict(self.struct))

    def astype(self, t, copy=True):
        k = np.dtype(t).kind
        f = self.snap()
        if k == "f":
            if self.kind == "b":
                raise Unsupported("astype from bool")
            return A(self.shape, f, "f", dict(self.struct))
        if k == "i":
            if self.kind == "i":
                return self.copy()

            def g(idx):
                p = f(idx)
                po2ip(p)
                return p
            g((IP.var(PATH.fresh("t")),) * self.ndim) if self.ndim else g(())
            return A(self.shape, g, "i", dict(self.struct))
        raise Unsupported(f"astype {t}")

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        inv = {a: i for i, a in enumerate(axes)}
        sel = self.sel or [("ax", k, IP.const(0), 1) for k in range(self.ndim)]
        sel = [s if s[0] == "fix" else ("ax", inv[s[1]], s[2], s[3]) for s in sel]
        return A([self.shape[a] for a in axes], None, self.kind,
                 {i: self.struct[a] for i, a in enumerate(axes) if a in self.struct},
                 store=self.store, sel=sel)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order="C"):
        if order not in ("C",):
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("ravel order")
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def squeeze(self, axis=None):
        keep = []
        for k, d in enumerate(self.shape):
            if axis is not None and k not in ((axis % self.ndim,) if isinstance(axis, int) else axis):
                keep.append(k)
                continue
            if d == 1:
                continue
            keep.append(k)
        return index(self, tuple(slice(None) if k in keep else 0 for k in range(self.ndim)))

    def dot(self, o): return matmul(self, o)
    def conj(self): return self
    conjugate = conj
    real = property(lambda s: s)

    def sum(self, axis=None, keepdims=False, **k): return reduce_("sum", self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return reduce_("mean", self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_("max", self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_("min", self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return reduce_("prod", self, axis, keepdims)
    def std(self, axis=None, keepdims=False, ddof=0, **k): return reduce_("std", self, axis, keepdims, ddof)
    def var(self, axis=None, keepdims=False, ddof=0, **k): return reduce_("var", self, axis, keepdims, ddof)
    def any(self, axis=None): return quant(self, "any", axis)
    def all(self, axis=None): return quant(self, "all", axis)

    def cumsum(self, axis=None):
        if self.ndim != 1:
            raise Unsupported("cumsum of a matrix")
        f = self.snap()
        return A(self.shape, lambda idx: T.psum(lambda v: f((v,)), IP.const(0), idx[0] + IP.const(1)), self.kind)

    def item(self, *a):
        if not a:
            if self.size == 1:
                return scalar_of(self, (IP.const(0),) * self.ndim)
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self[a]

    def tolist(self):
        return [x.tolist() if isinstance(x, A) else x for x in self]

    def fill(self, v):
        self[...] = v

    def diagonal(self):
        f = self.snap()
        return A((self.shape[0],), lambda i: f((i[0], i[0])), self.kind)

    def toarray(self):
        return self.copy()

    @property
    def flags(self):
        class F:
            writeable = True
            c_contiguous = True
        return F

    @property
    def flat(self):
        return self.ravel()


def znot(z):
    return (not z) if isinstance(z, bool) else z3.Not(z)


def norm_dim(d):
    if isinstance(d, (int, np.integer)):
        return int(d)
    if isinstance(d, IP):
        return mk(d)
    if isinstance(d, SI):
        return mk(d.p)
    raise Unsupported(f"bad dimension {d!r}")


def memo(f):
    cache = {}

    def g(idx):
        idx = tuple(PATH.norm(i) for i in idx)
        if PATH.scopes:
            return f(idx)
        r = cache.get(idx)
        if r is None:
            r = cache[idx] = f(idx)
        return r
    return g


class SymList:
    """list of symbolic length: element i is f(SI)"""

    def __init__(self, n, f):
        self.n = n
        self.f = f

    def __len__(self):
        raise Unsupported("len of symbolic list outside the verified namespace")

    def __iter__(self):
        raise Unsupported("loop over a symbolic range without a loop contract")

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic list")
        if isinstance(i, int) and i < 0:
            i = self.n + i
        return self.f(i)


# ----------------------------------------------------------------- conversion
def asarr(x):
    if isinstance(x, A):
        return x
    if isinstance(x, (SR, SI)):
        return asarr0(x)
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, SymList):
        return stack_symlist(x)
    if isinstance(x, core.SymRepeat):
        e = x.elem
        if isinstance(e, A):
            raise Unsupported("repeat of arrays")
        t = po(e)
        return A((x.n,), lambda i: t, "i" if isinstance(e, (int, SI)) else "f")
    if isinstance(x, (list, tuple)):
        if not deep_sym(x):
            return from_np(np.array(x))
        parts = [asarr(y) for y in x]
        shp = parts[0].shape
        for p in parts[1:]:
            if len(p.shape) != len(shp) or any(bool(a != b) for a, b in zip(p.shape, shp)):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
        fs = [p.snap() for p in parts]
        kind = join_kind([p.kind for p in parts])
        return A((len(parts),) + tuple(shp), memo(lambda idx: pick(fs, idx[0], idx[1:])), kind)
    if isinstance(x, (bool, numbers.Number, np.generic)):
        return asarr0(x)
    raise Unsupported(f"cannot view {type(x).__name__} as an array")


def stack_symlist(x):
    st = PATH.push()
    try:
        v = PATH.fresh("s")
        PATH.assume(core.inrange(v, x.n))
        e = x.f(SI(IP.var(v)))
        if isinstance(e, A):
            shp, kind = e.shape, e.kind
        else:
            shp, kind = (), ("i" if isinstance(e, (int, SI)) else "f")
        for d in shp:
            if isinstance(d, SI) and v in d.p.vars():
                raise ValueError("inhomogeneous shape")
    finally:
        PATH.pop(st)

    def f(idx):
        e = x.f(mk(idx[0]))
        return e.get(idx[1:]) if isinstance(e, A) else po(e)
    return A((x.n,) + tuple(shp), f, kind)


def pick(fs, i, rest):
    """element functions fs selected by index i"""
    i = PATH.norm(i)
    if i.isconst():
        c = int(i.cval())
        return fs[c](rest)

    def rec(k):
        if k == len(fs) - 1:
            return fs[k](rest)
        return T.ite([("eq", i - IP.const(k))], lambda: fs[k](rest), lambda: rec(k + 1))
    return rec(0)


def asarr0(x):
    t = po(x)
    return A((), lambda idx: t, "i" if isinstance(x, (int, SI, np.integer)) and not isinstance(x, bool) else "f")


def from_np(x):
    if x.dtype == object:
        return asarr(x.tolist())
    if x.dtype.kind == "b":
        kind = "b"
    elif x.dtype.kind in "iu":
        kind = "i"
    elif x.dtype.kind == "f":
        kind = "f"
    else:
        raise Unsupported(f"dtype {x.dtype}")
    x = x.copy()

    def f(idx):
        def rec(k, pre):
            if k == len(idx):
                v = x[tuple(pre)]
                return bool(v) if kind == "b" else po(v.item() if hasattr(v, "item") else v)
            i = PATH.norm(idx[k])
            if i.isconst():
                return rec(k + 1, pre + [int(i.cval())])
            n = x.shape[k]
            if n > 64:
                raise Unsupported("large concrete array at a symbolic index")
            if kind == "b":
                raise Unsupported("concrete Boolean array at a symbolic index")

            def chain(j):
                if j == n - 1:
                    return rec(k + 1, pre + [j])
                return T.ite([("eq", i - IP.const(j))], lambda: rec(k + 1, pre + [j]), lambda: chain(j + 1))
            # affine content?
            if kind == "i" and x.ndim == 1 and n >= 2:
                d = np.diff(x)
                if (d == d[0]).all():
                    return T.from_int(IP.const(int(x[0])) + i.scale(Fraction(int(d[0]))))
            return chain(0)
        return rec(0, [])
    return A(x.shape, f, kind)


def try_concrete(x):
    """A with concrete shape and constant elements -> ndarray (or None)"""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, SR):
        return float(x.t.cval()) if x.t.isconst() else None
    if not isinstance(x, A):
        return None
    if not all(isinstance(d, int) for d in x.shape):
        return None
    n = 1
    for d in x.shape:
        n *= d
    if n > 2000:
        return None
    out = np.empty(x.shape, dtype=x.dtype)
    for idx in itertools.product(*[range(d) for d in x.shape]):
        e = x.get(tuple(IP.const(i) for i in idx))
        if isinstance(e, bool):
            out[idx] = e
        elif isinstance(e, Po) and e.isconst():
            out[idx] = float(e.cval()) if x.kind == "f" else int(e.cval())
        else:
            return None
    return out


def join_kind(ks):
    for k in "ofib":
        if k in ks:
            return k
    return "f"


def kind_of(x):
    if isinstance(x, A):
        return x.kind
    if isinstance(x, (bool, np.bool_, SB)):
        return "b"
    if isinstance(x, (int, np.integer, SI)):
        return "i"
    return "f"


# ---------------------------------------------------------------- broadcasting
def dims_equal(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(a == b if isinstance(a, SI) else b == a)


def surely_eq(a, b):
    p = PATH.norm(ip(a) - ip(b))
    if p.isconst():
        return p.cval() == 0
    return PATH.entails(cmp0(p, "eq"))


def bdim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise ValueError(f"operands could not be broadcast together with shapes ({a}) ({b})")
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if surely_eq(a, b):
        return a
    if dims_equal(a, b):
        return a
    if not isinstance(a, int) and dims_equal(a, 1):
        return b
    if not isinstance(b, int) and dims_equal(b, 1):
        return a
    raise ValueError(f"operands could not be broadcast together with shapes ({a}) ({b})")


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                d = bdim(d, s[j])
        out.append(d)
    return tuple(out)


def bget(x, shape):
    """element function of x broadcast to shape"""
    if not isinstance(x, A):
        t = po(x)
        return lambda idx: t
    f = x.snap()
    xs = x.shape
    off = len(shape) - len(xs)
    ones = [isinstance(d, int) and d == 1 for d in xs]
    if off == 0 and not any(o and not (isinstance(t, int) and t == 1) for o, t in zip(ones, shape)):
        return f
    return lambda idx: f(tuple(IP.const(0) if ones[k] else idx[k + off] for k in range(len(xs))))


def bstruct(shape, *xs):
    out = {}
    for x in xs:
        if isinstance(x, A):
            off = len(shape) - x.ndim
            for k, s in x.struct.items():
                if not (isinstance(x.shape[k], int) and x.shape[k] == 1):
                    out.setdefault(k + off, s)
    return out


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "div": div, "pow": powr,
       "maximum": lambda a, b: minmax2("max", a, b), "minimum": lambda a, b: minmax2("min", a, b)}


def minmax2(n, a, b):
    d = a - b
    if T.real_entails(d, "ge"):
        return a if n == "max" else b
    if T.real_entails(d, "le"):
        return b if n == "max" else a
    h = T.fn_abs(d)
    s = a + b + (h if n == "max" else -h)
    return s.scale(Fraction(1, 2))


def norm_operand(x):
    if isinstance(x, (list, tuple, SymList, core.SymRepeat)):
        return asarr(x)
    if isinstance(x, np.ndarray):
        return from_np(x)
    return x


def ew2(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise TypeError(f"unsupported operand type(s) for {op}")
    a, b = norm_operand(a), norm_operand(b)
    for x in (a, b):
        if isinstance(x, float) and (x != x or abs(x) == math.inf):
            raise Unsupported("arithmetic with inf/nan")
    sa = a.shape if isinstance(a, A) else ()
    sb = b.shape if isinstance(b, A) else ()
    if not isinstance(a, A) and not isnum(a) and not isinstance(a, (bool, SB)) or \
            (not isinstance(b, A) and not isnum(b) and not isinstance(b, (bool, SB))):
        return NotImplemented
    shape = bshape(sa, sb)
    fa, fb = bget(a, shape), bget(b, shape)
    ka, kb = kind_of(a), kind_of(b)
    kind = join_kind([ka, kb])
    if kind == "b":
        if op in ("add", "mul"):
            raise Unsupported("Boolean arithmetic")
        kind = "i"
    if op == "div":
        kind = "f"
    if ka == "b" or kb == "b":
        fa = bool_fn(fa) if ka == "b" and isinstance(a, A) else fa
        fb = bool_fn(fb) if kb == "b" and isinstance(b, A) else fb
    g = OPS[op]
    if not shape and not isinstance(a, A) and not isinstance(b, A):
        return SR(g(fa(()), fb(())))
    r = A(shape, memo(lambda idx: g(fa(idx), fb(idx))), kind, bstruct(shape, a, b))
    if not shape:
        return SR(r.get(()))
    return r


def bool_fn(f):
    return lambda idx: bool_po(f(idx))


def ew1(g, x, kind=None):
    if not isinstance(x, A):
        return SR(g(po(x)))
    f = x.snap()
    return A(x.shape, memo(lambda idx: g(f(idx))), kind or ("f" if x.kind == "b" else x.kind), dict(x.struct))


def ewcmp(op, a, b):
    if b is None:
        return op == "ne"
    a, b = norm_operand(a), norm_operand(b)
    if isinstance(b, str):
        return op == "ne"
    if isinstance(b, float) and abs(b) == math.inf:
        v = (op in ("lt", "le", "ne")) if b > 0 else (op in ("gt", "ge", "ne"))
        return A(a.shape, lambda i: v, "b")
    shape = bshape(a.shape if isinstance(a, A) else (), b.shape if isinstance(b, A) else ())
    fa, fb = bget(a, shape), bget(b, shape)
    ka, kb = kind_of(a), kind_of(b)
    if ka == "b" and kb == "b":
        if op == "eq":
            return A(shape, lambda i: z3.simplify(core.zb_(fa(i)) == core.zb_(fb(i))), "b")
        raise Unsupported("Boolean comparison")
    r = A(shape, lambda idx: T.real_cmp(fa(idx) - fb(idx), op), "b")
    if not shape:
        z = r.get(())
        return z if isinstance(z, bool) else SB(z)
    r.cmp = (op, fa, fb)
    return r


def ewbool(f, a, b):
    a, b = norm_operand(a), norm_operand(b)
    shape = bshape(a.shape if isinstance(a, A) else (), b.shape if isinstance(b, A) else ())

    def el(x):
        if isinstance(x, A):
            g = x.snap()
            xs = x.shape
            off = len(shape) - len(xs)
            return lambda idx: g(tuple(IP.const(0) if isinstance(d, int) and d == 1 else idx[k + off]
                                       for k, d in enumerate(xs)))
        v = core.zb(x)
        return lambda idx: v
    ea, eb = el(a), el(b)
    zz = lambda t: z3.BoolVal(t) if isinstance(t, bool) else t
    return A(shape, lambda idx: f(zz(ea(idx)), zz(eb(idx))), "b")


core.zb_ = lambda t: z3.BoolVal(t) if isinstance(t, bool) else t


def quant(x, which, axis=None):
    if axis is not None:
        if not isinstance(axis, int):
            raise Unsupported("quantifier over several axes")
        axis = axis % x.ndim
        f = x.snap()
        shp = [d for k, d in enumerate(x.shape) if k != axis]
        n = x.shape[axis]

        def g(idx):
            return qdecide(lambda v: f(idx[:axis] + (v,) + idx[axis:]), n, which)
        if not shp:
            z = g(())
            return z if isinstance(z, bool) else SB(z)
        return A(shp, g, "b")
    if not isinstance(x, A):
        return x
    if x.kind != "b":
        x = ewcmp("ne", x, 0)
    cm = getattr(x, "cmp", None)
    if cm and which == "all" and cm[0] == "eq":
        return arrays_equal_bool(x.shape, cm[1], cm[2], "all_eq")
    f = x.snap()
    shape = x.shape

    def rec(k, pre):
        if k == len(shape):
            return f(tuple(pre))
        return qdecide(lambda v: rec(k + 1, pre + [v]), shape[k], which)
    z = rec(0, [])
    return z if isinstance(z, bool) else SB(z)


def qdecide(f, n, which):
    n_ = PATH.norm(ip(n))
    if n_.isconst() and n_.cval() <= 8:
        zs = [core.zb_(f(IP.const(i))) for i in range(int(n_.cval()))]
        z = z3.simplify((z3.And if which == "all" else z3.Or)(*zs)) if zs else z3.BoolVal(which == "all")
        return True if z3.is_true(z) else False if z3.is_false(z) else z
    st = PATH.push()
    try:
        v = T.fresh()
        PATH.assume(core.inrange(v, n_))
        if PATH.check() == z3.unsat:
            return which == "all"
        z = f(IP.var(v))
        if isinstance(z, bool):
            if z == (which == "all"):
                return z
            # any(True)/all(False): range nonempty?
            val = z
            ent = val
        else:
            ent = True if PATH.entails(z) else (False if PATH.entails(z3.Not(z)) else None)
    finally:
        PATH.pop(st)
    if ent is None:
        return z3.Bool("q:" + which + ":" + str(z).replace(v, "*") + ":" + repr(n_))
    if which == "all":
        if ent:
            return True
        return znot(core.cmp0(n_, "gt"))
    if not ent:
        return False
    return core.cmp0(n_, "gt")


def arrays_equal_bool(shape, fa, fb, tag):
    """decide  forall idx: fa == fb ; opaque if undecided"""
    idx = []
    st = PATH.push()
    try:
        for k, d in enumerate(shape):
            v = T.fresh()
            PATH.assume(core.inrange(v, d))
            idx.append(IP.var(v))
        if PATH.check() == z3.unsat:
            return True
        try:
            df = fa(tuple(idx)) - fb(tuple(idx))
        except Unsupported:
            df = None
        if df is not None:
            if T.is_zero(df).ok:
                return True
            key = df.skey()
        else:
            key = "?"
        for i, x in enumerate(idx):
            key = key.replace(T.v_of(x), f"*{i}")
        # surely different everywhere
        if df is not None:
            z = T.real_cmp(T.inv_rewrite(df), "eq")
            if z is False and all(PATH.entails(cmp0(ip(d), "gt")) for d in shape):
                return False
    finally:
        PATH.pop(st)

    def learned():
        from . import assumed
        for f, g in ((fa, fb), (fb, fa)):
            try:
                if assumed.equation_rule(tag, f, list(shape), g):
                    return
            except Unsupported:
                pass
        PATH.lost = True
    PATH.onlearn[f"{tag}:{key}"] = learned
    PATH.memo.setdefault("alleq", []).append((z3.Bool(f"{tag}:{key}"), tuple(shape), fa, fb))
    return SB(z3.Bool(f"{tag}:{key}"))


# ------------------------------------------------------------------- indexing
def check_same_shape(want, got):
    """broadcast got to want (assignment)"""
    off = len(want) - len(got)
    if off < 0:
        lead = got[:-off]
        if all(isinstance(d, int) and d == 1 for d in lead):
            return check_same_shape(want, got[-off:])
        raise ValueError(f"could not broadcast input array from shape {got} into shape {want}")
    for k, d in enumerate(got):
        w = want[k + off]
        if isinstance(d, int) and d == 1:
            continue
        if surely_eq(w, d):
            continue
        if not dims_equal(w, d):
            if isinstance(d, SI) and dims_equal(d, 1):
                continue
            raise ValueError(f"could not broadcast input array from shape {got} into shape {want}")


def norm_slice(s, n):
    """-> (start IP, step int, length dim)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, (int, np.integer)) or step == 0:
        raise Unsupported("slice step")
    step = int(step)
    n_ = ip(n)

    def clamp(x, lo, hi):
        """min(max(x, lo), hi) by path splitting"""
        x = mk(ip(x))
        if x < mk(lo):
            return lo
        if x > mk(hi):
            return hi
        return ip(x)

    def fix(x):
        if isinstance(x, SR):
            x = mk(po2ip(x.t))
        if isinstance(x, A) and x.ndim == 0:
            x = mk(po2ip(x.get(())))
        if x < 0:
            return ip(x) + n_
        return ip(x)
    zero, one = IP.const(0), IP.const(1)
    if step > 0:
        start = zero if s.start is None else clamp(mk(fix(s.start)), zero, n_)
        stop = n_ if s.stop is None else clamp(mk(fix(s.stop)), zero, n_)
        if step == 1:
            ln = PATH.norm(stop - start)
            if not (mk(ln) >= 0):
                ln = zero
        else:
            d = PATH.norm(stop - start)
            if not (mk(d) > 0):
                ln = zero
            else:
                ln = ip(core.idiv(d + IP.const(step - 1), IP.const(step)))
    else:
        start = n_ - one if s.start is None else clamp(mk(fix(s.start)), -one, n_ - one)
        stop = -one if s.stop is None else clamp(mk(fix(s.stop)), -one, n_ - one)
        d = PATH.norm(start - stop)
        if not (mk(d) > 0):
            ln = zero
        elif step == -1:
            ln = d
        else:
            ln = ip(core.idiv(d + IP.const(-step - 1), IP.const(-step)))
    return start, step, mk(ln)


def scalar_of(x, idx):
    e = x.get(idx)
    if x.kind == "b":
        return e if isinstance(e, bool) else SB(e)
    if x.kind == "i":
        try:
            return mk(po2ip(e))
        except Unsupported:
            return SR(e)
    return SR(e)


def check_index(i, n):
    """integer index with bounds check; returns IP"""
    if isinstance(i, SR):
        i = mk(po2ip(i.t))
    i = mk(ip(i))
    if isinstance(i, SI) and isinstance(n, SI):
        if radix_lemma(i.p, n.p) or loops.counter_lemma(i.p, n.p):
            return ip(i)
    if i < 0:
        i = i + n
    if not ((i >= 0) if isinstance(i, SI) else i >= 0) or not (n > i if isinstance(n, SI) else i < n):
        raise IndexError(f"index {i} is out of bounds for axis with size {n}")
    return ip(i)


def expand_key(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    n += sum(k.ndim - 1 for k in key if isinstance(k, (A, np.ndarray)) and
             (k.kind if isinstance(k, A) else k.dtype.kind) == "b")
    if any(k is Ellipsis for k in key):
        i = next(j for j, k in enumerate(key) if k is Ellipsis)
        key[i:i + 1] = [slice(None)] * (x.ndim - n)
    else:
        key += [slice(None)] * (x.ndim - n)
    if sum(1 for k in key if k is not None) > x.ndim and not any(
            isinstance(k, (A, np.ndarray)) for k in key):
        raise IndexError("too many indices for array")
    return key


def is_adv(k):
    return isinstance(k, (A, np.ndarray, list, SymList)) and not (isinstance(k, (A, np.ndarray)) and k.ndim == 0)


def index(x, key):
    key = expand_key(x, key)
    if any(is_adv(k) for k in key):
        return adv_index(x, key)
    sel = x.sel or [("ax", k, IP.const(0), 1) for k in range(x.ndim)]
    new = {}        # old view axis -> ('fix', IP) or (newaxis, start, step)
    shape = []
    struct = {}
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = x.shape[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                new[ax] = (len(shape), IP.const(0), 1)
                if ax in x.struct:
                    struct[len(shape)] = x.struct[ax]
                shape.append(n)
            else:
                st, step, ln = norm_slice(k, n)
                if ax in x.struct and not st.d and step == 1:
                    s2 = prefix_struct(x.struct[ax], ip(ln))
                    if s2 is not None:
                        struct[len(shape)] = s2
                new[ax] = (len(shape), st, step)
                shape.append(ln)
        elif isinstance(k, (int, np.integer, SI, SR)) or (isinstance(k, (A, np.ndarray)) and k.ndim == 0):
            if isinstance(k, (bool, np.bool_)):
                raise Unsupported("Boolean scalar index")
            if isinstance(k, A):
                k = scalar_of(k, ())
            if isinstance(k, np.ndarray):
                k = int(k)
            new[ax] = ("fix", check_index(k, n))
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                             f"integer or boolean arrays are valid indices (got {type(k).__name__})")
        ax += 1
    nsel = []
    for s in sel:
        if s[0] == "fix":
            nsel.append(s)
            continue
        _, va, start, step = s
        m = new[va]
        if m[0] == "fix":
            nsel.append(("fix", start + m[1].scale(Fraction(step))))
        else:
            nsel.append(("ax", m[0], start + m[1].scale(Fraction(step)), step * m[2]))
    out = A(shape, None, x.kind, struct, store=x.store, sel=nsel)
    if not shape:
        return scalar_of(out, ())
    return out


def prefix_struct(s, ln):
    """structure of the prefix of length ln"""
    if isinstance(s, Ragged):
        for v in sorted(ln.vars()) or [None]:
            for c in range(-2, 4):
                base = IP.var(v) if v else IP.const(0)
                n = base + IP.const(c)
                if PATH.norm(s.off(n) - ln) == IP({}):
                    return Ragged(n, s.ell, s.var, s.inner)
        if PATH.norm(s.size() - ln) == IP({}):
            return s
    if isinstance(s, Prod) and PATH.norm(s.size() - ln) == IP({}):
        return s
    return None


def index_fn(k):
    """advanced index -> (shape, function idx -> IP)"""
    if isinstance(k, np.ndarray):
        if k.dtype == bool:
            k = np.nonzero(k)[0]
        k = from_np(k)
    elif isinstance(k, (list, SymList)):
        k = asarr(k)
        if k.kind == "b":
            c = try_concrete(k)
            if c is None:
                raise Unsupported("symbolic Boolean mask")
            return index_fn(c)
    if k.kind == "b":
        raise Unsupported("symbolic Boolean mask")
    if k.kind != "i":
        if k.kind == "f" and k.shape == (0,):
            return k, None
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    f = k.snap()
    return k, (lambda idx: po2ip(f(idx)))


def adv_index(x, key):
    adv = [(p, k) for p, k in enumerate(key) if is_adv(k) or isinstance(k, (int, SI, np.integer))]
    real_adv = [p for p, k in enumerate(key) if is_adv(k)]
    if any(isinstance(key[p], (A, np.ndarray)) and (key[p].kind if isinstance(key[p], A) else key[p].dtype.kind) == "b"
           and key[p].ndim > 1 for p in real_adv):
        raise Unsupported("multi-dimensional Boolean mask")
    pos = [p for p, _ in adv]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated advanced indices")
    # concrete boolean mask over a symbolic axis is impossible; integer arrays only
    fs = []
    shapes = []
    structs = []
    for p, k in adv:
        ax = sum(1 for q in key[:p] if q is not None)
        n = x.shape[ax]
        if is_adv(k):
            if isinstance(k, A) and k.kind == "b":
                c = try_concrete(k)
                if c is None:
                    return mask_index(x, key, p, k)
                k = c
            arr, f = index_fn(k)
            shapes.append(arr.shape)
            structs.append(arr)
            arr, f = wrap_negative(arr, f, n)
            bounds_check(arr, f, n)
            fs.append((ax, arr, f, n))
        else:
            i = check_index(k, n)
            fs.append((ax, None, (lambda i: lambda idx: i)(i), n))
    ashape = bshape(*shapes)
    base_axes = {ax for ax, *_ in fs}
    # slices on the other axes
    shape = []
    plan = []
    first = pos[0]
    aoff = None
    ax = 0
    struct = {}
    for p, k in enumerate(key):
        if k is None:
            shape.append(1)
            continue
        if p in pos:
            if p == first:
                aoff = len(shape)
                for kk, d in enumerate(ashape):
                    shape.append(d)
                for st in structs:
                    off = len(ashape) - st.ndim
                    for a, s in st.struct.items():
                        struct[aoff + off + a] = s
            ax += 1
            continue
        st, step, ln = norm_slice(k, x.shape[ax])
        if ax in x.struct and not st.d and step == 1 and surely_eq(ln, x.shape[ax]):
            struct[len(shape)] = x.struct[ax]
        plan.append((ax, len(shape), st, step))
        shape.append(ln)
        ax += 1
    xf = x.snap()
    nd = x.ndim
    na = len(ashape)

    def g(idx):
        full = [None] * nd
        aidx = idx[aoff:aoff + na]
        for ax, arr, f, n in fs:
            if arr is None:
                full[ax] = f(())
                continue
            off = na - arr.ndim
            sub = tuple(IP.const(0) if isinstance(arr.shape[k], int) and arr.shape[k] == 1 else aidx[k + off]
                        for k in range(arr.ndim))
            v = f(sub)
            v = PATH.norm(v)
            if getattr(arr, "inbounds", None) is None and not PATH.entails(cmp0(v, "ge")):
                if not PATH.entails(cmp0(v, "lt")):
                    raise Unsupported("index array with entries of unknown sign")
                v = v + ip(n)
            full[ax] = v
        for ax, na_, st, step in plan:
            full[ax] = st + idx[na_].scale(Fraction(step))
        return xf(tuple(full))
    return A(shape, memo(g), x.kind, struct)


def wrap_negative(arr, f, n):
    """constant index arrays: count negative entries from the end"""
    if f is None or arr.ndim != 1 or not isinstance(arr.shape[0], int) or arr.shape[0] > 200:
        return arr, f
    vs = [f((IP.const(i),)) for i in range(arr.shape[0])]
    if not any(v.isconst() and v.cval() < 0 for v in vs):
        return arr, f
    arr = asarr([mk(v + ip(n)) if v.isconst() and v.cval() < 0 else mk(v) for v in vs])
    return index_fn(arr)


def bounds_check(arr, f, n):
    """all entries of the index array are within [-n, n)"""
    if f is None:
        return
    if getattr(arr, "inbounds", None) is not None and surely_eq(arr.inbounds, n):
        return
    st = PATH.push()
    try:
        idx = []
        for k, d in enumerate(arr.shape):
            if k in arr.struct:
                s = arr.struct[k]
                p = s.skolem("bc")
                idx.append(p)
                continue
            d_ = PATH.norm(ip(d))
            if d_.isconst() and d_.cval() <= 40:
                idx.append(None)
            else:
                v = T.fresh()
                PATH.assume(core.inrange(v, d_))
                idx.append(IP.var(v))
        spots = [[IP.const(i) for i in range(int(ip(arr.shape[k]).cval()))] if x is None else [x]
                 for k, x in enumerate(idx)]
        bad = []
        for t in itertools.product(*spots):
            v = f(t)
            z1 = cmp0(v + ip(n), "ge")
            z2 = cmp0(ip(n) - v - IP.const(1), "ge")
            if not (PATH.entails(z1) and PATH.entails(z2)):
                bad.append((v, z1, z2))
    finally:
        PATH.pop(st)
    for v, z1, z2 in bad:
        if v.isconst() or all(q in PATH.dims for q in v.vars()):
            if not (SB(core.zb_(z1)) & SB(core.zb_(z2))):
                raise IndexError("index out of bounds")
        else:
            raise Unsupported("index array not provably in bounds")


def mask_index(x, key, p, k):
    from . import shim
    s = shim.mono_mask(k) if k.ndim == 1 else None
    if s is None:
        raise Unsupported("selection by a symbolic Boolean mask")
    return index(x, tuple(s if y is k else y for y in key)).copy()


def setindex(x, key, val):
    if isinstance(val, (list, tuple, np.ndarray, SymList)):
        val = asarr(val)
    if isinstance(val, A) and val.kind == "f" and x.kind == "i" or \
            (isinstance(val, (float, SR, np.floating)) and x.kind == "i"):
        raise Unsupported("assignment of reals into an integer array (truncation)")
    keyl = expand_key(x, key)
    if any(is_adv(k) for k in keyl):
        return set_adv(x, keyl, val)
    # view
    if all(not isinstance(k, slice) and k is not None for k in keyl):
        n = 0
        sel = x.sel or [("ax", k, IP.const(0), 1) for k in range(x.ndim)]
        fx = [check_index(k, d) for k, d in zip(keyl, x.shape)]
        nsel = [s if s[0] == "fix" else ("fix", s[2] + fx[s[1]].scale(Fraction(s[3]))) for s in sel]
        v = A((), None, x.kind, store=x.store, sel=nsel)
        if x.kind == "b":
            raise Unsupported("write to Boolean array")
        if isinstance(val, A):
            if val.ndim:
                check_same_shape((), val.shape)
                t = val.get((IP.const(0),) * val.ndim)
            else:
                t = val.get(())
        else:
            t = po(val)
        v.write(lambda idx: t)
        return
    v = index(x, tuple(keyl))
    if isinstance(val, A):
        check_same_shape(v.shape, val.shape)
        if val.ndim > v.ndim:
            val = index(val, (0,) * (val.ndim - v.ndim))
        f = bget(val, v.shape)
    else:
        if isinstance(val, float) and (val != val or abs(val) == math.inf):
            f = lambda idx: T.atom(("a", f"special:{val}", ()))
        else:
            t = po(val)
            f = lambda idx: t
    v.write(f)


def set_adv(x, key, val):
    pos = [p for p, k in enumerate(key) if is_adv(k)]
    if len(pos) != 1 or any(k is None for k in key):
        raise Unsupported("assignment with several index arrays")
    p = pos[0]
    k = key[p]
    if isinstance(k, A) and k.kind == "b" or isinstance(k, np.ndarray) and k.dtype == bool:
        kk = try_concrete(k)
        if kk is None:
            raise Unsupported("assignment with a symbolic mask")
        k = np.nonzero(kk)[0]
    arr, f = index_fn(k)
    if arr.ndim != 1:
        raise Unsupported("assignment with a matrix of indices")
    n = arr.shape[0]
    if isinstance(n, int):
        for i in range(n):
            kk = list(key)
            kk[p] = mk(f((IP.const(i),)))
            if isinstance(val, A):
                # val broadcast against shape with axis p replaced
                v = val
                vs = len([q for q in key])
                ax = p - (len(key) - v.ndim)
                if ax < 0 or (isinstance(v.shape[ax], int) and v.shape[ax] == 1):
                    vi = v if ax < 0 else index(v, tuple(slice(None) if a != ax else 0 for a in range(v.ndim)))
                else:
                    vi = index(v, tuple(slice(None) if a != ax else i for a in range(v.ndim)))
            else:
                vi = val
            setindex(x, tuple(kk), vi)
        return
    raise Unsupported("assignment with a symbolic index array")


# -------------------------------------------------------------------- reshape
def reshape(x, shape):
    if isinstance(shape, (int, SI)):
        shape = (shape,)
    shape = list(shape)
    old = list(x.shape)
    if shape.count(-1) if all(isinstance(s, int) for s in shape) else sum(
            1 for s in shape if isinstance(s, int) and s == -1):
        k = next(i for i, s in enumerate(shape) if isinstance(s, int) and s == -1)
        rest = IP.const(1)
        for i, s in enumerate(shape):
            if i != k:
                rest = rest * ip(s)
        tot = IP.const(1)
        for d in old:
            tot = tot * ip(d)
        if rest.isconst() and rest.cval() == 1:
            shape[k] = mk(tot)
        else:
            q = core.idiv(tot, rest)
            shape[k] = q
            if not surely_eq(mk(ip(q) * rest), mk(tot)):
                raise Unsupported("reshape with non-dividing -1")
    tot_new = IP.const(1)
    for s in shape:
        tot_new = tot_new * ip(s)
    tot_old = IP.const(1)
    for d in old:
        tot_old = tot_old * ip(d)
    if not surely_eq(mk(tot_new), mk(tot_old)):
        if not dims_equal(mk(tot_new), mk(tot_old)):
            raise ValueError(f"cannot reshape array of size {mk(tot_old)} into shape {tuple(shape)}")
    # only unit axes added / removed: a view
    o = [i for i, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    s = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(o) == len(s) and all(surely_eq(old[a], shape[b]) for a, b in zip(o, s)):
        m = dict(zip(o, s))
        sel = x.sel or [("ax", k, IP.const(0), 1) for k in range(x.ndim)]
        nsel = []
        for t in sel:
            if t[0] == "fix":
                nsel.append(t)
            elif t[1] in m:
                nsel.append(("ax", m[t[1]], t[2], t[3]))
            else:
                nsel.append(("fix", t[2]))
        return A(shape, None, x.kind, {m[a]: st for a, st in x.struct.items() if a in m}, store=x.store, sel=nsel)
    f = x.snap()
    xstruct, base, kind = x.struct, x.store, x.kind
    del x
    # general: align groups of axes
    groups = align(old, shape)
    struct = {}
    for og, sg in groups:
        if len(sg) == 1 and len(og) > 1:
            st = None
            for a in reversed(og):
                inner = xstruct.get(a)
                if st is None:
                    st = inner
                    n2 = ip(old[a])
                    first = True
                else:
                    st = Prod(old[a], mk(n2), inner, st)
                    n2 = n2 * ip(old[a])
            struct[sg[0]] = st
        elif len(sg) == 1 and len(og) == 1 and og[0] in xstruct:
            struct[sg[0]] = xstruct[og[0]]

    def g(idx):
        full = [IP.const(0)] * len(old)
        for og, sg in groups:
            if len(og) == 1 and len(sg) == 1:
                full[og[0]] = idx[sg[0]]
            elif len(og) == 1:
                # split axis: flat index from the new digits
                p = IP({})
                for b in sg:
                    p = p * ip(shape[b]) + idx[b]
                p = PATH.norm(p)
                st = xstruct.get(og[0])
                register_digits(sg, shape, idx, old[og[0]])
                full[og[0]] = p
            elif len(sg) == 1:
                p = idx[sg[0]]
                rest = list(og)
                n2 = IP.const(1)
                sizes = []
                for a in reversed(og):
                    sizes.append(n2)
                    n2 = n2 * ip(old[a])
                sizes = sizes[::-1]
                st = struct[sg[0]]
                cur = p
                s_ = st
                for t, a in enumerate(og[:-1]):
                    rows = ip(old[a])
                    pr = s_ if isinstance(s_, Prod) else Prod(mk(rows), mk(sizes[t]))
                    i, j = pr.decode(cur)
                    full[a] = i
                    cur = j
                    s_ = pr.s2
                full[og[-1]] = cur
            else:
                # m-to-n: go through the flat index
                p = IP({})
                for b in sg:
                    p = p * ip(shape[b]) + idx[b]
                cur = p
                n2 = IP.const(1)
                sizes = []
                for a in reversed(og):
                    sizes.append(n2)
                    n2 = n2 * ip(old[a])
                sizes = sizes[::-1]
                for t, a in enumerate(og[:-1]):
                    i, j = digits(cur, ip(old[a]), sizes[t])
                    full[a] = i
                    cur = j
                full[og[-1]] = cur
        return f(tuple(full))
    out = A(shape, memo(g), kind, struct)
    out.store.alias = (weakref.ref(base),)
    base.alias = tuple(r for r in base.alias if r() is not None) + (weakref.ref(out.store),)
    del base
    return out


def register_digits(sg, shape, idx, n):
    """remember that the flat index of these digits decodes to them"""
    # nested right-assoc product structure
    p = idx[sg[-1]]
    n2 = ip(shape[sg[-1]])
    st = None
    for b in reversed(sg[:-1]):
        s = Prod(shape[b], mk(n2), None, st)
        p = reg(s, idx[b], p)
        st = s
        n2 = n2 * ip(shape[b])


def align(old, new):
    """group axes so that products agree group by group"""
    out = []
    i = j = 0
    while i < len(old) or j < len(new):
        og, sg = [], []
        po_, pn = IP.const(1), IP.const(1)
        if i < len(old):
            og.append(i)
            po_ = po_ * ip(old[i])
            i += 1
        if j < len(new):
            sg.append(j)
            pn = pn * ip(new[j])
            j += 1
        k = 0
        while not surely_eq(mk(po_), mk(pn)):
            k += 1
            if k > 20:
                raise Unsupported("reshape alignment")
            # advance the side that divides the other
            adv_old = None
            if i < len(old) and j < len(new):
                q = core.poly_exact_div(pn, po_) if po_.d else None
                adv_old = q is not None and not (q.isconst() and q.cval() < 1)
            elif i < len(old):
                adv_old = True
            elif j < len(new):
                adv_old = False
            else:
                raise Unsupported("reshape alignment")
            if adv_old:
                og.append(i)
                po_ = po_ * ip(old[i])
                i += 1
            else:
                sg.append(j)
                pn = pn * ip(new[j])
                j += 1
        out.append((og, sg))
    # attach leftovers of size one
    res = []
    for og, sg in out:
        if not og or not sg:
            continue
        res.append((og, sg))
    return res


# ----------------------------------------------------------------- reductions
def canon_fun(f, n, tag, extra=()):
    """opaque value of an order-type reduction: keyed by the normal form of the
    generic element (bound variable blinded) and the range"""
    raise NotImplementedError


def reduce_(op, x, axis, keepdims=False, ddof=0):
    x = asarr(x)
    if axis is None:
        axes = tuple(range(x.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(a % x.ndim for a in axis)
    else:
        if not (-x.ndim <= axis < x.ndim):
            raise np.exceptions.AxisError(f"axis {axis} is out of bounds for array of dimension {x.ndim}")
        axes = (axis % x.ndim,)
    f = x.snap()
    if x.kind == "b":
        f = bool_fn(f)
    rest = [k for k in range(x.ndim) if k not in axes]
    shape = x.shape

    def fullidx(ridx, sidx_):
        full = [None] * x.ndim
        for k, i in zip(rest, ridx):
            full[k] = i
        for k, i in zip(axes, sidx_):
            full[k] = i
        return tuple(full)

    def total(ridx, g):
        def rec(t, pre):
            if t == len(axes):
                return g(f(fullidx(ridx, pre)))
            k = axes[t]
            return axis_sum(ip(shape[k]), x.struct.get(k), lambda v: rec(t + 1, pre + (v,)))
        return rec(0, ())

    cnt = IP.const(1)
    for k in axes:
        cnt = cnt * ip(shape[k])

    if op in ("mean", "std", "var", "max", "min"):
        if not PATH.entails(cmp0(cnt, "gt")):
            if op in ("max", "min") and not (mk(cnt) > 0):
                raise ValueError("zero-size array to reduction operation which has no identity")

    def val(ridx):
        if op == "sum":
            return total(ridx, lambda t: t)
        if op == "mean":
            return total(ridx, lambda t: t) * T.pw(T.from_int(cnt), -1)
        if op in ("var", "std"):
            m = total(ridx, lambda t: t) * T.pw(T.from_int(cnt), -1)
            v = total(ridx, lambda t: (t - m) * (t - m)) * T.pw(T.from_int(cnt - IP.const(ddof)), -1)
            return T.fn_sqrt(v) if op == "std" else v
        if op in ("max", "min"):
            return minmax_red(op, [ip(shape[k]) for k in axes], lambda pre: f(fullidx(ridx, pre)))
        if op == "prod":
            c = PATH.norm(cnt)
            if len(axes) != 1 or not c.isconst():
                raise Unsupported("product over a symbolic axis")
            r = T.UNIT
            for i in range(int(c.cval())):
                r = r * f(fullidx(ridx, (IP.const(i),)))
            return r
        raise Unsupported(op)
    kind = x.kind if op in ("sum", "prod", "max", "min") and x.kind in "i" else "f"
    oshape = [shape[k] for k in rest]
    if not rest and not keepdims:
        t = val(())
        if kind == "i":
            try:
                return mk(po2ip(t))
            except Unsupported:
                pass
        return SR(t)
    ostruct = {i: x.struct[k] for i, k in enumerate(rest) if k in x.struct}
    r = A(oshape, memo(val), kind, ostruct)
    if keepdims:
        return index(r, tuple(None if k in axes else slice(None) for k in range(x.ndim)))
    return r


def minmax_red(op, dims, f):
    """max / min over a box: opaque function of the (blinded) generic element"""
    dims = [PATH.norm(d) for d in dims]
    if all(d.isconst() for d in dims):
        n = 1
        for d in dims:
            n *= int(d.cval())
        if n <= 6:
            r = None
            for t in itertools.product(*[range(int(d.cval())) for d in dims]):
                e = f(tuple(IP.const(i) for i in t))
                r = e if r is None else minmax2(op, r, e)
            return r
    st = PATH.push()
    try:
        one = [d.isconst() and d.cval() == 1 for d in dims]
        vs = [T.fresh() for _ in dims]
        for v, d in zip(vs, dims):
            PATH.assume(core.inrange(v, d))
        e = f(tuple(IP.const(0) if o else IP.var(v) for v, o in zip(vs, one)))
    finally:
        PATH.pop(st)
    return minmax_term(op, [v for v, o in zip(vs, one) if not o], [d for d, o in zip(dims, one) if not o], e)


def minmax_term(op, vs, dims, e):
    """affine parts not depending on the index move outside:
    max(c*g + d) = c*max(g) + d for c > 0"""
    dep = set(vs)
    const_part = Po({m: c for m, c in e.d.items() if not (Po({m: c}).fvars() & dep)})
    var_part = e - const_part
    if not var_part.d:
        return const_part
    # common nonnegative factor independent of the index
    fac, inner = T.pull_common(var_part, lambda a, k: T.nonneg_atom(a, k) or T.is_positive(T.atom_pow(a, k)) or
                               T.real_entails(T.atom_pow(a, k), "gt"), dep)
    lead = min(inner.d, key=T.mrepr)
    c = abs(inner.d[lead])
    fac, inner = fac.scale(c), inner.scale(1 / c)
    inner = T.inv_rewrite(inner)
    # sign normalisation: min(g) = -max(-g)
    if not inner.d:
        return const_part
    lead = min(inner.d, key=T.mrepr)
    flip = op == "min"
    if flip:
        inner = -inner
    vs, dims = list(vs), list(dims)
    # max of max: one maximum over all the indices
    for _ in range(4):
        if len(inner.d) != 1 or flip:
            break
        (m, cc), = inner.d.items()
        if cc != 1 or m[0] or m[1] or len(m[2]) != 1 or m[2][0][1] != 1:
            break
        a = m[2][0][0]
        if a[0] != "f" or a[1] not in ("max", "maxabs") or any(d.vars() & set(vs) for d in a[2][1:]):
            break
        new = [T.fresh() for _ in a[2][1:]]
        inner = a[2][0].subst({f"%{i}": IP.var(x) for i, x in enumerate(new)})
        vs, dims = vs + new, dims + list(a[2][1:])
    # indices that do not occur (the box is not empty), and a canonical order of the others
    occ = inner.fvars()
    keep = [(x, d) for x, d in zip(vs, dims) if x in occ]
    if keep and len(keep) <= 3:
        keep = min(itertools.permutations(keep),
                   key=lambda q: (blind(inner, [x for x, _ in q]).skey(), repr([d for _, d in q])))
        vs, dims = [x for x, _ in keep], [d for _, d in keep]
    key = blind(inner, vs)
    at = T.atom(("f", "max", (key,) + tuple(dims)))
    nonneg = all(c > 0 and all((a[0] == "f" and a[1] in ("abs", "sqrt", "norm")) for a, k in m[2]) and m[2]
                 for m, c in inner.d.items())
    if nonneg and not flip:
        at = T.atom(("f", "maxabs", (key,) + tuple(dims)))
    out = at * fac
    return const_part - out if flip else const_part + out


def blind(p, vs):
    return p.subst({v: IP.var(f"%{i}") for i, v in enumerate(vs)})


# --------------------------------------------------------------------- matmul
def matmul(a, b):
    a, b = norm_operand(a), norm_operand(b)
    if not isinstance(a, A) or not isinstance(b, A) or a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        if b.ndim == 1:
            pass
        elif a.ndim > 2 and b.ndim == 2 or a.ndim == 2 and b.ndim > 2:
            raise Unsupported("batched matmul")
        else:
            raise Unsupported("batched matmul")
    n, m = a.shape[-1], b.shape[0 if b.ndim == 1 else -2]
    if not surely_eq(n, m):
        if not dims_equal(n, m):
            raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc "
                             f"signature (n?,k),(k,m?)->(n?,m?) (size {m} is different from {n})")
    fa, fb = a.snap(), b.snap()
    st = a.struct.get(a.ndim - 1) or b.struct.get(0 if b.ndim == 1 else b.ndim - 2)
    nd = ip(n)
    sa = a.shape[:-1]
    sb = () if b.ndim == 1 else (b.shape[-1],)
    la = len(sa)

    def val(idx):
        ia, ib = idx[:la], idx[la:]
        return axis_sum(nd, st, lambda v: fa(ia + (v,)) * fb((v,) + ib))
    struct = {k: s for k, s in a.struct.items() if k < la}
    if b.ndim == 2 and 1 in b.struct:
        struct[la] = b.struct[1]
    kind = "i" if a.kind == "i" and b.kind == "i" else "f"
    if not sa and not sb:
        return SR(val(()))
    return A(sa + sb, memo(val), kind, struct)


def index_array(name, p, n):
    """p arbitrary integers in [0, n)"""
    def f(idx):
        i = PATH.norm(idx[0])
        if PATH.norm(ip(n)) == IP.const(1):
            return T.ZERO
        if any(v.startswith(("x!", "%", "!b", "?")) for v in i.vars()):
            raise Unsupported("an index array under a sum")
        v = f"{name}[{i!r}]"
        PATH.assume(core.inrange(v, n))
        return T.from_int(IP.var(v))
    a = A((p,), f, "i")
    a.inbounds = n
    return a


def fresh_array(name, shape, kind="f", sign=None):
    """an unconstrained symbolic array"""
    PATH.realdecl[name] = sign
    return A(shape, lambda idx: T.arr(name, idx), kind)
