"""Symbolic integers, symbolic Booleans and path exploration.

A *symbolic integer* is a polynomial with rational coefficients over integer
unknowns (array dimensions, indices).  All reasoning about them is done by z3
over mathematical integers under the current path condition.
"""
import sys, os, time
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The program under verification left the supported subset."""


class PathEnd(BaseException):
    """The current path is infeasible / finished (never caught by the program)."""


# ---------------------------------------------------------------- polynomials
# IPoly: dict {mono: Fraction}, mono = tuple of (var, exp) sorted.  Stored
# frozen as a tuple of sorted items for hashing.

def _mono_mul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


class IP:
    """Integer-valued polynomial (immutable)."""
    __slots__ = ("d", "_k", "_h", "_z")

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}
        self._k = None
        self._z = None

    @staticmethod
    def const(c):
        return IP({(): Fraction(c)} if c else {})

    @staticmethod
    def var(n):
        return IP({((n, 1),): Fraction(1)})

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, IP) and self.d == o.d

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return IP(d)

    def __neg__(self):
        return IP({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = _mono_mul(m, n)
                d[k] = d.get(k, 0) + c * e
        return IP(d)

    def scale(self, f):
        return IP({m: c * f for m, c in self.d.items()})

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def lincoef(self, v):
        """Coefficient c if self = c*v + rest (c constant, rest without v); else None."""
        c = Fraction(0)
        for m, k in self.d.items():
            if any(w == v for w, _ in m):
                if m == ((v, 1),):
                    c = k
                else:
                    return None
        return c

    def subst(self, s):
        """s: dict var -> IP"""
        if not any(v in s for m in self.d for v, _ in m):
            return self
        out = IP({})
        for m, c in self.d.items():
            t = IP({(): c})
            rest = []
            for v, e in m:
                if v in s:
                    for _ in range(e):
                        t = t * s[v]
                else:
                    rest.append((v, e))
            if rest:
                t = t * IP({tuple(rest): Fraction(1)})
            out = out + t
        return out

    def den(self):
        from math import lcm
        r = 1
        for c in self.d.values():
            r = lcm(r, c.denominator)
        return r

    def z(self, mult=1):
        """z3 integer term for mult*self (mult must clear denominators)."""
        if mult == 1 and self._z is not None:
            return self._z
        ts = []
        for m, c in self.d.items():
            c = c * mult
            assert c.denominator == 1, (self, mult)
            t = None
            for v, e in m:
                for _ in range(e):
                    t = zvar(v) if t is None else t * zvar(v)
            if t is None:
                t = z3.IntVal(int(c))
            elif c != 1:
                t = int(c) * t
            ts.append(t)
        r = z3.IntVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
        if mult == 1:
            self._z = r
        return r

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: (-len(x[0]), x[0])):
            s = "*".join(v if e == 1 else f"{v}^{e}" for v, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return "+".join(out).replace("+-", "-")


_ZV = {}


def zvar(n):
    v = _ZV.get(n)
    if v is None:
        v = _ZV[n] = z3.Int(n)
    return v


def ip(x):
    """Coerce int / SI / IP to IP."""
    if isinstance(x, IP):
        return x
    if isinstance(x, SI):
        return x.p
    if isinstance(x, bool):
        return IP.const(int(x))
    if isinstance(x, int):
        return IP.const(x)
    import numpy as np
    if isinstance(x, np.integer):
        return IP.const(int(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        return IP.const(x)
    raise Unsupported(f"not an integer: {type(x).__name__} {x!r}"[:100])


def mk(p):
    """IP -> python int or SI."""
    p = PATH.norm(p)
    if p.isconst():
        c = p.cval()
        if c.denominator != 1:
            return c
        return int(c)
    return SI(p)


# ------------------------------------------------------------------ booleans
class SB:
    """Symbolic Boolean wrapping a z3 formula."""
    __slots__ = ("z", "what")

    def __init__(self, z, what=""):
        self.z = z
        self.what = what

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return PATH.branch(self.z, self.what)

    def __and__(self, o):
        return SB(z3.And(self.z, zb(o)), self.what)
    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.z, zb(o)), self.what)
    __ror__ = __or__

    def __xor__(self, o):
        return SB(z3.Xor(self.z, zb(o)), self.what)
    __rxor__ = __xor__

    def __invert__(self):
        return SB(z3.Not(self.z), self.what)

    def __eq__(self, o):
        return SB(self.z == zb(o))

    def __ne__(self, o):
        return SB(self.z != zb(o))

    def __hash__(self):
        return 0

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    shape = ()
    ndim = 0

    def __repr__(self):
        return f"SB({self.z})"


def zb(x):
    if isinstance(x, SB):
        return x.z
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if x is None:
        return z3.BoolVal(False)
    raise Unsupported(f"not Boolean: {type(x)}")


def mkb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SB(z)


def znot(x):
    return (not x) if isinstance(x, bool) else ~x


def cmp0(p, op):
    """z3 formula / bool for  p op 0."""
    if p.isconst():
        c = p.cval()
        return {"eq": c == 0, "ge": c >= 0, "gt": c > 0, "ne": c != 0,
                "le": c <= 0, "lt": c < 0}[op]
    zt = p.z(p.den())
    return {"eq": lambda: zt == 0, "ge": lambda: zt >= 0, "gt": lambda: zt > 0,
            "ne": lambda: zt != 0, "le": lambda: zt <= 0, "lt": lambda: zt < 0}[op]()


def inrange(v, n):
    """0 <= v < n"""
    return z3.And(zvar(v) >= 0, cmp0(PATH.norm(ip(n)) - IP.var(v) - IP.const(1), "ge"))


class SI:
    """Symbolic integer (behaves like int as far as possible)."""
    __slots__ = ("p",)
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # arithmetic
    def _bin(self, o, f):
        import numpy as np
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, SI, np.integer)):
            return mk(f(self.p, ip(o)))
        return None

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return r if r is not None else _real(self).__add__(o)
    def __radd__(self, o):
        r = self._bin(o, lambda a, b: b + a)
        return r if r is not None else _real(self).__radd__(o)
    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return r if r is not None else _real(self).__sub__(o)
    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return r if r is not None else _real(self).__rsub__(o)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return SymRepeat(o, self)
        r = self._bin(o, lambda a, b: a * b)
        return r if r is not None else _real(self).__mul__(o)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return SymRepeat(o, self)
        r = self._bin(o, lambda a, b: b * a)
        return r if r is not None else _real(self).__rmul__(o)

    def __neg__(self):
        return mk(-self.p)
    def __pos__(self):
        return self
    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, e):
        if isinstance(e, int) and e >= 0:
            r = IP.const(1)
            for _ in range(e):
                r = r * self.p
            return mk(r)
        # integer root:  b ** (1/e)  where b = c**e
        if isinstance(e, float) or isinstance(e, Fraction):
            for q in (2, 3, 4):
                if abs(float(e) - 1 / q) < 1e-15:
                    r = iroot(self.p, q)
                    if r is not None:
                        return mk(r)
        return _real(self) ** e

    def __floordiv__(self, o):
        import numpy as np
        if isinstance(o, (int, np.integer)) and o > 0:
            return idiv(self.p, IP.const(int(o)))
        if isinstance(o, SI):
            return idiv(self.p, o.p)
        raise Unsupported("floordiv")

    def __rfloordiv__(self, o):
        return idiv(ip(o), self.p)

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __truediv__(self, o):
        return _real(self) / o

    def __rtruediv__(self, o):
        return o / _real(self)

    # comparisons
    def _cmp(self, o, op):
        import numpy as np
        if isinstance(o, (int, SI, np.integer)):
            b = cmp0(PATH.norm(self.p - ip(o)), op)
            return b if isinstance(b, bool) else SB(b)
        if o is None or isinstance(o, (str, tuple, list)):
            if op == "eq":
                return False
            if op == "ne":
                return True
        if isinstance(o, float):
            import math
            if o == math.inf:
                return op in ("lt", "le", "ne")
            if o == -math.inf:
                return op in ("gt", "ge", "ne")
            if o == int(o):
                return self._cmp(int(o), op)
            if op == "eq":
                return False
            if op == "ne":
                return True
            return self._cmp(math.floor(o), {"lt": "le", "le": "le", "gt": "gt", "ge": "gt"}[op])
        return getattr(_real(self), {"eq": "__eq__", "ne": "__ne__", "lt": "__lt__", "le": "__le__",
                                     "gt": "__gt__", "ge": "__ge__"}[op])(o)

    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")
    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self._cmp(0, "ne"))

    def __hash__(self):
        return 7            # equality is decided by the path condition

    def __index__(self):
        raise Unsupported("concrete value of a symbolic integer needed")

    def __int__(self):
        raise Unsupported("int() of a symbolic integer outside the verified namespace")

    __float__ = __int__

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f"<{self.p!r}>"

    def __format__(self, s):
        return f"<{self.p!r}>"

    def is_integer(self):
        return True

    def item(self):
        return self

    def astype(self, t):
        return self

    real = property(lambda s: s)
    shape = ()
    ndim = 0
    size = 1


def _real(x):
    from . import arrays
    return arrays.SR(arrays.T.from_int(ip(x)))


class SymRepeat:
    """[x] * n with symbolic n."""

    def __init__(self, seq, n):
        if len(seq) != 1:
            raise Unsupported("repeat of a long list")
        self.elem = seq[0]
        self.n = n

    def __iter__(self):
        raise Unsupported("iteration over symbolic-length list")


def integer_valued(p):
    """True if the polynomial takes integer values at all integer points.

    A multivariate polynomial of degree d is integer valued iff it is on the
    grid {0..d}^k (finite-difference criterion)."""
    if p.den() == 1:
        return True
    vs = sorted(p.vars())
    deg = max((sum(e for _, e in m) for m in p.d), default=0)
    if (deg + 1) ** len(vs) > 5000:
        return False
    import itertools
    for pt in itertools.product(range(deg + 1), repeat=len(vs)):
        val = Fraction(0)
        env = dict(zip(vs, pt))
        for m, c in p.d.items():
            t = c
            for v, e in m:
                t *= env[v] ** e
            val += t
        if val.denominator != 1:
            return False
    return True


def idiv(a, b):
    """floor division of IPs."""
    if b.isconst():
        q = a.scale(1 / b.cval())
        if integer_valued(q):
            return mk(q)
    else:
        q = poly_exact_div(a, b)
        if q is not None and integer_valued(q):
            PATH.require_nz(b)
            return mk(q)
    k = ("div", a.key, b.key)
    v = PATH.memo.get(k)
    if v is None:
        v = PATH.fresh("q")
        PATH.memo[k] = v
        q = IP.var(v)
        m = a.den()
        if m != 1 or b.den() != 1:
            raise Unsupported("division of non-integral polynomial")
        PATH.assume(z3.Or(
            z3.And(b.z() > 0, (b * q).z() <= a.z(), a.z() < (b * q + b).z()),
            z3.And(b.z() < 0, (b * q).z() >= a.z(), a.z() > (b * q + b).z())))
    return mk(IP.var(v))


def poly_exact_div(a, b):
    """a / b if b divides a as polynomials and b is a monomial; else None"""
    if len(b.d) != 1:
        # try: quotient with the same vars via division by leading term
        return _poly_div(a, b)
    (m, c), = b.d.items()
    out = {}
    for n, k in a.d.items():
        d = dict(n)
        for v, e in m:
            if d.get(v, 0) < e:
                return None
            d[v] -= e
        out[tuple(sorted((v, e) for v, e in d.items() if e))] = k / c
    return IP(out)


def _lead(p):
    return max(p.d, key=lambda m: (sum(e for _, e in m), m))


def _poly_div(a, b):
    q = IP({})
    lb = _lead(b)
    n = 0
    while a.d:
        n += 1
        if n > 50:
            return None
        la = _lead(a)
        d = dict(la)
        for v, e in lb:
            if d.get(v, 0) < e:
                return None
            d[v] -= e
        t = IP({tuple(sorted((v, e) for v, e in d.items() if e)): a.d[la] / b.d[lb]})
        q = q + t
        a = a - t * b
    return q


def iroot(p, q):
    """polynomial r with r**q == p (r nonnegative on the path), or None."""
    if not p.d:
        return p
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c.denominator != 1 or any(e % q for _, e in m):
            return None
        rt = round(int(c) ** (1 / q)) if c > 0 else None
        if rt is None or rt ** q != c:
            return None
        r = IP({tuple((v, e // q) for v, e in m): Fraction(rt)})
    else:
        # r = a*v + b  for a single leading variable power (sufficient here)
        lm = _lead(p)
        if any(e % q for _, e in lm):
            return None
        c = p.d[lm]
        if c.denominator != 1 and False:
            return None
        num, den = c.numerator, c.denominator
        if num <= 0:
            return None
        rn, rd = round(num ** (1 / q)), round(den ** (1 / q))
        if rn ** q != num or rd ** q != den:
            return None
        r = IP({tuple((v, e // q) for v, e in lm): Fraction(rn, rd)})
        for _ in range(6):
            pw = IP.const(1)
            for _i in range(q):
                pw = pw * r
            rem = p - pw
            if not rem.d:
                break
            lr = _lead(rem)
            # next term t: q * lead^(q-1) * t = lr
            lead = _lead(r)
            d = dict(lr)
            ok = True
            for v, e in lead:
                d[v] = d.get(v, 0) - e * (q - 1)
                if d[v] < 0:
                    ok = False
            if not ok:
                return None
            t = IP({tuple(sorted((v, e) for v, e in d.items() if e)):
                    rem.d[lr] / (q * r.d[lead] ** (q - 1))})
            r = r + t
        else:
            return None
    if PATH.entails(cmp0(r, "ge")):
        return r
    if PATH.entails(cmp0(r, "le")):
        return -r
    return None


# ---------------------------------------------------------------------- path
class Path:
    """One symbolic execution path (re-execution based exploration)."""

    def __init__(self):
        self.reset([])

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []           # list of (choice, nchoices, label)
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.counter = 0
        self.memo = {}
        self.sub = {}             # var -> IP (equalities found on the path)
        self.nz = []
        self.cache = {}
        self.queries = 0
        self.ztime = 0.0
        self.dims = {}            # name -> lower bound
        self.realdecl = {}
        self.sym2 = set()         # symmetric matrices
        self.desc = set()         # one-dimensional arrays in descending order
        self.notes = []
        self.rules = []
        self.onlearn = {}
        self.lost = False
        self.deadline = None
        self.scopes = 0
        self.branches = []
        self.locals = []          # case distinctions local to one obligation
        self._V = None

    # names
    def fresh(self, base="v"):
        self.counter += 1
        return f"{base}!{self.counter}"

    def norm(self, p):
        if self.sub and any(v in self.sub for m in p.d for v, _ in m):
            for _ in range(4):
                q = p.subst(self.sub)
                if q.d == p.d:
                    break
                p = q
        return p

    # facts
    def assume(self, z):
        if isinstance(z, bool):
            if not z:
                raise PathEnd("infeasible assumption")
            return
        if isinstance(z, SB):
            z = z.z
        self.pc.append(z)
        self.solver.add(z)
        self.cache.clear()

    def learn_eq(self, p):
        """The fact p == 0 became true: try to solve for a dimension variable."""
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                cc = p.lincoef(v)
                if cc is not None and cc != 0:
                    rest = (p - IP({m: c})).scale(-1 / cc)
                    if integer_valued(rest) and v not in rest.vars():
                        score = (rest.isconst(), v)
                        if best is None or score > best[0]:
                            best = (score, v, rest)
        if best:
            _, v, rest = best
            self.sub = {w: e.subst({v: rest}) for w, e in self.sub.items()}
            self.sub[v] = rest

    def push(self):
        self.solver.push()
        self.scopes += 1
        return len(self.pc), dict(self.sub), self.cache

    def pop(self, st):
        self.solver.pop()
        self.scopes -= 1
        del self.pc[st[0]:]
        self.sub = st[1]
        self.cache = {}

    def push_soft(self):
        """scope for the index variables of one obligation (may fork)"""
        self.solver.push()
        return len(self.pc), dict(self.sub), len(self.branches)

    def pop_soft(self, st):
        self.solver.pop()
        del self.pc[st[0]:]
        self.sub = st[1]
        self.cache = {}
        self.memo.pop("axioms", None)
        # decisions about dimensions made inside the scope stay
        for z in self.branches[st[2]:]:
            if zvars(z) <= set(self.dims):
                self.assume(z)
                self._learn(z)

    def check(self, *zs):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this contract exhausted")
        t = time.time()
        self.queries += 1
        r = self.solver.check(*zs)
        self.ztime += time.time() - t
        return r

    def entails(self, z):
        if isinstance(z, bool):
            return z
        if isinstance(z, SB):
            z = z.z
        k = z.get_id()
        c = self.cache.get(k)
        if c is not None and c[0].eq(z):
            return c[1]
        r = self.check(z3.Not(z)) == z3.unsat
        self.cache[k] = (z, r)
        return r

    def feasible(self, z):
        if isinstance(z, bool):
            return z
        return self.check(z) != z3.unsat

    def require_nz(self, p):
        if not self.entails(cmp0(p, "ne")):
            self.nz.append(p)

    # decisions
    def choose(self, n, label=""):
        """Nondeterministic choice among n alternatives (all explored)."""
        prefix, trace = self.locals[-1] if self.locals else (self.prefix, self.trace)
        i = len(trace)
        c = prefix[i] if i < len(prefix) else 0
        trace.append((c, n, label))
        return c

    def locally(self, body, limit=400):
        """run body() in a scope of its own, for every case it distinguishes"""
        stack, out = [[]], []
        while stack:
            pre = stack.pop()
            keep = {k: type(v)(v) for k, v in self.memo.items() if type(v) in (list, dict, set)}
            snap = dict(self.memo), list(self.rules), dict(self.onlearn), list(self.nz), set(self.sym2), set(self.desc), \
                dict(self.dims)
            tr = []
            self.locals.append((pre, tr))
            st = self.push_soft()
            try:
                out.append(body())
            except PathEnd:
                pass
            finally:
                if tr:
                    del self.branches[st[2]:]
                self.pop_soft(st)
                self.locals.pop()
                if tr:
                    memo, self.rules, self.onlearn, self.nz, self.sym2, self.desc, self.dims = snap
                    self.memo = memo
                    for k, v in keep.items():
                        self.memo[k] = v
                    self.memo.pop("axioms", None)
            for i in range(len(pre), len(tr)):
                c, m, _ = tr[i]
                for alt in range(c + 1, m):
                    stack.append([x[0] for x in tr[:i]] + [alt])
            if len(out) + len(stack) > limit:
                raise Unsupported("too many cases in one obligation")
        return out

    def branch(self, z, what=""):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = ("br", z.get_id())
        c = self.cache.get(k)
        if c is not None and c[0].eq(z):
            t, f = c[1]
        else:
            t = self.feasible(z)
            f = self.feasible(z3.Not(z))
            self.cache[k] = (z, (t, f))
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd("infeasible path")
        if self.scopes:
            raise Unsupported("case distinction on a quantified variable")
        c = self.choose(2, what or str(z)[:80])
        if c == 0:
            self.branches.append(z)
            self.assume(z)
            self._learn(z)
            return True
        z = z3.simplify(z3.Not(z))
        self.branches.append(z)
        self.assume(z)
        self._learn(z)
        return False

    def _learn(self, z):
        if z3.is_and(z):
            for c in z.children():
                self._learn(c)
            return
        if z3.is_const(z) and z.decl().name() in self.onlearn:
            self.onlearn.pop(z.decl().name())()
            return
        if z3.is_eq(z) and z.arg(0).sort() == z3.IntSort():
            p = z2ip(z.arg(0))
            q = z2ip(z.arg(1))
            if p is not None and q is not None:
                self.learn_eq(p - q)
        # dimension facts such as  n <= 1  with n >= 1
        if z3.is_le(z) or z3.is_ge(z) or z3.is_not(z):
            zv = zvars(z)
            for v, lo in list(self.dims.items()):
                if v in self.sub:
                    continue
                if v in zv and self.entails(zvar(v) == lo):
                    self.learn_eq(IP.var(v) - IP.const(lo))
            # tight inequality: p <= q where p >= q is known
            w = z.arg(0) if z3.is_not(z) else z
            if (z3.is_le(w) or z3.is_ge(w) or z3.is_lt(w) or z3.is_gt(w)) and w.arg(0).sort() == z3.IntSort():
                p, q = z2ip(w.arg(0)), z2ip(w.arg(1))
                if p is not None and q is not None:
                    d = self.norm(p - q)
                    if len(d.vars()) > 1:
                        le = z3.is_le(z) or z3.is_lt(z) or z3.is_not(z) and (z3.is_ge(w) or z3.is_gt(w))
                        for k in (0, -1 if le else 1):
                            if self.entails(cmp0(d - IP.const(k), "eq")):
                                self.learn_eq(d - IP.const(k))
                                break


def zvars(z):
    out, todo, seen = set(), [z], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


def z2ip(t):
    if z3.is_int_value(t):
        return IP.const(t.as_long())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return IP.var(t.decl().name())
    k = t.decl().kind()
    ch = [z2ip(c) for c in t.children()]
    if any(c is None for c in ch):
        return None
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    if k == z3.Z3_OP_POWER and ch[1].isconst():
        r = IP.const(1)
        for _ in range(int(ch[1].cval())):
            r = r * ch[0]
        return r
    return None


PATH = Path()


def explore(run, budget_s=60.0, max_paths=2000, on_path=None):
    """Run `run()` on every path.  Yields nothing; returns list of outcomes."""
    t0 = time.time()
    stack = [[]]
    outcomes = []
    n = 0
    while stack:
        if time.time() - t0 > budget_s or n >= max_paths:
            outcomes.append(("budget", len(stack), None))
            break
        prefix = stack.pop()
        PATH.reset(prefix)
        PATH.deadline = t0 + budget_s
        n += 1
        try:
            res = run()
            out = ("done", res, None)
        except PathEnd as ex:
            out = ("infeasible", str(ex), None)
        except Unsupported as ex:
            out = ("unsupported", str(ex), ex)
        except RecursionError as ex:
            out = ("unsupported", "recursion", ex)
        except Exception as ex:                 # crash of the program under verification
            out = ("exception", f"{type(ex).__name__}: {ex}", ex)
        outcomes.append(out)
        if on_path:
            on_path(out, PATH)
        # children: flip every decision after the prefix
        tr = PATH.trace
        for i in range(len(prefix), len(tr)):
            c, m, _ = tr[i]
            base = [x[0] for x in tr[:i]]
            for alt in range(c + 1, m):
                stack.append(base + [alt])
    return outcomes
