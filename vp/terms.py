"""Normal forms for real-valued terms with indexed sums.

A term (class Po) is a finite sum  sum_m c_m * m  with rational c_m; each m is

    Sum_{b_1,b_2,... | constraints}  prod_k atom_k ** e_k

with bound integer indices b_i ranging over the integer points satisfying the
(linear or polynomial) constraints.  Atoms: array elements at symbolic
indices, integer unknowns read as reals, powers of non-monomial terms,
uninterpreted / axiomatised functions, indicators.
"""
import itertools
from fractions import Fraction
import z3
from . import core
from .core import IP, SI, SB, ip, mk, cmp0, PATH, Unsupported, integer_valued

ONE = Fraction(1)


# ------------------------------------------------------------------- atoms
def akey(a):
    return _ak(a)


_AK = {}


def _ak(a):
    k = _AK.get(a)
    if k is None:
        t = a[0]
        if t == "a":
            k = f"a:{a[1]}[" + ",".join(map(repr, a[2])) + "]"
        elif t == "v":
            k = "v:" + a[1]
        elif t == "p":
            k = "p:(" + a[1].skey() + ")"
        elif t == "f":
            k = f"f:{a[1]}(" + ",".join(x.skey() if isinstance(x, Po) else repr(x) for x in a[2]) + ")"
        elif t == "ind":
            k = f"ind:{a[1]}(" + a[2].skey() + ")"
        else:
            raise AssertionError(a)
        if len(_AK) > 200000:
            _AK.clear()
        _AK[a] = k
    return k


def a_vars(a, out):
    t = a[0]
    if t == "a":
        for x in a[2]:
            out |= x.vars()
    elif t == "v":
        out.add(a[1])
    elif t == "p":
        out |= a[1].fvars()
    elif t == "f":
        for x in a[2]:
            if isinstance(x, Po):
                out |= x.fvars()
            elif isinstance(x, IP):
                out |= x.vars()
    elif t == "ind":
        out |= a[2].fvars()
    return out


def a_height(a):
    t = a[0]
    if t in ("a", "v"):
        return 0
    if t == "p" or t == "ind":
        return (a[1] if t == "p" else a[2]).height() + 1
    return max([x.height() + 1 for x in a[2] if isinstance(x, Po)], default=0)


def a_subst(a, s):
    """-> Po (substituting integer variables by IPs)."""
    t = a[0]
    if t == "a":
        ix = tuple(x.subst(s) for x in a[2])
        return ("a", a[1], symsort(ix) if a[1] in PATH.sym2 else ix)
    if t == "p":
        return ("p", a[1].subst(s))
    if t == "f":
        return ("f", a[1], tuple(x.subst(s) if isinstance(x, (Po, IP)) else x for x in a[2]))
    if t == "ind":
        return ("ind", a[1], a[2].subst(s))
    raise AssertionError


# ------------------------------------------------------------------ the terms
class Po:
    __slots__ = ("d", "_s", "_fv", "_h", "_hash")

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}
        self._s = self._fv = self._h = self._hash = None

    def __eq__(self, o):
        return isinstance(o, Po) and self.d == o.d

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.d.items()))
        return self._hash

    def skey(self):
        if self._s is None:
            self._s = "+".join(sorted(f"{c}*{mrepr(m)}" for m, c in self.d.items())) or "0"
        return self._s

    __repr__ = skey

    def fvars(self):
        if self._fv is None:
            out = set()
            for bs, cons, facs in self.d:
                o = set()
                for _, p in cons:
                    o |= p.vars()
                for a, e in facs:
                    a_vars(a, o)
                    if isinstance(e, IP):
                        o |= e.vars()
                out |= (o - set(bs))
            self._fv = out
        return self._fv

    def height(self):
        if self._h is None:
            h = 0
            for bs, cons, facs in self.d:
                for a, _ in facs:
                    h = max(h, a_height(a))
                if bs:
                    h = max(h, 1 + max([a_height(a) for a, _ in facs], default=0))
            self._h = h
        return self._h

    def isconst(self):
        return not self.d or (len(self.d) == 1 and ((), frozenset(), ()) in self.d)

    def cval(self):
        return self.d.get(((), frozenset(), ()), Fraction(0))

    def __add__(self, o):
        if not self.d:
            return o
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Po(d)

    def __neg__(self):
        return Po({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, f):
        if f == 1:
            return self
        return Po({m: c * f for m, c in self.d.items()})

    def __mul__(self, o):
        if o.isconst():
            return self.scale(o.cval())
        if self.isconst():
            return o.scale(self.cval())
        acc = {}
        if len(self.d) * len(o.d) > 20000:
            raise Unsupported("term too large")
        for m, c in self.d.items():
            for n, e in o.d.items():
                for mm, k in mono_mul(m, n):
                    acc[mm] = acc.get(mm, 0) + c * e * k
        return Po(acc)

    def subst(self, s):
        if not (self.fvars() & set(s)):
            return self
        acc = {}
        for (bs, cons, facs), c in self.d.items():
            ren = {b: IP.var(fresh()) for b in bs}
            s2 = {**s, **ren}
            for m, k in build(tuple(v_of(ren[b]) for b in bs),
                              [(t, p.subst(s2)) for t, p in cons],
                              [(a, e.subst(s2) if isinstance(e, IP) else e) for a, e in facs], s2).items():
                acc[m] = acc.get(m, 0) + c * k
        return Po(acc)


def v_of(p):
    (m, _), = p.d.items()
    return m[0][0]


def mrepr(m):
    bs, cons, facs = m
    s = "*".join(akey(a) + (f"^{e}" if e != 1 else "") for a, e in facs) or "1"
    if bs or cons:
        s = "S[" + ",".join(bs) + "|" + ",".join(sorted(f"{t}:{p!r}" for t, p in cons)) + "](" + s + ")"
    return s


_cnt = itertools.count()


def fresh():
    return f"x!{next(_cnt)}"


ZERO = Po({})


def const(c):
    c = Fraction(c)
    return Po({((), frozenset(), ()): c} if c else {})


UNIT = const(1)


def from_int(p):
    """IP -> Po"""
    d = {}
    for m, c in p.d.items():
        d[((), frozenset(), tuple(sorted(((("v", v), e) for v, e in m), key=lambda x: akey(x[0]))))] = c
    return Po(d)


def atom(a):
    return Po({((), frozenset(), ((a, 1),)): ONE})


def arr(name, idx):
    return atom(("a", name, symsort(idx) if name in PATH.sym2 else tuple(idx)))


def symsort(ix):
    """canonical order of the two indices of a symmetric matrix"""
    a, b = ix
    return (a, b) if repr(a) <= repr(b) else (b, a)


# --------------------------------------------------------- building monomials
def fac_norm(facs):
    """merge equal atoms; returns dict atom->exp"""
    d = {}
    for a, e in facs:
        if a in d:
            e = exp_add(d[a], e)
        d[a] = e
    out = {}
    for a, e in d.items():
        if isinstance(e, IP):
            if e.isconst():
                e = e.cval()
        if e == 0:
            continue
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if a[0] == "ind" and isinstance(e, int) and e > 1:
            e = 1
        out[a] = e
    return out


def exp_add(a, b):
    if isinstance(a, IP) or isinstance(b, IP):
        a = a if isinstance(a, IP) else IP.const(a)
        b = b if isinstance(b, IP) else IP.const(b)
        return a + b
    return a + b


def build(bs, cons, facs, s=None):
    """Normalise  Sum_{bs|cons} prod facs.  s: pending substitution on atoms.
    Returns {Mono: coef}."""
    extra = UNIT          # polynomial factor produced by expansion of atoms
    fl = []
    for a, e in facs:
        if s:
            if a[0] == "v":
                if a[1] in s:
                    t = s[a[1]]
                    if len(t.d) == 1 and () not in t.d and next(iter(t.d.values())) == 1:
                        (mm, _), = t.d.items()
                        for v, k in mm:
                            fl.append((("v", v), k * e))
                        continue
                    if isinstance(e, int) and e > 0:
                        for _ in range(e):
                            extra = extra * from_int(t)
                    else:
                        extra = extra * pw(from_int(t), e)
                    continue
            else:
                a = a_subst(a, s)
                if a[0] == "p":
                    extra = extra * pw(a[1], e)
                    continue
                if a[0] == "f":
                    t = refn(a)
                    extra = extra * (pw(t, e) if e != 1 else t)
                    continue
                if a[0] == "ind":
                    extra = extra * indicator(a[1], a[2])
                    continue
        fl.append((a, e))
    base = _canon(bs, cons, fac_norm(fl))
    if extra is UNIT or extra == UNIT:
        return base
    if not bs:
        return (Po(base) * extra).d
    # sum of products: multiply inside the binder
    acc = {}
    for (b2, c2, f2), k in extra.d.items():
        ren = {b: IP.var(fresh()) for b in b2}
        r = build(bs + tuple(v_of(ren[b]) for b in b2),
                  list(cons) + [(t, p.subst(ren)) for t, p in c2],
                  fl + [(x, e) for x, e in (f2 if not ren else _ren_facs(f2, ren))])
        for m, c in r.items():
            acc[m] = acc.get(m, 0) + c * k
    return acc


def _ren_facs(f2, ren):
    out = []
    for a, e in f2:
        if a[0] == "v":
            if a[1] in ren:
                a = ("v", v_of(ren[a[1]]))
        else:
            a = a_subst(a, ren)
        out.append((a, e.subst(ren) if isinstance(e, IP) else e))
    return out


def _canon(bs, cons, fd):
    """bs bound names (unique), cons list of (t, IP), fd dict atom->exp."""
    cons = list(cons)
    bs = list(bs)
    coef_int = None
    # --- equalities
    changed = True
    guard = 0
    while changed:
        guard += 1
        if guard > 60:
            raise Unsupported("canon loop")
        changed = False
        for i, (t, p) in enumerate(cons):
            if t != "eq":
                continue
            p = PATH.norm(p)
            if p.isconst():
                if p.cval() != 0:
                    return {}
                del cons[i]
                changed = True
                break
            cand = None
            for b in bs:
                lc = p.lincoef(b)
                if lc is not None and lc != 0:
                    rest = (p - IP({((b, 1),): lc})).scale(-1 / lc)
                    if integer_valued(rest):
                        cand = (b, rest)
                        break
            if cand:
                b, rest = cand
                del cons[i]
                bs.remove(b)
                s = {b: rest}
                cons = [(t2, q.subst(s)) for t2, q in cons]
                return _rebuild(bs, cons, fd, s)
            # free equality: substitute one free variable in the atoms only
            fv = sorted(v for v in p.vars())
            for v in reversed(fv):
                lc = p.lincoef(v)
                if lc is not None and lc != 0:
                    rest = (p - IP({((v, 1),): lc})).scale(-1 / lc)
                    if integer_valued(rest) and v not in bs:
                        used = set()
                        for a in fd:
                            a_vars(a, used)
                        other = any(v in q.vars() for j, (t2, q) in enumerate(cons) if j != i)
                        if v in used or other:
                            s = {v: rest}
                            cons2 = [(t2, q if j == i else q.subst(s)) for j, (t2, q) in enumerate(cons)]
                            return _rebuild(bs, cons2, fd, s)
                        break
    # --- constraints: constants and entailed free ones
    out = []
    seen = set()
    for t, p in cons:
        p = PATH.norm(p)
        if p.isconst():
            c = p.cval()
            if (t == "ge" and c < 0) or (t == "eq" and c != 0):
                return {}
            continue
        if t == "eq":
            lead = max(p.d)
            if p.d[lead] < 0:
                p = -p
        k = (t, p)
        if k in seen:
            continue
        seen.add(k)
        if bs and p.vars() & set(bs):
            out.append(k)
            continue
        z = cmp0(p, "ge" if t == "ge" else "eq")
        if PATH.entails(z):
            continue
        if not PATH.feasible(z):
            return {}
        out.append(k)
    cons = out
    if bs and len(cons) > 1:
        # pairs of bounds with the same bound part: keep the tighter, detect pinned and empty ranges
        bset = set(bs)
        drop = set()
        for i, (t, p) in enumerate(cons):
            if t != "ge" or i in drop or not (p.vars() & bset):
                continue
            for j in range(i + 1, len(cons)):
                t2, q = cons[j]
                if t2 != "ge" or j in drop or not (q.vars() & bset):
                    continue
                sm = p + q
                if not (sm.vars() & bset):
                    if sm.isconst():
                        c = sm.cval()
                        if c < 0:
                            return {}
                        if c == 0:
                            rest = [x for k, x in enumerate(cons) if k not in (i, j)]
                            return _canon(tuple(bs), rest + [("eq", p)], fd)
                    continue
                df = p - q
                if df.vars() & bset:
                    continue
                if PATH.entails(cmp0(df, "ge")):
                    drop.add(i)
                    break
                if PATH.entails(cmp0(-df, "ge")):
                    drop.add(j)
        if drop:
            cons = [x for k, x in enumerate(cons) if k not in drop]
        if len(bs) > 1 and len(cons) > 2:
            cons = transitive(cons, bset)
            if cons is None:
                return {}
    # path normal form of indices
    if PATH.sub:
        used = set()
        for a in fd:
            a_vars(a, used)
        s = {v: PATH.norm(IP.var(v)) for v in used if v in PATH.sub}
        if s:
            return _rebuild(bs, cons, fd, s)
    # drop unused binders
    used = set()
    for a, e in fd.items():
        a_vars(a, used)
        if isinstance(e, IP):
            used |= e.vars()
    for b in list(bs):
        if b not in used:
            r = _count(b, [c for c in cons if b in c[1].vars()])
            if r is not None:
                lo, hi = r
                if all(b not in c[1].vars() or True for c in cons):
                    cnt = hi - lo
                    bs.remove(b)
                    cons = [c for c in cons if b not in c[1].vars()]
                    acc = {}
                    for m, c in from_int(cnt).d.items():
                        fl = list(fd.items()) + [(a, e) for a, e in m[2]]
                        for mm, k in _canon(tuple(bs), cons, fac_norm(fl)).items():
                            acc[mm] = acc.get(mm, 0) + c * k
                    return acc
    # positions in a flattened triangle: (i, j) rather than j + i(i+1)/2
    if len(bs) > 1:
        bset = set(bs)
        tot = None
        for a in fd:
            if a[0] != "a":
                continue
            for x in a[2]:
                bb = x.vars() & bset
                if len(bb) < 2 or all(sum(e for _, e in m) < 2 for m in x.d):
                    continue
                for b in sorted(bb):
                    lc = x.lincoef(b)
                    if lc not in (1, -1):
                        continue
                    n = fresh()
                    sb = {b: (IP.var(n) - (x - IP({((b, 1),): lc}))).scale(lc)}
                    polys = [y for f in fd if f[0] == "a" for y in f[2]] + [q for _, q in cons]
                    if any(f[0] not in "av" for f in fd):
                        continue
                    if tot is None:
                        tot = sum(len(y.d) for y in polys)
                    if sum(len(y.subst(sb).d) for y in polys) < tot:
                        bs = [n if c == b else c for c in bs]
                        return _rebuild(bs, [(t, q.subst(sb)) for t, q in cons], fd, sb)
    # shift normalisation
    if bs:
        bset = set(bs)
        s = {}
        for a, e in sorted(fd.items(), key=lambda x: _shape_key(x[0], bset)):
            if a[0] != "a":
                continue
            for x in a[2]:
                vs = x.vars()
                bb = vs & bset
                if len(bb) == 1:
                    (b,) = bb
                    if b in s:
                        continue
                    lc = x.lincoef(b)
                    if lc in (1, -1):
                        rest = x - IP({((b, 1),): lc})
                        if not rest.d and lc == 1:
                            s[b] = None
                        else:
                            n = fresh()
                            s[b] = (n, (IP.var(n) - rest).scale(lc))
        s2 = {b: t[1] for b, t in s.items() if t}
        if s2:
            bs = [s[b][0] if s.get(b) else b for b in bs]
            cons = [(t, p.subst(s2)) for t, p in cons]
            return _rebuild(bs, cons, fd, s2)
    # alpha renaming
    h = max([a_height(a) for a in fd], default=0)
    if bs:
        fs = _alpha(bs, cons, fd, h)
        return {fs: ONE}
    facs = tuple(sorted(fd.items(), key=lambda x: akey(x[0])))
    return {((), frozenset(cons), facs): ONE}


def transitive(cons, bset):
    """drop bounds  x <= U,  x <= y + c  that follow from others along a chain of such bounds"""
    edges, up, lo = {}, {}, {}
    for k, (t, p) in enumerate(cons):
        if t != "ge":
            continue
        bb = sorted(p.vars() & bset)
        cs = [p.lincoef(b) for b in bb]
        if not bb or len(bb) > 2 or any(c not in (1, -1) for c in cs):
            continue
        rest = p
        for b, c in zip(bb, cs):
            rest = rest - IP({((b, 1),): c})
        if rest.vars() & bset:
            continue
        if len(bb) == 1:
            (up if cs[0] == -1 else lo).setdefault(bb[0], []).append((k, rest))
        elif cs[0] != cs[1]:
            x, y = (bb[0], bb[1]) if cs[0] == -1 else (bb[1], bb[0])
            edges.setdefault(x, []).append((y, k, rest))          # x <= y + rest
    if not edges:
        return cons

    def reach(x, off, seen, used):
        """all (y, y's offset): x <= y + off"""
        yield x, off, used
        for y, k, r in edges.get(x, ()):
            if y in seen:
                raise Unsupported("cyclic bounds")
            yield from reach(y, off + r, seen | {y}, used | {k})
    drop = set()
    try:
        paths = {b: list(reach(b, IP({}), {b}, frozenset())) for b in bset}
    except Unsupported:
        zs = [cmp0(p, "ge" if t == "ge" else "eq") for t, p in cons]
        return cons if PATH.feasible(z3.And(*zs)) else None
    ge0 = lambda q: q.cval() >= 0 if q.isconst() else PATH.entails(cmp0(q, "ge"))
    for x, es in edges.items():
        for y, k, r in es:
            if any(z == y and k not in used and len(used) > 1 and ge0(r - off) for z, off, used in paths[x]):
                drop.add(k)
    for x, us in up.items():
        for k, u in us:
            if any(used and ge0(u - off - u2) for z, off, used in paths[x] for k2, u2 in up.get(z, ())):
                drop.add(k)
    for x, ps in paths.items():
        for z, off, used in ps:
            if used:
                for k, l in lo.get(z, ()):         # z + l >= 0  follows from  x + l2 >= 0, x <= z + off
                    if any(ge0(l - off - l2) for _, l2 in lo.get(x, ())):
                        drop.add(k)
    return [c for k, c in enumerate(cons) if k not in drop]


def _shape_key(a, bset):
    """sort key of an atom with bound variables blinded"""
    if a[0] == "a":
        return f"a:{a[1]}[" + ",".join("*" if x.vars() & bset else repr(x) for x in a[2]) + "]"
    return "~" + a[0]


def _rebuild(bs, cons, fd, s):
    return build(tuple(bs), cons, list(fd.items()), s)


def _count(b, cs):
    """[lo,hi) if the constraints on b are exactly one lower and one upper bound"""
    lo = hi = None
    for t, p in cs:
        lc = p.lincoef(b)
        if t != "ge" or lc is None:
            return None
        rest = p - IP({((b, 1),): lc})
        if lc == 1:
            if lo is not None:
                return None
            lo = -rest
        elif lc == -1:
            if hi is not None:
                return None
            hi = rest + IP.const(1)
        else:
            return None
    if lo is None or hi is None:
        return None
    if PATH.entails(cmp0(hi - lo, "ge")):
        return lo, hi
    return None


def _alpha(bs, cons, fd, h):
    names = [f"b{h}_{i}" for i in range(len(bs))]
    if len(bs) == 1:
        perms = [tuple(bs)]
    else:
        bset = set(bs)
        sig = {}
        for b in bs:
            o = []
            for a, e in fd.items():
                vs = a_vars(a, set())
                if b in vs:
                    if a[0] == "a":
                        pos = ",".join("B" if b in x.vars() else ("*" if x.vars() & bset else repr(x))
                                       for x in a[2]) if a[1] not in PATH.sym2 else "sym:" + ",".join(sorted(
                                           "B" if b in x.vars() else ("*" if x.vars() & bset else repr(x))
                                           for x in a[2]))
                        o.append(f"{a[1]}[{pos}]^{e}")
                    else:
                        o.append(f"{a[0]}{a[1] if a[0] == 'f' else ''}^{e}")
            sig[b] = "|".join(sorted(o))
        groups = {}
        for b in sorted(bs, key=lambda b: sig[b]):
            groups.setdefault(sig[b], []).append(b)
        n = 1
        for g in groups.values():
            for i in range(2, len(g) + 1):
                n *= i
        if n > 800:
            raise Unsupported("too many symmetric indices")
        perms = [sum(p, ()) for p in itertools.product(
            *[list(itertools.permutations(g)) for g in groups.values()])]
    best = None
    for perm in perms:
        s = {b: IP.var(n) for b, n in zip(perm, names)}
        # two-step renaming is unnecessary: the b's are globally unique
        facs = []
        for a, e in fd.items():
            if a[0] == "v":
                a2 = ("v", v_of(s[a[1]])) if a[1] in s else a
            else:
                a2 = a_subst_raw(a, s)
            facs.append((a2, e.subst(s) if isinstance(e, IP) else e))
        facs = tuple(sorted(facs, key=lambda x: akey(x[0])))
        if len(perms) == 1:
            cs = frozenset((t, p.subst(s)) for t, p in cons)
            return (tuple(names), cs, facs)
        cs = [(t, p.subst(s)) for t, p in cons]
        key = (tuple(akey(a) + f"^{e}" for a, e in facs), sorted(f"{t}:{p!r}" for t, p in cs))
        if best is None or key < best[0]:
            best = (key, facs, frozenset(cs))
    return (tuple(names), best[2], best[1])


def a_subst_raw(a, s):
    return a_subst(a, s)


def mono_mul(m, n):
    (b1, c1, f1), (b2, c2, f2) = m, n
    if not b1 and not b2:
        if not c1 and not c2:
            fd = fac_norm(f1 + f2)
            if not PATH.rulesign(fd):
                return (((((), frozenset(), tuple(sorted(fd.items(), key=lambda x: akey(x[0]))))), ONE),)
    r1 = {b: IP.var(fresh()) for b in b1}
    r2 = {b: IP.var(fresh()) for b in b2}
    f1 = _ren_facs(f1, r1) if r1 else list(f1)
    f2 = _ren_facs(f2, r2) if r2 else list(f2)
    cons = [(t, p.subst(r1)) for t, p in c1] + [(t, p.subst(r2)) for t, p in c2]
    bs = tuple(v_of(r1[b]) for b in b1) + tuple(v_of(r2[b]) for b in b2)
    fd = fac_norm(list(f1) + list(f2))
    return build(bs, cons, list(fd.items())).items()


core.Path.rulesign = lambda self, fd: False


# ---------------------------------------------------------------- operations
def psum(f, lo, hi):
    """Sum_{lo <= v < hi} f(v);  f: IP -> Po"""
    lo, hi = ip(lo), ip(hi)
    n = PATH.norm(hi - lo)
    if n.isconst() and n.cval() <= 12:
        acc = ZERO
        for i in range(int(n.cval())):
            acc = acc + f(lo + IP.const(i))
        return acc
    name = fresh()
    v = IP.var(name)
    st = PATH.push()
    try:
        a, b = cmp0(v - lo, "ge"), cmp0(hi - v - IP.const(1), "ge")
        PATH.assume(a)
        PATH.assume(b)
        body = f(v)
    finally:
        PATH.pop(st)
    return bind(body, name, [("ge", v - lo), ("ge", hi - v - IP.const(1))])


def bind(body, name, rng):
    acc = {}
    for (bs, cons, facs), c in body.d.items():
        # rename existing binders apart
        ren = {b: IP.var(fresh()) for b in bs}
        fl = _ren_facs(facs, ren) if ren else list(facs)
        cs = [(t, p.subst(ren)) for t, p in cons]
        for m, k in build(tuple(v_of(ren[b]) for b in bs) + (name,), cs + list(rng), fl).items():
            acc[m] = acc.get(m, 0) + c * k
    return Po(acc)


def neg_region(cons):
    """disjoint decomposition of the complement of a conjunction"""
    out = []
    prev = []
    for t, p in cons:
        if t == "ge":
            out.append(prev + [("ge", -p - IP.const(1))])
        else:
            out.append(prev + [("ge", p - IP.const(1))])
            out.append(prev + [("ge", -p - IP.const(1))])
        prev = prev + [(t, p)]
    return out


def guard(cons, x):
    acc = {}
    for (bs, cs, facs), c in x.d.items():
        ren = {b: IP.var(fresh()) for b in bs}
        fl = _ren_facs(facs, ren) if ren else list(facs)
        cs2 = [(t, p.subst(ren)) for t, p in cs]
        for m, k in build(tuple(v_of(ren[b]) for b in bs), cs2 + list(cons), fl).items():
            acc[m] = acc.get(m, 0) + c * k
    return Po(acc)


def region_status(cons):
    """True / False / None (undecided) under the path condition"""
    und = []
    for t, p in cons:
        p = PATH.norm(p)
        z = cmp0(p, "ge" if t == "ge" else "eq")
        if isinstance(z, bool):
            if not z:
                return False
            continue
        if PATH.entails(z):
            continue
        if not PATH.feasible(z):
            return False
        und.append((t, p))
    if not und:
        return True
    return None


def ite(cons, fa, fb):
    """if all cons then fa() else fb()   (thunks)"""
    st = region_status(cons)
    if st is True:
        return fa()
    if st is False:
        return fb()
    s = PATH.push()
    try:
        for t, p in cons:
            PATH.assume(cmp0(p, "ge" if t == "ge" else "eq"))
        a = fa() if PATH.check() != z3.unsat else ZERO
    finally:
        PATH.pop(s)
    out = guard(cons, a)
    for neg in neg_region(cons):
        st2 = region_status(neg)
        if st2 is False:
            continue
        s = PATH.push()
        try:
            for t, p in neg:
                PATH.assume(cmp0(p, "ge" if t == "ge" else "eq"))
            b = fb() if PATH.check() != z3.unsat else ZERO
        finally:
            PATH.pop(s)
        out = out + guard(neg, b)
    return out


def is_positive(p):
    """syntactic / solver positivity of a Po"""
    if p.isconst():
        return p.cval() > 0
    if len(p.d) == 1:
        (m, c), = p.d.items()
        bs, cons, facs = m
        if c > 0 and not bs and not cons and all(
                (a[0] == "a" and PATH.realdecl.get(a[1]) == "pos") or
                (a[0] == "f" and a[1] == "exp") or
                (a[0] == "v" and PATH.dims.get(a[1], 0) > 0) for a, e in facs):
            return True
    return False


def pw(p, e):
    """p ** e for constant rational e or IP exponent."""
    if isinstance(e, float):
        e = rat(e)
    if isinstance(e, IP):
        if e.isconst():
            e = e.cval()
        else:
            return gpow(p, e)
    e = Fraction(e)
    if e.denominator == 1:
        n = int(e)
        if n >= 0:
            r = UNIT
            for _ in range(n):
                r = r * p
            return r
        # negative integer power
        if p.isconst():
            if p.cval() == 0:
                raise ZeroDivisionError("division by zero")
            return const(p.cval() ** n)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            bs, cons, facs = m
            if not bs and not cons:
                out = const(Fraction(1) / c ** (-n))
                fd = {}
                post = UNIT
                for a, k in facs:
                    if a[0] == "ind":
                        raise ZeroDivisionError("division by an indicator")
                    if a[0] == "p":
                        post = post * pw(a[1], -k * -n if False else k * n) if isinstance(k, int) else None
                        continue
                    fd[a] = (k * n) if not isinstance(k, IP) else k.scale(n)
                return out * Po(_canon((), [], fac_norm(fd.items()))) * post
        # scale so that the leading coefficient is 1
        lead = min(p.d, key=mrepr)
        c = p.d[lead]
        q = p.scale(1 / c)
        return atom_pow(("p", q), n).scale(Fraction(1) / c ** (-n))
    return gpow(p, e)


def atom_pow(a, n):
    return Po({((), frozenset(), ((a, n),)): ONE})


def gpow(p, e):
    """non-integer (or symbolic) power"""
    p = _evenabs(p)
    if p.isconst() and not isinstance(e, IP):
        c = p.cval()
        if c == 0:
            return ZERO
        if c > 0:
            for num in (c,):
                q = e.denominator
                a, b = round(num.numerator ** (1 / q)), round(num.denominator ** (1 / q))
                if a ** q == num.numerator and b ** q == num.denominator:
                    return const(Fraction(a, b) ** e.numerator)
    if len(p.d) == 1 and is_positive(p):
        (m, c), = p.d.items()
        if not m[0] and not m[1] and c == 1:
            fd = {}
            for a, k in m[2]:
                fd[a] = exp_mul(k, e)
            return Po(_canon((), [], fac_norm(fd.items())))
    if len(p.d) == 1 and not isinstance(e, IP) and e > 0:
        (m, c), = p.d.items()
        if not m[0] and not m[1] and c == 1 and e.denominator % 2:
            fd = {}
            for a, k in m[2]:
                if isinstance(k, IP) or k <= 0:
                    break
                if not nonneg_atom(a, 1):
                    if not (isinstance(k, int) and k % 2 == 0):
                        break
                    q = fn_abs(atom(a))
                    (qm, qc), = q.d.items()
                    if qc != 1 or qm[0] or qm[1] or len(qm[2]) != 1 or qm[2][0][1] != 1:
                        break
                    a = qm[2][0][0]
                fd[a] = fd.get(a, 0) + k
            else:
                fd = {a: int(k * e) if (k * e).denominator == 1 else k * e for a, k in fd.items()}
                return Po(_canon((), [], fac_norm(fd.items())))
    if not isinstance(e, IP) and e.denominator == 2:
        n = e.numerator
        # pull out even powers:  sqrt(c * prod a^(2k) * rest)
        r = fn_sqrt(p)
        return pw(r, n)
    return atom(("f", "pow", (p, e if isinstance(e, IP) else const(e))))


def exp_mul(a, b):
    if isinstance(a, IP) or isinstance(b, IP):
        a = a if isinstance(a, IP) else IP.const(a)
        b = b if isinstance(b, IP) else IP.const(b)
        return a * b
    return a * b


def pull_common(p, ok, dep=()):
    """p = fac * rest with fac the product of the factors common to all monomials of p, free of
    bound variables and of `dep`, and accepted by ok(atom, exponent)"""
    common = None
    dep = set(dep)
    for (bs, cons, facs), c in p.d.items():
        no = dep | set(bs)
        fd = {a: k for a, k in facs if isinstance(k, (int, Fraction)) and a[0] != "ind"
              and not (a_vars(a, set()) & no)}
        common = fd if common is None else {a: k for a, k in common.items() if fd.get(a) == k}
        if not common:
            return UNIT, p
    common = {a: k for a, k in common.items() if ok(a, k)}
    if not common:
        return UNIT, p
    rest = ZERO
    for (bs, cons, facs), c in p.d.items():
        rest = rest + Po(build(bs, cons, tuple((a, k) for a, k in facs if a not in common))).scale(c)
    fac = UNIT
    for a, k in common.items():
        fac = fac * atom_pow(a, k)
    return fac, rest


def nonneg_atom(a, k):
    """a ** k >= 0 (where it is defined)"""
    if isinstance(k, int) and k % 2 == 0:
        return True
    if a[0] == "f":
        return a[1] in ("abs", "sqrt", "exp", "maxabs")
    if a[0] == "a":
        return PATH.realdecl.get(a[1]) in ("pos", "nonneg")
    if a[0] == "v":
        return PATH.dims.get(a[1], -1) >= 0
    if a[0] == "p":
        q = a[1]
        if len(q.d) == 2:
            # max(e) + max(-e) >= 0
            (m1, c1), (m2, c2) = q.d.items()
            f1, f2 = m1[2], m2[2]
            if c1 == c2 and c1 > 0 and not m1[0] and not m2[0] and not m1[1] and not m2[1] \
                    and len(f1) == len(f2) == 1 and f1[0][1] == f2[0][1] == 1:
                x, y = f1[0][0], f2[0][0]
                if x[0] == y[0] == "f" and x[1] == y[1] == "max" and x[2][1:] == y[2][1:] \
                        and not (x[2][0] + y[2][0]).d:
                    return True
        return bool(q.d) and all(c > 0 and all(nonneg_atom(b, e) for b, e in m[2]) for m, c in q.d.items())
    return False


def _evenabs(p):
    """|x|^2 = x^2 inside a function argument"""
    if any(a[0] == "f" and a[1] == "abs" and isinstance(e, int) and e >= 2 for m in p.d for a, e in m[2]):
        return inv_rewrite(p)
    return p


def fn_sqrt(p):
    p = _evenabs(p)
    if not p.isconst() and all(not m[0] and not m[1] and all(a[0] == "v" and isinstance(e, int) and e > 0 for a, e in m[2])
                               for m in p.d):
        r = core.iroot(IP({tuple(sorted((a[1], e) for a, e in m[2])): c for m, c in p.d.items()}), 2)
        if r is not None:
            return from_int(r)
    if p.isconst():
        c = p.cval()
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        a, b = round(c.numerator ** .5), round(c.denominator ** .5)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fraction(a, b))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not m[0] and not m[1] and c > 0:
            out = UNIT
            rest = []
            for a, k in m[2]:
                if a[0] == "a" and PATH.realdecl.get(a[1]) == "pos" and isinstance(k, int):
                    out = out * atom_pow(a, k // 2 if k % 2 == 0 else Fraction(k, 2))
                elif isinstance(k, int) and k % 2 == 0 and a[0] != "ind":
                    base = atom(a) if a[0] != "p" else a[1]
                    if k < 0:
                        out = out * pw(fn_abs(base), k // 2)
                    elif (k // 2) % 2 == 0:
                        out = out * pw(base, k // 2)
                    else:
                        out = out * pw(fn_abs(base), k // 2)
                else:
                    rest.append((a, k))
            if len(rest) < len(m[2]):
                r = Po({((), frozenset(), tuple(rest)): c})
                return out * (fn_sqrt(r) if not r.isconst() or r.cval() != 1 else UNIT)
    fac, rest = pull_common(p, lambda a, k: isinstance(k, int) and k % 2 == 0)
    if fac != UNIT:
        return fn_sqrt(fac) * fn_sqrt(rest)
    return atom(("f", "sqrt", (p,)))


def fn_abs(p):
    if p.isconst():
        return const(abs(p.cval()))
    if is_positive(p):
        return p
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not m[0] and not m[1]:
            out = const(abs(c))
            for a, k in m[2]:
                if a[0] == "f" and a[1] in ("abs", "sqrt", "exp", "max", "maxabs"):
                    if a[1] != "max":
                        out = out * pw(atom(a), k)
                        continue
                if a[0] == "ind":
                    out = out * atom(a)
                    continue
                if isinstance(k, int) and k % 2 == 0:
                    out = out * (pw(atom(a), k) if a[0] != "p" else pw(a[1], k))
                    continue
                b = atom(a) if a[0] != "p" else a[1]
                if is_positive(b):
                    out = out * pw(b, k)
                    continue
                # |b|^k, sign-normalised
                out = out * pw(_abs_atom(b), k)
            return out
        if not m[0] and m[1]:
            pass
    # real-valued facts on the path
    r = real_entails(p, "ge")
    if r:
        return p
    if real_entails(-p, "ge"):
        return -p
    return _abs_atom(p)


def fn_sign(p):
    """1, 0 or -1"""
    if p.isconst():
        c = p.cval()
        return const((c > 0) - (c < 0))
    if is_positive(p):
        return UNIT
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not m[0] and not m[1] and all(isinstance(k, int) for a, k in m[2]):
            out = const((c > 0) - (c < 0))
            for a, k in m[2]:
                b = atom(a) if a[0] != "p" else a[1]
                if a[0] == "f" and a[1] == "sgn":
                    out = out * pw(b, k)
                elif is_positive(b):
                    pass
                elif a[0] == "ind":
                    out = out * b
                else:
                    out = out * pw(_sgn_atom(b), 1 if k % 2 else 2)
            return out
    if real_entails(p, "gt"):
        return UNIT
    if real_entails(-p, "gt"):
        return const(-1)
    return _sgn_atom(p)


def _sgn_atom(p):
    lead = min(p.d, key=mrepr)
    if p.d[lead] < 0:
        return -atom(("f", "sgn", (-p,)))
    return atom(("f", "sgn", (p,)))


def _abs_atom(p):
    fac, rest = pull_common(p, nonneg_atom)
    if fac != UNIT:
        return fac * fn_abs(rest)
    if p.d:
        lead = min(p.d, key=mrepr)
        c = p.d[lead]
        if c < 0:
            p = -p
    if is_positive(p):
        return p
    return atom(("f", "abs", (p,)))


def refn(a):
    """re-evaluate a function atom after substitution"""
    n = a[1]
    if n == "abs":
        return fn_abs(a[2][0])
    if n == "sgn":
        return fn_sign(a[2][0])
    if n == "sqrt":
        return fn_sqrt(a[2][0])
    if n == "pow" and isinstance(a[2][1], Po) and a[2][1].isconst():
        return pw(a[2][0], a[2][1].cval())
    return atom(a)


def indicator(kind, p):
    """1 if p kind 0 else 0, kind in gt, ge, eq"""
    if p.isconst():
        c = p.cval()
        return UNIT if {"gt": c > 0, "ge": c >= 0, "eq": c == 0}[kind] else ZERO
    return atom(("ind", kind, p))


def rat(x):
    """float -> rational: floats within 1e-14 of a rational with small
    denominator are read as that rational (trusted reading of literals)."""
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(f - g) <= abs(f) * Fraction(1, 10 ** 14):
        return g
    return f


# ------------------------------------------------------------- z3 for reals
_ZR = {}


def zreal_atom(a):
    k = akey(a)
    if a[0] == "v":
        return z3.ToReal(core.zvar(a[1]))
    if a[0] == "f" and a[1] in ("sqrt", "abs"):
        k = f"f:{a[1]}({zreal(scalefree(a[2][0]))})"
    c = z3.Real("r:" + k)
    ax = PATH.memo.setdefault("axioms", set())
    if k not in ax:
        ax.add(k)
        if a[0] == "a":
            d = PATH.realdecl.get(a[1])
            if d == "pos":
                PATH.assume(c > 0)
            elif d == "nonneg":
                PATH.assume(c >= 0)
            elif d == "nz":
                PATH.assume(c != 0)
            PATH.memo.setdefault("elems", {})["r:" + k] = a
            if a[1] in PATH.desc and len(a[2]) == 1:
                seen = PATH.memo.setdefault(("descatoms", a[1]), {})
                i = a[2][0].z()
                for key, (j, cj) in seen.items():
                    if key != k:
                        PATH.assume(z3.And(z3.Implies(i <= j, c >= cj), z3.Implies(i >= j, c <= cj)))
                seen[k] = (i, c)
        elif a[0] == "f":
            if a[1] == "sqrt":
                PATH.assume(c >= 0)
                x = zreal(a[2][0])
                PATH.assume(z3.Implies(x >= 0, c * c == x))
            elif a[1] == "abs":
                x = zreal(a[2][0])
                PATH.assume(c == z3.If(x >= 0, x, -x))
            elif a[1] == "sgn":
                x = zreal(a[2][0])
                PATH.assume(c == z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))))
            elif a[1] in ("exp",):
                PATH.assume(c > 0)
            elif a[1] in ("maxabs", "norm"):
                PATH.assume(c >= 0)
    return c


def zreal(p):
    ts = []
    for m, c in p.d.items():
        bs, cons, facs = m
        cz = z3.RealVal(str(c))
        if bs:
            no = set(bs)
            free = tuple((a, e) for a, e in facs if not (a_vars(a, set()) & no)
                         and not (isinstance(e, IP) and any(v in no for mm in e.d for v, _ in mm)))
            if free:
                F = scalefree(Po({((), frozenset(), free): ONE}))
                B = Po(build(bs, cons, tuple(f for f in facs if f not in free)))
                ts.append(cz * zreal(F) * zreal(B))
                continue
        if bs or cons:
            t = z3.Real("s:" + mrepr(m))
            # sums of squares are nonnegative
            if all(isinstance(e, int) and e % 2 == 0 or a[0] == "ind" or
                   (a[0] == "a" and PATH.realdecl.get(a[1]) == "pos") or
                   (a[0] == "f" and a[1] in ("abs", "sqrt", "exp", "maxabs")) for a, e in facs):
                ax = PATH.memo.setdefault("axioms", set())
                if mrepr(m) not in ax:
                    ax.add(mrepr(m))
                    bd = sum_bounds(m)
                    strict = bd is not None and all(nonzero_atom(a) for a, e in facs) and \
                        PATH.entails((bd[2] - bd[1]).z() >= 0)
                    PATH.assume(t > 0 if strict else t >= 0)
            ts.append(cz * t)
            continue
        t = cz
        for a, e in facs:
            if a[0] == "ind":
                x = zreal(a[2])
                co = {"gt": x > 0, "ge": x >= 0, "eq": x == 0}[a[1]]
                t = t * z3.If(co, z3.RealVal(1), z3.RealVal(0))
                continue
            x = zreal(a[1]) if a[0] == "p" else zreal_atom(a)
            if isinstance(e, int):
                for _ in range(abs(e)):
                    t = t * x if e > 0 else t / x
            else:
                y = z3.Real(f"r:{akey(a)}^{e}")
                if isinstance(e, Fraction) and e.denominator == 2 and ("root", akey(a), e) not in \
                        PATH.memo.setdefault("axioms", set()):
                    PATH.memo["axioms"].add(("root", akey(a), e))
                    xe = x if e.numerator > 0 else 1 / x
                    pr = z3.RealVal(1)
                    for _ in range(abs(e.numerator)):
                        pr = pr * xe
                    PATH.assume(z3.Implies(x > 0, z3.And(y > 0, y * y == pr)))
                t = t * y
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))


def scalefree(p):
    """p with the common factors of reciprocals taken out, and free factors of sums in front (as pairs)"""
    for _ in range(8):
        hit = None
        for m, c in p.d.items():
            for a, e in () if m[0] else m[2]:
                if a[0] == "p" and isinstance(e, int) and e < 0:
                    fac, rest = pull_common(a[1], lambda x, k: nonzero_atom(x))
                    if fac != UNIT:
                        hit = (m, c, a, e, fac, rest)
                        break
            if hit:
                break
        if not hit:
            return p
        m, c, a, e, fac, rest = hit
        new = Po({(m[0], m[1], tuple(f for f in m[2] if f[0] is not a)): c})
        p = Po({k: v for k, v in p.d.items() if k != m}) + new * pw(fac, e) * pw(rest, e)
    return p


def nonzero_atom(a):
    return a[0] == "a" and PATH.realdecl.get(a[1]) in ("pos", "nz")


def real_cmp(p, op):
    """bool / z3 formula for  p op 0"""
    if p.isconst():
        c = p.cval()
        return {"eq": c == 0, "ge": c >= 0, "gt": c > 0, "ne": c != 0, "le": c <= 0, "lt": c < 0}[op]
    x = zreal(scalefree(p))
    return {"eq": x == 0, "ge": x >= 0, "gt": x > 0, "ne": x != 0, "le": x <= 0, "lt": x < 0}[op]


def prove_nonneg(p):
    """p >= 0 on this path (sufficient conditions)"""
    if p.isconst():
        return p.cval() >= 0
    if len(p.d) == 2:
        (m1, c1), (m2, c2) = p.d.items()
        f1, f2 = m1[2], m2[2]
        if c1 == -c2 and not (m1[0] or m2[0] or m1[1] or m2[1]) and len(f1) == len(f2) == 1:
            (a, e), (b, g) = f1[0], f2[0]
            if a[0] == b[0] == "f" and a[1] == b[1] == "sqrt" and e == g == 1:
                return prove_nonneg((a[2][0] - b[2][0]).scale(c1 / abs(c1)))
    p = sum_diff(p)
    if all(c > 0 and all(nonneg_atom(a, e) for a, e in m[2]) for m, c in p.d.items()):
        return True
    fac, rest = pull_common(p, lambda a, k: nonneg_atom(a, k))
    return real_entails(rest, "ge")


def sum_bounds(m):
    """(b, L, U) of a sum over the single index L <= b <= U, or None"""
    bs, cons, facs = m
    if len(bs) != 1 or len(cons) != 2:
        return None
    b, L, U = bs[0], None, None
    for op, e in cons:
        if op != "ge":
            return None
        co = [(v, c) for v, c in e.d.items() if any(x == b for x, _ in v)]
        if len(co) != 1 or len(co[0][0]) != 1 or co[0][0][0][1] != 1 or abs(co[0][1]) != 1:
            return None
        if co[0][1] == 1:
            L = IP.var(b) - e
        else:
            U = e + IP.var(b)
    return None if L is None or U is None else (b, L, U)


def sum_diff(p):
    """cancel sums with the same summand over ranges that overlap"""
    for _ in range(8):
        groups = {}
        hit = False
        for m, c in p.d.items():
            r = sum_bounds(m)
            if r:
                groups.setdefault((repr(r[1]), repr(m[2]).replace(r[0], "@")), []).append((m, c, r))
        for ms in groups.values():
            for x in range(len(ms)):
                for y in range(len(ms)):
                    (m1, c1, (b1, L, U1)), (m2, c2, (b2, _, U2)) = ms[x], ms[y]
                    d = PATH.norm(U2 - U1)
                    if x != y and d.isconst() and 0 < d.cval() <= 4 and \
                            PATH.entails((U1 + IP.const(1) - L).z() >= 0):
                        # S(U2) = S(U1) + terms
                        q = Po({k: v for k, v in p.d.items() if k not in (m1, m2)})
                        q = q + Po({m1: c1 + c2})if c1 + c2 else q
                        for t in range(1, int(d.cval()) + 1):
                            q = q + Po(build((), (), m2[2], {b2: U1 + IP.const(t)})).scale(c2)
                        p, hit = q, True
                        break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
    return p


def real_entails(p, op):
    z = real_cmp(p, op)
    if isinstance(z, bool):
        return z
    return PATH.entails(z)


# ----------------------------------------------------------------- zero test
def inv_rewrite(p):
    """rewrite with  lead(d) * d^-1 -> 1 - (d - lead(d)) * d^-1  until stable, and s^2 -> x for sqrt"""
    for rnd in range(40):
        hit = None
        for m, c in p.d.items():
            bs, cons, facs = m
            fd = dict(facs)
            for a, e in facs:
                if a[0] == "f" and a[1] == "sqrt" and isinstance(e, int) and (e >= 2 or e <= -1):
                    hit = ("sqrt", m, c, a, e)
                    break
                if a[0] == "f" and a[1] == "abs" and isinstance(e, int) and e >= 2:
                    hit = ("abs", m, c, a, e)
                    break
                if a[0] == "f" and a[1] == "sgn":
                    x = ("f", "abs", a[2])
                    if isinstance(e, int) and e >= 3 or fd.get(x, 0) != 0 and (e, isinstance(fd[x], IP)) == (2, False):
                        hit = ("sgn2", m, c, a, e)
                        break
                    if e == 1 and not isinstance(fd.get(x, 0), IP) and fd.get(x, 0) >= 1:
                        hit = ("sgnabs", m, c, a, e)
                        break
                if a[0] == "p" and isinstance(e, int) and e < 0:
                    lead = _lead_mono(a[1])
                    if lead is not None and all(
                            isinstance(fd.get(x, 0), int) and fd.get(x, 0) >= k for x, k in lead[2]):
                        hit = ("inv", m, c, a, e, lead)
                        break
            if hit:
                break
        if not hit:
            return p
        kind, m, c, a, e = hit[:5]
        bs, cons, facs = m
        rest = Po({k: v for k, v in p.d.items() if k != m})
        if kind == "sqrt":
            # s^e = s^(e mod 2) * x^(e div 2)
            k = e // 2
            repl = pw(a[2][0], k)
            fl = [(x, y) for x, y in facs if x != a] + ([(a, 1)] if e % 2 else [])
        elif kind == "sgn2":
            # s^3 = s;  s^2 |x|^k = |x|^k
            repl = UNIT
            fl = [(x, y) for x, y in facs if x != a] + ([(a, e - 2)] if e > 2 else [])
        elif kind == "sgnabs":
            # s |x|^k = x |x|^(k-1)
            b = ("f", "abs", a[2])
            repl = a[2][0]
            fl = [(x, y - 1 if x == b else y) for x, y in facs if x != a and not (x == b and y == 1)]
        elif kind == "abs":
            k = e // 2
            repl = pw(a[2][0], 2 * k)
            fl = [(x, y) for x, y in facs if x != a] + ([(a, 1)] if e % 2 else [])
        else:
            lead = hit[5]
            d = a[1]
            lc = d.d[lead]
            fd = dict(facs)
            for x, k in lead[2]:
                fd[x] = fd[x] - k
            fd2 = dict(fd)
            fd2[a] = e + 1
            # lead/d = (1/lc) * (1 - (d - lc*lead)/d )
            others = Po({k: v for k, v in d.d.items() if k != lead})
            t1 = reb(bs, cons, fd2, UNIT)
            t2 = reb(bs, cons, fd, others)
            p = rest + (t1 - t2).scale(c / lc)
            continue
        p = rest + reb(bs, cons, dict(fl), repl).scale(c)
    return p


def _lead_mono(d):
    best = None
    for m in d.d:
        if m[0] or m[1] or not m[2]:
            continue
        if any(not isinstance(k, int) or k < 0 or a[0] == "v" for a, k in m[2]):
            continue
        key = (sum(k for _, k in m[2]), mrepr(m))
        if best is None or key > best[0]:
            best = (key, m)
    return best and best[1]


def reb(bs, cons, fd, extra):
    """Sum_{bs|cons} fd * extra"""
    fd = {a: e for a, e in fd.items() if not (isinstance(e, int) and e == 0)}
    ren = {b: IP.var(fresh()) for b in bs}
    acc = {}
    fl0 = _ren_facs(list(fd.items()), ren) if ren else list(fd.items())
    cs0 = [(t, p.subst(ren)) for t, p in cons]
    nb = tuple(v_of(ren[b]) for b in bs)
    if ren:
        extra = subst_bound(extra, ren)
    for (b2, c2, f2), k in extra.d.items():
        r2 = {b: IP.var(fresh()) for b in b2}
        fl = fl0 + (_ren_facs(f2, r2) if r2 else list(f2))
        cs = cs0 + [(t, p.subst(r2)) for t, p in c2]
        for m, c in build(nb + tuple(v_of(r2[b]) for b in b2), cs, list(fac_norm(fl).items())).items():
            acc[m] = acc.get(m, 0) + c * k
    return Po(acc)


def subst_bound(p, ren):
    return p.subst(ren)


class Result:
    def __init__(self, ok, why="", residual=None, definite=False):
        self.ok = ok
        self.why = why
        self.residual = residual
        self.definite = definite


def numeric_nonzero(q):
    """evaluate q for small dimensions allowed by the path and pseudo-random values of
    the arrays: True if the value is certainly not zero"""
    import itertools
    P = core.PATH
    names = set()
    for bs, cons, facs in q.d:
        for t, c in cons:
            names |= c.vars() - set(bs)
        for a, e in facs:
            names |= a_vars(a, set()) - set(bs)
    P.solver.push()
    try:
        for v in list(P.dims) + sorted(names):
            P.solver.add(core.zvar(v) <= 4)
        P.solver.set("timeout", 2000)
        if P.solver.check() != z3.sat:
            return False
        m = P.solver.model()
        env = {v: m.eval(core.zvar(v), model_completion=True).as_long() for v in sorted(names)}
    finally:
        P.solver.pop()
    hi = max([4] + list(env.values())) + 1
    try:
        return _numeric(q, env, hi) != 0
    except (KeyError, OverflowError, ValueError):
        return False


def _ipval(c, env):
    v = c.subst({k: core.IP.const(x) for k, x in env.items()})
    if v.vars():
        raise KeyError
    return v.cval()


def _numeric(q, env, hi):
    import zlib
    from fractions import Fraction
    total = Fraction(0)
    for (bs, cons, facs), coef in q.d.items():
        def rec(k, e):
            if k == len(bs):
                for t, c in cons:
                    x = _ipval(c, e)
                    if (t == "ge" and x < 0) or (t == "eq" and x != 0) or (t == "ne" and x == 0) or \
                            t not in ("ge", "eq", "ne"):
                        if t not in ("ge", "eq", "ne"):
                            raise KeyError
                        return Fraction(0)
                out = Fraction(1)
                for a, ex in facs:
                    if a[0] == "a":
                        key = repr((a[1], [_ipval(x, e) for x in a[2]]))
                        val = Fraction(zlib.crc32(key.encode()) % 97 + 1)
                    elif a[0] == "v":
                        val = Fraction(e[a[1]])
                    else:
                        raise KeyError
                    out *= val ** ex
                return out
            s = Fraction(0)
            for x in range(-1, hi + 1):
                e2 = dict(e)
                e2[bs[k]] = x
                bad = False
                for t, c in cons:
                    if c.vars() <= set(e2):
                        y = _ipval(c, e2)
                        if (t == "ge" and y < 0) or (t == "eq" and y != 0):
                            bad = True
                            break
                if not bad:
                    s += rec(k + 1, e2)
            return s
        if len(bs) > 5:
            raise KeyError
        total += coef * rec(0, dict(env))
    return total


def group_key(m):
    bs, cons, facs = m
    f = tuple((a, e) for a, e in facs if not (a[0] == "v" and isinstance(e, int)))
    return (len(bs), f)


def is_zero(p, depth=0):
    """Decide p == 0 for all values under the path condition."""
    from . import rules
    p = rules.reduce(p)
    p = inv_rewrite(p)
    if not p.d:
        return Result(True)
    p = rules.reduce(p)
    groups = {}
    for m, c in p.d.items():
        groups.setdefault(group_key(m), []).append((m, c))
    bad = {}
    for k, ms in groups.items():
        if not _group_zero(ms):
            for m, c in ms:
                bad[m] = c
    if not bad:
        return Result(True)
    q = Po(bad)
    # clear denominators that do not involve bound variables
    dens = set()
    for m in q.d:
        for a, e in m[2]:
            if a[0] == "p" and isinstance(e, int) and e < 0:
                fv = a_vars(a, set())
                if not (fv & set(m[0])):
                    dens.add((a, -e))
    if dens and depth < 5:
        a, e = sorted(dens, key=lambda x: (akey(x[0]), x[1]))[-1]
        r = ZERO
        dp = pw(a[1], e)
        for m, c in q.d.items():
            fd = dict(m[2])
            if a in fd:
                fd[a] = fd[a] + e
                k = fd.pop(a)
                one = reb(m[0], m[1], fd, UNIT)
                r = r + (one * pw(a[1], k)).scale(c)
            else:
                r = r + (Po({m: ONE}) * dp).scale(c)
        return is_zero(r, depth + 1)
    # regions of free indices (position within a triangle, ...): decide case by case
    if depth < 12:
        free = sorted({(t, x) for m in q.d for t, x in m[1] if not (x.vars() & set(m[0]))}, key=repr)
        for t, x in free:
            z = cmp0(x, "ge" if t == "ge" else "eq")
            if isinstance(z, bool) or PATH.entails(z) or not PATH.feasible(z):
                continue
            bad = None
            for case in [[(t, x)]] + neg_region([(t, x)]):
                st = PATH.push()
                try:
                    for t2, y in case:
                        z2 = cmp0(y, "ge" if t2 == "ge" else "eq")
                        PATH.assume(z2)
                        if t2 == "eq":
                            PATH.learn_eq(y)
                    if PATH.check() == z3.unsat:
                        continue
                    q2 = ZERO
                    for m, c in q.d.items():
                        q2 = q2 + reb(m[0], list(m[1]), dict(m[2]), UNIT).scale(c)
                    r = is_zero(q2, depth + 1)
                finally:
                    PATH.pop(st)
                if not r.ok:
                    bad = r
                    break
            if bad is None:
                return Result(True)
            return Result(False, bad.why, q, False)
    # split on diagonals of symmetric sums
    if depth < 6:
        q2 = split_orders(q)
        if q2 is not None and is_zero(q2, 6).ok:
            return Result(True)
        q2 = split_orders(q, full=True)
        if q2 is not None and is_zero(q2, 6).ok:
            return Result(True)
        q2 = split_diagonals(q)
        if q2 is not None:
            return is_zero(q2, 6)
        q2 = split_edges(q)
        if q2 is not None:
            return is_zero(q2, depth + 1)
    # nonlinear reals with opaque sums
    if len(q.d) <= 30:
        z = real_cmp(q, "eq")
        if isinstance(z, bool):
            if z:
                return Result(True)
        else:
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*PATH.pc)
            s.add(z3.Not(z))
            PATH.queries += 1
            if s.check() == z3.unsat:
                return Result(True)
    definite = all(all(a[0] in ("a", "v") and isinstance(e, int) and e > 0 for a, e in m[2]) for m in q.d) \
        and not rules.active() and not core.PATH.lost and numeric_nonzero(q)
    return Result(False, "normal forms differ: " + q.skey()[:300], q, definite)


def _group_zero(ms):
    same = {}
    for (bs, cons, facs), c in ms:
        same.setdefault(cons, []).append((facs, c))
    # coefficient as a z3 integer expression (times common denominator)
    ints = {}
    negs = {}
    for (bs, cons, facs), c in ms:
        for a, e in facs:
            if a[0] == "v" and isinstance(e, int) and e < 0:
                negs[a[1]] = max(negs.get(a[1], 0), -e)
    from math import lcm
    L = 1
    for _, c in ms:
        L = lcm(L, c.denominator)
    # group by constraints: polynomial coefficients first
    tot = {}
    for (bs, cons, facs), c in ms:
        mono = dict(negs)
        for a, e in facs:
            if a[0] == "v" and isinstance(e, int):
                mono[a[1]] = mono.get(a[1], 0) + e
        t = IP({tuple(sorted((v, e) for v, e in mono.items() if e)): c * L})
        tot[cons] = tot.get(cons, IP({})) + t
    tot = {k: PATH.norm(v) for k, v in tot.items()}
    tot = {k: v for k, v in tot.items() if v.d}
    if not tot:
        return True
    for v in negs:
        PATH.require_nz(IP.var(v))
    ts = []
    for cons, t in tot.items():
        zs = [b for b in (cmp0(p, "ge" if k == "ge" else "eq") for k, p in cons)]
        if any(b is False for b in zs):
            continue
        zs = [b for b in zs if b is not True]
        ts.append(z3.If(z3.And(*zs), t.z(), z3.IntVal(0)) if zs else t.z())
    e = z3.Sum(ts) if len(ts) > 1 else ts[0]
    if PATH.entails(e == 0):
        return True
    # symmetrise over automorphisms of the bound indices
    nb, facs = group_key(ms[0][0])
    if nb >= 2:
        bs = ms[0][0][0]
        autos = []
        ref = sorted((akey(a), str(x)) for a, x in facs)
        for perm in itertools.permutations(bs):
            if perm == bs:
                continue
            s = {b: IP.var(n) for b, n in zip(bs, perm)}
            img = sorted((akey(a_subst(a, s) if a[0] != "v" else a), str(x)) for a, x in facs)
            if img == ref:
                autos.append(list(zip([core.zvar(b) for b in bs], [core.zvar(n) for n in perm])))
        if autos and len(autos) <= 24:
            tot_e = e
            for au in autos:
                tot_e = tot_e + z3.substitute(e, *au)
            if PATH.entails(tot_e == 0):
                return True
    return False


def upper_of(m, b):
    for t, p in m[1]:
        if t == "ge" and p.lincoef(b) == -1 and not ((p.vars() - {b}) & set(m[0])):
            return PATH.norm(p + IP.var(b))
    return None


def split_orders(q, limit=1500, full=False):
    """split sums over triangles i >= j >= ... into their strict parts and diagonals;
    full: also sums over squares, cubes with the range of such a triangle"""
    todo = [(m, c) for m, c in q.d.items()]
    keys = set()
    if full:
        for m in q.d:
            for t, p in m[1]:
                bb = p.vars() & set(m[0])
                if len(bb) == 2:
                    keys |= {upper_of(m, b) for b in bb}
        keys.discard(None)
        if not keys:
            return None
    out, changed = {}, False
    steps = 0
    while todo:
        m, c = todo.pop()
        bset = set(m[0])
        pair = None
        if len(bset) >= 2:
            comp = {b: b for b in bset}

            def root(b):
                while comp[b] != b:
                    b = comp[b]
                return b
            zs = []
            for t, p in m[1]:
                zs.append(cmp0(p, "ge" if t == "ge" else "eq"))
                bb = sorted(p.vars() & bset)
                if len(bb) == 2 and p.lincoef(bb[0]) in (1, -1) and p.lincoef(bb[1]) == -p.lincoef(bb[0]):
                    comp[root(bb[0])] = root(bb[1])
            if keys:
                by = {}
                for b in sorted(bset):
                    u = upper_of(m, b)
                    if u in keys:
                        if u in by:
                            comp[root(b)] = root(by[u])
                        by[u] = b
            for x, y in itertools.combinations(sorted(bset), 2):
                if root(x) != root(y):
                    continue
                d = IP.var(x) - IP.var(y)
                z = cmp0(d, "eq")
                if PATH.feasible(z3.And(z, *zs)) and PATH.feasible(z3.And(z3.Not(z), *zs)):
                    pair = d
                    break
        if pair is None:
            out[m] = out.get(m, 0) + c
            continue
        changed = True
        steps += 1
        if steps > limit:
            return None
        for extra in (("eq", pair), ("ge", pair - IP.const(1)), ("ge", -pair - IP.const(1))):
            for k, x in reb(m[0], list(m[1]) + [extra], dict(m[2]), UNIT).d.items():
                todo.append((k, c * x))
    return Po({m: c for m, c in out.items() if c}) if changed else None


def split_edges(q):
    """of two sums of the same terms, one over p >= 0 and one over p >= 1: split off p == 0"""
    groups = {}
    for m, c in q.d.items():
        if m[0]:
            groups.setdefault(group_key(m), []).append(m)
    todo = {}
    for ms in groups.values():
        for m in ms:
            bset = set(m[0])
            for n in ms:
                if n is m or m in todo:
                    continue
                for t, p in m[1] - n[1]:
                    if t == "ge" and p.vars() & bset and ("ge", p - IP.const(1)) in n[1]:
                        todo[m] = p
                        break
    if not todo:
        return None
    out = ZERO
    for m, c in q.d.items():
        p = todo.get(m)
        if p is None:
            out = out + Po({m: c})
            continue
        for old in ([("eq", p)], [("ge", p - IP.const(1))]):
            cons = [x for x in m[1] if x != ("ge", p)] + old
            out = out + reb(m[0], cons, dict(m[2]), UNIT).scale(c)
    return out


def split_diagonals(q):
    """split each sum at coincidences of two bound (or bound/free) indices that
    occur in the same position of the same array"""
    out = ZERO
    changed = False
    for m, c in q.d.items():
        bs, cons, facs = m
        pair = None
        occ = {}
        for a, e in facs:
            if a[0] == "a":
                for i, x in enumerate(a[2]):
                    occ.setdefault((a[1], i), []).append(x)
        for k, xs in occ.items():
            for x, y in itertools.combinations(xs, 2):
                d = x - y
                if d.isconst() or not (d.vars() & set(bs)):
                    continue
                z = cmp0(d, "eq")
                zs = [cmp0(p, "ge" if t == "ge" else "eq") for t, p in cons]
                zs = [b for b in zs if not isinstance(b, bool)]
                if PATH.feasible(z3.And(z, *zs)) and PATH.feasible(z3.And(z3.Not(z), *zs)):
                    pair = d
                    break
            if pair is not None:
                break
        one = Po({m: c})
        if pair is None:
            out = out + one
            continue
        changed = True
        for extra in ([("eq", pair)], [("ge", pair - IP.const(1))], [("ge", -pair - IP.const(1))]):
            out = out + reb(bs, list(cons) + extra, dict(facs), UNIT).scale(c) if True else out
    return out if changed else None
