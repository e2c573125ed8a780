"""Rewriting with assumed contracts of external numerical routines.

A rule says   Sum_{bound pattern indices over their full ranges} prod pattern atoms  =  rhs.
Pattern atoms: (array name, (index, ...)), index = "?x" (free pattern variable),
"!k" (bound pattern variable) or an IP.
"""
from . import core
from .core import IP, PATH, cmp0
from . import terms as T
import z3
from fractions import Fraction


class Off:
    """pattern  name + offset"""
    def __init__(self, name, off):
        self.name, self.off = name, off

    def __repr__(self):
        return f"{self.name}+{self.off!r}"


def patname(q):
    return q if isinstance(q, str) else q.name if isinstance(q, Off) else None


class Rule:
    def __init__(self, name, ranges, facs, rhs, free=None):
        self.free = free or {}        # {"?x": IP upper bound}
        self.name = name
        self.ranges = ranges          # {"!k": IP upper bound}
        self.facs = facs
        self.rhs = rhs                # function(dict) -> Po
        self.used = 0


def add(rule):
    PATH.rules.append(rule)


def active():
    return bool(PATH.rules)


def reduce(p):
    if not PATH.rules:
        return p
    for _ in range(200):
        for m, c in p.d.items():
            r = apply_one(m)
            if r is not None:
                p = T.Po({k: v for k, v in p.d.items() if k != m}) + r.scale(c)
                break
        else:
            return p
    return p


def apply_one(m):
    bs, cons, facs = m
    names = {a[1] for a, e in facs if a[0] == "a"}
    for rule in PATH.rules:
        if not all(f[0] in names for f in rule.facs):
            continue
        r = _match(rule, m)
        if r is not None:
            rule.used += 1
            return r
    return None


def inside(x, hi, cons):
    """0 <= x < hi under the constraints of the sum"""
    up = PATH.norm(hi - x - IP.const(1))
    if ("ge", x) in cons and ("ge", up) in cons:
        return True
    z = [cmp0(x, "ge"), cmp0(up, "ge")]
    if any(y is False for y in z):
        return False
    z = [y for y in z if y is not True]
    if not z:
        return True
    vs = {w for _, p in cons for w in p.vars()}
    if not ((x.vars() | up.vars()) & vs):
        return PATH.entails(z3.And(*z))
    k = [y for y in (cmp0(p, "ge" if t == "ge" else "eq") for t, p in cons) if y is not True]
    if any(y is False for y in k):
        return True
    return not PATH.feasible(z3.And(*k, z3.Not(z3.And(*z))))


def _match(rule, m):
    bs, cons, facs = m
    avail = [(a, e) for a, e in facs if a[0] == "a" and isinstance(e, (int, Fraction))]

    def rec(i, env, counts):
        if i == len(rule.facs):
            return finish(env, counts)
        nm, idx, step = (*rule.facs[i], 1)[:3]
        for a, e in avail:
            if a[1] != nm:
                continue
            if step == 1:
                if counts.get(a, 0) >= e:
                    continue
            elif counts.get(a, 0) or not (e == step or (e - step).denominator == 1 and (e - step) * step > 0):
                continue
            for ai in ((a[2], a[2][::-1]) if nm in PATH.sym2 and a[2][0] != a[2][1] else (a[2],)):
                env2 = dict(env)
                ok = True
                for pat, x in zip(idx, ai):
                    if isinstance(pat, Off):
                        pat, x = pat.name, x - pat.off
                    if isinstance(pat, str):
                        if pat in env2:
                            if env2[pat] != x:
                                ok = False
                                break
                        else:
                            if pat[0] == "!":
                                vs = x.vars() & set(bs)
                                if len(vs) != 1 or x.lincoef(next(iter(vs))) != 1 or any(
                                        y.vars() & vs for q, y in env2.items() if q[0] == "!"):
                                    ok = False
                                    break
                            env2[pat] = x
                    elif pat != x:
                        ok = False
                        break
                if not ok:
                    continue
                r = rec(i + 1, env2, {**counts, a: counts.get(a, 0) + step})
                if r is not None:
                    return r
        return None

    def finish(env, counts):
        rest = {}
        for a, e in facs:
            k = counts.get(a, 0)
            if k:
                e = e - k
                if isinstance(e, Fraction) and e.denominator == 1:
                    e = int(e)
            if e != 0:
                rest[a] = e
        bound = {next(iter(env[q].vars() & set(bs))): (env[q], hi) for q, hi in rule.ranges.items() if q in env}
        if len(bound) != len(rule.ranges):
            return None
        used = set()
        for a, e in rest.items():
            T.a_vars(a, used)
        for q, x in env.items():
            if q[0] == "?":
                used |= x.vars()
        if used & set(bound):
            return None
        keep = [(t, p) for t, p in cons if not (p.vars() & set(bound))]
        mine = [(t, p) for t, p in cons if p.vars() & set(bound)]
        want = set()
        for x, hi in bound.values():
            want.add(("ge", x))
            want.add(("ge", PATH.norm(hi - x - IP.const(1))))
        if set(mine) != want:
            z = lambda cs: [x for x in (cmp0(p, "ge" if t == "ge" else "eq") for t, p in cs) if x is not True]
            if any(x is False for x in z(mine)):
                return None
            k = z(keep)
            A, B = z(mine), z(want)
            if PATH.feasible(z3.And(*k, z3.Xor(z3.And(*A), z3.And(*B)))):
                return None
        for q, hi in rule.free.items():
            if q in env and not inside(env[q], hi, keep):
                return None
        nb = tuple(b for b in bs if b not in bound)
        ren = {b: IP.var(T.fresh()) for b in nb}       # before instantiating: the right side has bound names too
        rhs = rule.rhs({q: x.subst(ren) for q, x in env.items() if q[0] == "?"})
        fl = T._ren_facs(list(rest.items()), ren) if ren else list(rest.items())
        cs = [(t, p.subst(ren)) for t, p in keep]
        acc = {}
        for (b2, c2, f2), k in rhs.d.items():
            r2 = {b: IP.var(T.fresh()) for b in b2}
            f2 = T._ren_facs(f2, r2) if r2 else list(f2)
            for mm, c in T.build(tuple(T.v_of(ren[b]) for b in nb) + tuple(T.v_of(r2[b]) for b in b2),
                                 cs + [(t, p.subst(r2)) for t, p in c2], fl + f2).items():
                acc[mm] = acc.get(mm, 0) + c * k
        return T.Po(acc)

    return rec(0, {}, {})


def delta(a, b):
    """[a == b] as a term"""
    return T.ite([("eq", a - b)], lambda: T.UNIT, lambda: T.ZERO)
