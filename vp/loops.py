"""For loops over ranges of symbolic length.

A loop  `for T in IT: BODY`  of /repo is kept as it is; beside it the loader
places the same BODY as a local function, used instead only when IT has a
symbolic number n of items (loader.py, rewrite_for).  `run` then derives the
effect of all n iterations from one execution of BODY at a generic iteration
i, 0 <= i < n -- the invariant is inferred, and checked to be inductive:

 * integer counters: the increment d(i) of one iteration is found by running
   BODY with the counters havoc'd; the closed form c0 + sum_{t<i} d(t) is then
   the entry value of iteration i, and BODY is run again from it to confirm
   that it takes the closed form at i to the closed form at i+1;
 * every other variable that BODY assigns is unknown (`Poison`) at entry and
   after the loop: using one stops the proof (Unsupported), never unsoundly;
 * real accumulators  x += e(i)  become sums;
 * arrays written by BODY: the content written at a generic i is recorded
   with the case distinctions made, reading such an array at positions not
   written in the same iteration is Unsupported, and the content after the
   loop is obtained by solving the written position for the loop indices
   (unique solution: ragged offsets or digits).  Writes of different
   iterations to the same position must be excluded by the solver.
"""
import ast
import copy
import itertools

import z3

from . import core
from .core import IP, PATH, SB, SI, PathEnd, Unsupported, cmp0, ip, mk, z2ip

LOOPS = []            # active loops, outermost first
SAFE_ROOTS = {"np", "itertools", "la", "sparse", "linalg", "math"}
SAFE_NAMES = {"set", "tuple", "list", "dict", "frozenset"}
SAFE_METHODS = {"copy", "reshape", "ravel", "flatten", "sum", "prod", "mean", "dot"}


# ------------------------------------------------------------------ rewriting
class _Scan(ast.NodeVisitor):
    def __init__(self):
        self.names, self.bad, self.subs, self.depth = [], None, set(), 0

    def no(self, why):
        self.bad = self.bad or why

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            if isinstance(b, ast.Name):
                self.subs.add(b.id)
            else:
                self.no("subscript store into an expression")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.no("attribute store")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name):
            import builtins
            if not (f.id.startswith("__vp_") or f.id in SAFE_NAMES or hasattr(builtins, f.id)) or f.id in (
                    "super", "exec", "eval", "locals", "vars", "setattr", "delattr", "print", "open", "next"):
                self.no(f"call of {f.id}")
        elif isinstance(f, ast.Attribute):
            r = f
            while isinstance(r, ast.Attribute):
                r = r.value
            if not (isinstance(r, ast.Name) and r.id in SAFE_ROOTS or f.attr in SAFE_METHODS):
                self.no(f"call of .{f.attr}")
        else:
            self.no("call")
        self.generic_visit(n)

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    visit_While = visit_For

    def visit_Break(self, n):
        if not self.depth:
            self.no("break")

    def visit_Continue(self, n):
        if not self.depth:
            self.no("continue")

    def _scope(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.no("definition in a loop")

    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _scope

    def visit_ListComp(self, n):
        sub = _Scan()
        sub.generic_visit(n)
        self.bad = self.bad or sub.bad

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda = visit_ListComp

    def _no(self, n):
        self.no(type(n).__name__)

    visit_Return = visit_Yield = visit_YieldFrom = visit_Await = visit_Delete = visit_Global = visit_Nonlocal = _no
    visit_Import = visit_ImportFrom = visit_With = visit_Try = visit_NamedExpr = visit_Raise = _no


def scan(n):
    s = _Scan()
    s.visit(n.target)
    tnames = list(s.names)
    if s.bad or not isinstance(n.target, (ast.Name, ast.Tuple)):
        return None
    for x in n.body:
        s.visit(x)
    if n.orelse:
        s.no("else")
    return s, tnames


_K = [0]


def rewrite_for(n, where, info):
    """n: the visited loop; info: scan of the original one"""
    if info is None or info[0].bad or not where or not where[-1][1]:
        return n
    s, tnames = info
    _K[0] += 1
    k = _K[0]
    names = s.names
    nl = ", ".join(names)
    setter = "\n".join(f"        {'if' if j == 0 else 'elif'} __n == {a!r}: {a} = __v" for j, a in enumerate(names))
    cells = ", ".join(f"({a!r}, lambda: {a})" for a in names)
    subs = ", ".join(f"({a!r}, lambda: {a})" for a in sorted(s.subs))
    text = f"""
__vp_it{k} = None
if __vp_loops__.issym(__vp_it{k}):
    if __vp_loops__ is None:
{chr(10).join(f'        {a} = None' for a in names)}
    def __vp_set{k}(__n, __v):
        nonlocal {nl}
{setter}
    def __vp_body{k}(__vp_x):
        nonlocal {nl}
        pass
    __vp_loops__.run(__vp_it{k}, __vp_body{k}, [{cells}], __vp_set{k}, [{subs}], {tnames!r})
else:
    pass
"""
    tree = ast.parse(text).body
    for t in tree:
        for x in ast.walk(t):
            if "lineno" in x._attributes:
                x.lineno = x.end_lineno = n.lineno
                x.col_offset = x.end_col_offset = 0
    tree[0].value = n.iter
    iff = tree[1]
    body = next(x for x in iff.body if isinstance(x, ast.FunctionDef) and x.name.startswith("__vp_body"))
    body.body[-1:] = [ast.Assign([copy.deepcopy(n.target)], ast.Name("__vp_x", ast.Load()))] + copy.deepcopy(n.body)
    n.iter = ast.Name(f"__vp_it{k}", ast.Load())
    iff.orelse = [n]
    return tree


# ------------------------------------------------------------------ execution
def issym(it):
    from . import arrays
    return isinstance(it, arrays.SymList)


class Poison:
    """a value the engine does not know"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


def _poison(name):
    def f(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))
    return f


for _n in ("getattr setattr call add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow matmul "
           "rmatmul neg pos abs eq ne lt le gt ge bool len iter getitem setitem contains index int float hash and or "
           "rand ror invert array format").split():
    if _n != "getattr":
        setattr(Poison, f"__{_n}__", _poison(_n))


def _pg(self, a):
    raise Unsupported(object.__getattribute__(self, "why"))


Poison.__getattr__ = _pg


class Event:
    """one write:  store[pattern] = value  for all binder values satisfying conds"""

    def __init__(self, store, pattern, value, stamp):
        self.store, self.pattern, self.value = store, pattern, value
        self.binders = []         # [(name, length IP)] outermost first
        self.conds = []           # [("ge"|"eq", IP)]
        self.stamp = stamp

    def copy(self):
        e = Event(self.store, self.pattern, self.value, self.stamp)
        e.binders, e.conds = list(self.binders), list(self.conds)
        return e


class Loop:
    def __init__(self):
        from . import arrays
        self.seq = arrays.Store.count[0]
        self.events = []
        self.touched = {}
        self.blocked = None
        self.var = None


def on_write(view, g, extra):
    """hook of A.write: called before the store changes"""
    if not LOOPS:
        return
    st = view.store
    if st.seq > LOOPS[-1].seq:
        return
    lp = LOOPS[-1]
    if st not in lp.touched:
        lp.touched[st] = st.f
    if lp.blocked is None:
        return                     # phase 1: only which stores
    if st not in lp.blocked:
        raise Unsupported("a loop writes an array that its first symbolic execution did not")
    if exploring():
        return
    if extra is not None:
        raise Unsupported("conditional write in a symbolic loop")
    record(lp, view, g)


def exploring():
    """inside the search for the invariant of some loop: nothing is concluded"""
    return any(l.blocked is None for l in LOOPS)


def record(lp, view, g):
    n = len(view._shape)
    dims = [PATH.norm(ip(d)) for d in view._shape]
    if view.sel is None:
        pat0 = [("w", k, IP.const(0), 1) for k in range(n)]
    else:
        pat0 = []
        for s in view.sel:
            if s[0] == "fix":
                pat0.append(("fix", s[1]))
            else:
                pat0.append(("w", s[1], s[2], s[3]))
    small = [d.isconst() and d.cval() <= 6 for d in dims]
    stamp = next(_stamp)
    for combo in itertools.product(*[range(int(d.cval())) if sm else [None] for d, sm in zip(dims, small)]):
        sc = PATH.push()
        try:
            vidx, ws = [], {}
            for k, c in enumerate(combo):
                if c is not None:
                    vidx.append(IP.const(c))
                else:
                    w = PATH.fresh("w")
                    ws[k] = w
                    vidx.append(IP.var(w))
                    PATH.assume(core.inrange(w, dims[k]))
            val = g(tuple(vidx))
        finally:
            PATH.pop(sc)
        pat = []
        for p in pat0:
            if p[0] == "fix":
                pat.append(("fix", structured(p[1])))
            elif combo[p[1]] is not None:
                pat.append(("fix", (None, p[2] + IP.const(combo[p[1]] * p[3]))))
            else:
                pat.append(("w", ws[p[1]], p[2], p[3], dims[p[1]]))
        lp.events.append(Event(view.store, pat, val, stamp))


_stamp = itertools.count()


def structured(p):
    """is p a counter with known ragged structure? -> (structure, digits) or (None, p)"""
    q = PATH.norm(p)
    for lp in reversed(LOOPS):
        for c, st, digits in getattr(lp, "decs", ()):
            if PATH.norm(c) == q:
                return (st, digits)
    return (None, p)


def counter_lemma(p, n):
    """a position offset(i) + j of a ragged concatenation lies within it"""
    if LOOPS:
        st, _ = structured(p)
        if st is not None and not isinstance(st, Plain):
            return PATH.norm(st.size() - n) == IP({})
    return False


def raiser(why):
    def f(idx):
        raise Unsupported(why)
    return f


def parse_cond(z, out):
    """z3 branch condition -> conjunction of ("ge"/"eq", IP)"""
    if z3.is_and(z):
        for c in z.children():
            parse_cond(c, out)
        return
    if z3.is_true(z):
        return
    neg = False
    w = z
    while z3.is_not(w):
        neg = not neg
        w = w.arg(0)
    if w.num_args() == 2 and w.arg(0).sort() == z3.IntSort():
        a, b = z2ip(w.arg(0)), z2ip(w.arg(1))
        if a is not None and b is not None:
            d = a - b
            one = IP.const(1)
            if z3.is_eq(w) and not neg:
                out.append(("eq", d))
                return
            if z3.is_eq(w) or z3.is_distinct(w) and not neg:
                if PATH.entails(cmp0(PATH.norm(d), "ge")):
                    out.append(("ge", d - one))
                    return
                if PATH.entails(cmp0(PATH.norm(d), "le")):
                    out.append(("ge", -d - one))
                    return
                raise Unsupported("disequality of unordered indices in a symbolic loop")
            ge = {True: z3.is_ge, False: z3.is_le}
            if z3.is_ge(w):
                r = ("ge", d) if not neg else ("ge", -d - one)
            elif z3.is_gt(w):
                r = ("ge", d - one) if not neg else ("ge", -d)
            elif z3.is_le(w):
                r = ("ge", -d) if not neg else ("ge", d - one)
            elif z3.is_lt(w):
                r = ("ge", -d - one) if not neg else ("ge", d)
            else:
                raise Unsupported("branch in a symbolic loop on an unrecognised condition")
            out.append(r)
            return
    raise Unsupported("branch in a symbolic loop on an unrecognised condition")


def isint(v):
    return isinstance(v, SI) or (isinstance(v, int) and not isinstance(v, bool))


def run(it, body, cells, setter, subs, tnames):
    from . import arrays
    n = PATH.norm(ip(it.n))
    if n.isconst():
        for k in range(int(n.cval())):
            body(it.f(k))
        return
    for name, get in subs:
        try:
            v = get()
        except NameError:
            continue
        if not isinstance(v, arrays.A):
            raise Unsupported("a symbolic loop stores items of something other than an array")
    entry = {}
    for name, get in cells:
        try:
            entry[name] = get()
        except NameError:
            pass
    why = "value of a loop variable in or after a loop of symbolic length"
    ints = {a: v for a, v in entry.items() if isint(v) and a not in tnames}
    accs = {a: v for a, v in entry.items() if isinstance(v, arrays.SR) or isinstance(v, float)}
    lp = Loop()
    i = PATH.fresh("it")
    lp.var, lp.n = i, n
    iv = IP.var(i)

    def enter(vals):
        for name, _ in cells:
            setter(name, vals.get(name, Poison(why)))

    def one_pass(vals, after):
        def go():
            PATH.assume(core.inrange(i, n))
            lp.touched = {}
            nb = len(PATH.branches)
            if lp.blocked is not None:
                for s in lp.blocked:
                    lp.touched[s] = s.f
                    s.f = raiser("a loop reads an array that it also writes")
            LOOPS.append(lp)
            try:
                enter(vals)
                if lp.blocked is not None:
                    register(lp, vals)
                ev0 = len(lp.events)
                body(it.f(mk(iv)))
                conds = []
                for z in PATH.branches[nb:]:
                    parse_cond(z, conds)
                for e in lp.events[ev0:]:
                    e.conds += conds
                return after({name: get for name, get in cells})
            except Unsupported:
                raise
            except Exception as ex:
                if lp.blocked is None or exploring():
                    raise PathEnd("only the search for the invariant") from ex
                raise Unsupported(f"exception in a symbolic loop ({type(ex).__name__}: {ex})"[:150]) from ex
            finally:
                LOOPS.pop()
                for s, f in lp.touched.items():
                    s.f = f
        return PATH.locally(go)

    # ---- phase 1: increments of the counters, arrays written
    hav = {a: SI(IP.var(PATH.fresh("ctr"))) for a in ints}
    xs = {a: arrays.SR(arrays.T.atom(("a", PATH.fresh("acc") + "#", ()))) for a in accs}
    touched = {}

    def after1(now):
        for s in lp.touched:
            touched[s] = True
        d = {}
        for a in ints:
            v = now[a]()
            q = PATH.norm(ip(v) - hav[a].p) if isint(v) else None
            d[a] = None if q is None or any(h.p.vars() & q.vars() for h in hav.values()) else q
        return d
    ds = one_pass({**hav, **xs}, after1)
    if not ds:
        return                        # no iteration is feasible
    delta = {}
    for a in ints:
        alts = [d[a] for d in ds]
        if all(x is not None and x == alts[0] for x in alts):
            delta[a] = alts[0]
    form = {}
    for a, d in delta.items():
        S = arrays.faulhaber(d, i)
        form[a] = (ip(ints[a]), d, S)
    lp.form, lp.delta = form, delta
    lp.blocked = set(touched)

    # ---- phase 2: the invariant is inductive; what is written
    vals = {a: mk(c0 + S) for a, (c0, d, S) in form.items()}
    vals.update(xs)
    lp.events = []

    def after2(now):
        for a, (c0, d, S) in form.items():
            v = now[a]()
            want = c0 + S.subst({i: iv + IP.const(1)})
            if not isint(v) or PATH.norm(ip(v) - want).d:
                raise Unsupported("loop counter without a closed form")
        acc = {}
        for a in accs:
            v = now[a]()
            if not isinstance(v, arrays.SR):
                acc[a] = None
                continue
            d = v.t - xs[a].t
            acc[a] = d if not any(x.t.skey() in d.skey() for x in xs.values()) else None
        return acc
    accd = one_pass(vals, after2) if not exploring() else []
    if accs and lp.events:
        # the values written may depend on the accumulators: their values at entry of iteration i
        for a in accs:
            d = accd[0].get(a) if len(accd) == 1 else None
            vals[a] = Poison(why) if d is None else arrays.SR(
                arrays.po(accs[a]) + arrays.T.psum(lambda v: d.subst({i: v}), IP.const(0), iv))
        lp.events = []
        one_pass(vals, lambda now: None)
    for e in lp.events:
        e.binders.insert(0, (i, n))
    # ---- after the loop
    final = {a: mk(c0 + S.subst({i: n})) for a, (c0, d, S) in form.items()}
    for a in accs:
        if len(accd) == 1 and a in accd[0] and accd[0][a] is not None:
            d = accd[0][a]
            p0 = arrays.po(accs[a])
            final[a] = arrays.SR(p0 + arrays.T.psum(lambda v: d.subst({i: v}), IP.const(0), n))
    for name, _ in cells:
        setter(name, final.get(name, Poison(why)))
    outer = LOOPS[-1] if LOOPS else None
    by = {}
    for e in lp.events:
        by.setdefault(e.store, []).append(e)
    for st in lp.blocked:
        evs = by.get(st, [])
        if outer is not None and st.seq <= outer.seq:
            if st not in outer.touched:
                outer.touched[st] = st.f
            if not exploring():
                if st not in outer.blocked:
                    raise Unsupported("a loop writes an array that its first symbolic execution did not")
                outer.events += [e.copy() for e in evs]
            st.f = raiser("an array written by an inner loop is read in the same iteration of the outer loop")
        elif not exploring():
            apply(st, evs)
        else:
            st.f = raiser("content of an array during the search for an invariant")


def register(lp, vals):
    """counters of a loop nest whose innermost increment is 1: ragged structure"""
    from . import arrays
    lp.decs = []
    # chain of enclosing loops in which a counter of the same closed form runs
    for a, (c0, d, S) in lp.form.items():
        if d != IP.const(1):
            continue
        chain = [(lp, d)]
        base = c0                      # value at entry of this loop
        for up in reversed(LOOPS[:-1]):
            hit = None
            for b, (u0, ud, uS) in getattr(up, "form", {}).items():
                if PATH.norm(base - (u0 + uS)) == IP({}):
                    hit = (up, ud, u0)
            if not hit:
                break
            chain.insert(0, (hit[0], hit[1]))
            base = hit[2]
        if base.d:
            continue
        st = build([(l.var, l.n, dd) for l, dd in chain])
        if st is None:
            continue
        dig = nest_digits([l.var for l, _ in chain])
        p = PATH.norm(ip(vals[a]))
        lp.decs.append((p, st, dig))
        if len(chain) > 1:
            reg_nest(st, dig)


def nest_digits(vs):
    if len(vs) == 1:
        return IP.var(vs[0])
    return (IP.var(vs[0]), nest_digits(vs[1:]))


def reg_nest(st, dig):
    from . import arrays
    i, j = dig
    if isinstance(j, tuple):
        j = reg_nest(st.inner(i) if isinstance(st, arrays.Ragged) else st.s2, j)
    return arrays.reg(st, i, j)


def build(levels):
    """structure of the counter of a nest [(var, n, increment per iteration)]"""
    from . import arrays
    v, n, d = levels[0]
    if len(levels) == 1:
        return Plain(n)
    # the increment of an outer iteration is the whole inner loop
    v2, n2, d2 = levels[1]
    if PATH.norm(d - arrays.faulhaber(d2, v2).subst({v2: n2})) != IP({}):
        return None
    sub = build(levels[1:])
    if sub is None:
        return None
    if v in d.vars():
        if isinstance(sub, Plain):
            return arrays.Ragged(n, d, v)

        def inner(t):
            return build([(w, m.subst({v: t}), e.subst({v: t})) for w, m, e in levels[1:]])
        return arrays.Ragged(n, d, v, inner)
    if any(v in m.vars() for _, m, _ in levels[1:]):
        return None
    return arrays.Prod(n, d, None, None if isinstance(sub, Plain) else sub)


class Plain:
    def __init__(self, n):
        self.n = n


# -------------------------------------------------------------- what is left
class Solved:
    pass


def axis_structure(st, k, evs):
    """structure of axis k of the store that the written positions reveal"""
    from . import arrays
    found = None
    for e in evs:
        p = e.pattern[k]
        if p[0] == "fix" and p[1][0] is not None and not isinstance(p[1][0], Plain):
            s = p[1][0]
            if found is not None and found.key() != s.key():
                raise Unsupported("positions of different structure written in one loop")
            found = s
    if found is not None:
        return found
    bvs = {b for e in evs for b, _ in e.binders}
    fix = [e.pattern[k][1][1] for e in evs if e.pattern[k][0] == "fix"]
    N = PATH.norm(ip(st.shape[k]))
    if any(max((sum(x for v, x in m if v not in bvs) for m in p.d), default=0) > 0 and
           any(v in bvs and len(m) > 1 for m in p.d for v, _ in m) for p in fix) or any(
               len([m for m in p.d if any(v in bvs for v, _ in m)]) > 1 for p in fix):
        return arrays.power_structure(N)
    return None


def split(struct, p):
    """digits of the polynomial position p in a Prod structure (nested tuples)"""
    from . import arrays
    if struct is None or isinstance(struct, Plain):
        return p
    if isinstance(struct, arrays.Prod):
        d = arrays.split_digits(p, struct)
        if d is not None:
            return d
    raise Unsupported("position of a write without recognised structure")


def decode(struct, x):
    from . import arrays
    if struct is None or isinstance(struct, Plain):
        return x
    i, j = struct.decode(x)
    inner = struct.inner(i) if isinstance(struct, arrays.Ragged) and struct.inner else getattr(struct, "s2", None)
    return (i, decode(inner, j))


def flatten(d):
    if isinstance(d, tuple):
        return [d[0]] + flatten(d[1])
    return [d]


def lin_solve(eqs, unknowns):
    """solve linear equations p == 0 for the unknowns; -> (solution, leftover)"""
    sol, rest = {}, []
    todo = list(eqs)
    progress = True
    while progress:
        progress = False
        nxt = []
        for p in todo:
            p = p.subst(sol) if sol else p
            if not p.d:
                continue
            done = False
            for u in sorted(p.vars() & unknowns):
                c = p.lincoef(u)
                if c is not None and abs(c) == 1:
                    e = IP.var(u) - p.scale(1 / c)
                    if u in e.vars():
                        continue
                    sol = {w: q.subst({u: e}) for w, q in sol.items()}
                    sol[u] = e
                    done = progress = True
                    break
            if not done:
                nxt.append(p)
        todo = nxt
    return sol, todo


def prepare(e, structs):
    """event -> function idx -> (solution, guards)"""
    digs = {}
    sc = PATH.push()
    try:
        for b, n in e.binders:
            PATH.assume(core.inrange(b, n))
        for t, p in e.conds:
            PATH.assume(cmp0(p, "ge" if t == "ge" else "eq"))
        for k, p in enumerate(e.pattern):
            if p[0] == "fix":
                st, d = p[1]
                s = structs.get(k)
                if st is not None and s is not None and not isinstance(st, Plain):
                    digs[k] = flatten(d)
                elif s is not None:
                    digs[k] = flatten(split(s, d if st is None else d))
                else:
                    digs[k] = [d]
    finally:
        PATH.pop(sc)
    unknown = {b for b, _ in e.binders} | {p[1] for p in e.pattern if p[0] == "w"}
    rng = []
    for b, n in e.binders:
        rng += [("ge", IP.var(b)), ("ge", n - IP.var(b) - IP.const(1))]
    for p in e.pattern:
        if p[0] == "w":
            rng += [("ge", IP.var(p[1])), ("ge", p[4] - IP.var(p[1]) - IP.const(1))]

    def solve(xd):
        """xd: digits of the position, per axis"""
        eqs = []
        for k, p in enumerate(e.pattern):
            if p[0] == "w":
                eqs.append(p[2] + IP.var(p[1]).scale(core.Fraction(p[3])) - xd[k][0])
            else:
                eqs += [a - b for a, b in zip(digs[k], xd[k])]
        eqs += [p for t, p in e.conds if t == "eq"]
        sol, left = lin_solve(eqs, unknown)
        if any(u not in sol for u in unknown) or any(q.vars() & unknown for q in sol.values()):
            raise Unsupported("cannot solve a written position for the loop indices")
        guards = [("eq", q) for q in left]
        guards += [(t, p.subst(sol)) for t, p in rng + [c for c in e.conds if c[0] == "ge"]]
        return sol, guards
    return solve


def apply(st, evs):
    """content of the store after the loop (no enclosing loop knows it)"""
    from . import arrays
    T = arrays.T
    if not evs:
        return
    old = st.f
    structs = {}
    for k in range(len(st.shape)):
        s = axis_structure(st, k, evs)
        if s is not None:
            if PATH.norm(s.size() - ip(st.shape[k])) != IP({}):
                raise Unsupported("the positions written do not span the axis")
            structs[k] = s
    solvers = [prepare(e, structs) for e in evs]
    # writes of different iterations never meet
    sc = PATH.push()
    try:
        xd = []
        for k, d in enumerate(st.shape):
            if k in structs:
                xd.append(skolem_digits(structs[k]))
            else:
                v = PATH.fresh("x")
                PATH.assume(core.inrange(v, ip(d)))
                xd.append([IP.var(v)])
        sols = [s(xd) for s in solvers]
        conj = []
        for sol, guards in sols:
            zs = [cmp0(PATH.norm(p), "ge" if t == "ge" else "eq") for t, p in guards]
            conj.append(z3.BoolVal(False) if any(z is False for z in zs) else z3.And([z for z in zs if z is not True]))
        disjoint = len(evs) == 1 or PATH.check(z3.PbGe([(g, 1) for g in conj], 2)) == z3.unsat
        covered = disjoint and PATH.check(z3.Not(z3.Or(conj))) == z3.unsat
        for a in range(len(evs)):
            for b in range(0 if disjoint else a):
                sa, sb = sols[a], sols[b]
                if any(evs[a].pattern[k][0] == evs[b].pattern[k][0] == "fix" and
                       const_apart(evs[a].pattern[k][1], evs[b].pattern[k][1], evs[a].binders) for k in range(len(st.shape))):
                    continue
                sc2 = PATH.push()
                try:
                    ok = False
                    for t, p in sa[1] + sb[1]:
                        z = cmp0(PATH.norm(p), "ge" if t == "ge" else "eq")
                        if z is False:
                            ok = True
                            break
                        PATH.assume(z)
                    if ok or PATH.check() == z3.unsat:
                        continue
                    common = [x for x, _ in evs[a].binders if any(x == y for y, _ in evs[b].binders)]
                    if len(common) != len(evs[a].binders) or len(common) != len(evs[b].binders) or any(
                            not PATH.entails(cmp0(PATH.norm(sa[0][x] - sb[0][x]), "eq")) for x in common):
                        raise Unsupported("writes of different iterations may meet")
                finally:
                    PATH.pop(sc2)
    finally:
        PATH.pop(sc)
    order = sorted(range(len(evs)), key=lambda j: evs[j].stamp)

    def newf(idx):
        xd = [flatten(decode(structs.get(k), x)) for k, x in enumerate(idx)]

        if covered:
            out = T.ZERO
            for e, solver in zip(evs, solvers):
                sol, guards = solver(xd)
                guards = [(t, q) for t, q in ((t, PATH.norm(p)) for t, p in guards) if not (
                    q.isconst() and (q.cval() == 0 if t == "eq" else q.cval() >= 0))]
                zs = [cmp0(q, "ge" if t == "ge" else "eq") for t, q in guards]
                if any(z is False for z in zs) or zs and not PATH.feasible(z3.And(zs)):
                    continue
                out = out + T.guard(guards, e.value.subst(sol))
            return out

        def chain(m):
            if m < 0:
                return old(idx)
            e = evs[order[m]]
            sol, guards = solvers[order[m]](xd)
            return T.ite(guards, lambda: e.value.subst(sol), lambda: chain(m - 1))
        return chain(len(order) - 1)
    st.f = arrays.memo(newf)
    if structs:
        st.struct = structs


def const_apart(a, b, binders):
    """two positions, the same in all iterations, that differ"""
    return a[0] is None and b[0] is None and (a[1] - b[1]).isconst() and (a[1] - b[1]).d and \
        not (a[1].vars() | b[1].vars()) & {x for x, _ in binders}


def skolem_digits(s):
    from . import arrays
    if s is None or isinstance(s, Plain):
        raise Unsupported("digits")
    i = PATH.fresh("x")
    PATH.assume(core.inrange(i, s.n1 if isinstance(s, arrays.Prod) else s.n))
    i = IP.var(i)
    if isinstance(s, arrays.Prod):
        inner, n = s.s2, s.n2
    else:
        inner, n = (s.inner(i) if s.inner else None), s.L(i)
    if inner is None or isinstance(inner, Plain):
        j = PATH.fresh("x")
        PATH.assume(core.inrange(j, n))
        return [i, IP.var(j)]
    return [i] + skolem_digits(inner)
