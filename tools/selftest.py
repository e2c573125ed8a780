"""Self-test of the verifier:  python tools/selftest.py  (not a check; run by hand).

1. numpy: each expression is evaluated by the symbolic engine with symbolic dimensions; every element of the result,
   on every path, is then evaluated numerically for several concrete dimensions and compared with real numpy.
   Every concrete element must be covered by some path.
2. loops: the same for functions with loops over symbolic ranges, against CPython.
3. h5py: vp.fakeh5 and the real h5py run the same operations.
"""
import os
import sys
import zlib
import itertools

sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from vp import worker                                   # noqa: E402
worker.setup("sym")
import numpy as np                                      # noqa: E402
import scipy.linalg as sla                              # noqa: E402
import ast                                              # noqa: E402
import builtins                                         # noqa: E402
from vp import core, arrays, terms as T, harness, loader, shim, loops   # noqa: E402

z3 = core.z3
SIZES = [dict(n=a, m=b, k=c) for a, b, c in [(1, 1, 1), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 2, 2), (4, 4, 3), (3, 5, 4)]]


def value(name, idx):
    return (zlib.crc32(repr((name, tuple(int(i) for i in idx))).encode()) % 193 + 1) / 32 - 2.984375


def concrete(name, shape, sign=None):
    x = np.empty(shape)
    for i in np.ndindex(*shape):
        v = value(name, i)
        x[i] = abs(v) if sign == "pos" else v
    return x


class NoValue(Exception):
    pass


def ev_ip(c, env):
    x = c.subst({k: core.IP.const(v) for k, v in env.items()})
    if x.vars():
        raise NoValue(sorted(x.vars()))
    return x.cval()


def ev_atom(a, e, pos):
    t = a[0]
    if t == "a":
        v = value(a[1], [ev_ip(x, e) for x in a[2]])
        return abs(v) if a[1] in pos else v
    if t == "v":
        return float(e[a[1]])
    if t == "p":
        return ev(a[1], e, pos)
    if t == "ind":
        x = ev(a[2], e, pos)
        return float({"gt": x > 1e-12, "ge": x > -1e-12, "eq": abs(x) < 1e-12}[a[1]])
    if t == "f":
        xs = [ev(x, e, pos) if isinstance(x, T.Po) else float(ev_ip(x, e)) if isinstance(x, core.IP) else x for x in a[2]]
        f = {"sqrt": lambda x: np.sqrt(x), "abs": abs, "sgn": np.sign, "exp": np.exp, "log": np.log, "sin": np.sin,
             "cos": np.cos, "pow": lambda x, y: x ** y}.get(a[1])
        if f is None:
            raise NoValue(a[1])
        return float(f(*xs))
    raise NoValue(t)


def ev(p, env, pos, hi=40):
    total = 0.
    for (bs, cons, facs), coef in p.d.items():
        def rec(k, e):
            if k == len(bs):
                for t, c in cons:
                    x = ev_ip(c, e)
                    if not {"ge": x >= 0, "eq": x == 0, "ne": x != 0}[t]:
                        return 0.
                out = 1.
                for a, ex in facs:
                    x = ev_ip(ex, e) if isinstance(ex, core.IP) else ev(ex, e, pos) if isinstance(ex, T.Po) else ex
                    out *= ev_atom(a, e, pos) ** float(x)
                return out
            s = 0.
            for x in range(-1, hi):
                e2 = dict(e)
                e2[bs[k]] = x
                if all({"ge": y >= 0, "eq": y == 0, "ne": y != 0}[t] for t, c in cons if c.vars() <= set(e2)
                       for y in [ev_ip(c, e2)]):
                    s += rec(k + 1, e2)
            return s
        total += float(coef) * rec(0, dict(env))
    return total


def real_conditions(P):
    for a in P.solver.assertions():
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("r:"):
                return True
            todo += x.children()
    return False


def selftest(label, symf, realf):
    """symf(V) -> result;  realf(dims) -> result (arrays or tuples of arrays)"""
    covered, bad, info = {}, [], {"unsupported": set(), "paths": 0, "skipped": 0}
    reals = {}
    for s in SIZES:
        try:
            r = realf(dict(s))
            reals[tuple(s.values())] = [np.asarray(x) for x in (r if isinstance(r, (tuple, list)) else (r,))]
        except Exception as ex:
            reals[tuple(s.values())] = ex

    def run():
        V = harness.SymV(None)
        V.case = {}
        core.PATH._V = V
        raised = None
        try:
            R = symf(V)
        except (core.Unsupported, core.PathEnd):
            raise
        except Exception as ex:
            raised = ex
        P = core.PATH
        info["paths"] += 1
        if real_conditions(P):
            info["skipped"] += 1
            return
        pos = {n for n, d in P.realdecl.items() if d == "pos"}
        if raised is None:
            R = [arrays.asarr(x) for x in (R if isinstance(R, (tuple, list)) else (R,))]
        for size, real in reals.items():
            env0 = dict(zip("nmk", size))
            fix = [core.zvar(v) == x for v, x in env0.items()]
            P.solver.push()
            P.solver.add(*fix)
            sat = P.solver.check() == z3.sat
            P.solver.pop()
            if not sat:
                continue
            if raised is not None:
                if not isinstance(real, Exception):
                    bad.append((size, f"raises {raised!r}"))
                covered[size, -1, ()] = True
                continue
            if isinstance(real, Exception):
                bad.append((size, f"does not raise {real!r}"))
                continue
            if len(real) != len(R):
                bad.append((size, "number of results"))
                continue
            for q, (x, y) in enumerate(zip(R, real)):
                def case():
                    idx = []
                    for ax in range(x.ndim):
                        idx.append(arrays.axis_skolem(x.shape[ax], x.struct.get(ax), f"st{ax}"))
                    t = x.get(tuple(idx))
                    if x.ndim != y.ndim:
                        bad.append((size, "ndim"))
                        return
                    flats = [arrays_flat(i, x.struct.get(ax)) for ax, i in enumerate(idx)]
                    for c in np.ndindex(*y.shape):
                        P.solver.push()
                        P.solver.add(*fix)
                        P.solver.add(*[f.z() == int(v) for f, v in zip(flats, c)])
                        ok = P.solver.check() == z3.sat
                        if ok:
                            m = P.solver.model()
                        P.solver.pop()
                        if not ok:
                            continue
                        if real_conditions(P):
                            info["skipped"] += 1
                            continue
                        env = {d.name(): m[d].as_long() for d in m.decls() if z3.is_int_value(m[d])}
                        env.update(env0)
                        covered[size, q, c] = True
                        if x.kind == "b" or isinstance(t, z3.BoolRef):
                            zt = z3.simplify(z3.substitute(core.zb_(t), *[(core.zvar(k), z3.IntVal(v)) for k, v in env.items()]))
                            got = z3.is_true(zt)
                            if not (z3.is_true(zt) or z3.is_false(zt)):
                                info["skipped"] += 1
                                continue
                        else:
                            try:
                                got = ev(t, env, pos)
                            except NoValue as ex:
                                info["unsupported"].add(f"no value: {ex}")
                                continue
                        if not np.isclose(got, float(np.real(y[c])), rtol=1e-9, atol=1e-9):
                            bad.append((size, q, c, got, float(y[c])))
                for ax, d in enumerate(x.shape):
                    dv = ev_ip(core.ip(d), env0)
                    if dv != y.shape[ax]:
                        bad.append((size, "shape", x.shape, y.shape))
                P.locally(case)

    outs = core.explore(run, budget_s=60)
    for o in outs:
        if o[0] in ("unsupported", "exception", "budget"):
            info["unsupported"].add(str(o[1])[:110])
            if os.environ.get("TB") and o[2]:
                import traceback
                traceback.print_exception(o[2])
    missing = []
    if not info["unsupported"] and not info["skipped"] and not bad:
        for size, real in reals.items():
            for q, y in enumerate([] if isinstance(real, Exception) else real):
                for c in np.ndindex(*y.shape):
                    if (size, q, c) not in covered:
                        missing.append((size, q, c))
    status = "WRONG" if bad else "UNCOVERED" if missing else "open" if info["unsupported"] else "ok"
    if status != "ok" or "-v" in sys.argv:
        print(f"{status:9} {label}  {(bad or missing or sorted(info['unsupported']) or '')!s:.300}"
              f"  [{info['paths']} paths, {len(covered)} elements, {info['skipped']} skipped]", flush=True)
    return status


def arrays_flat(i, struct):
    return loops.flatten(i) if not isinstance(i, core.IP) and hasattr(loops, "flatten") and not hasattr(i, "z") \
        else i if isinstance(i, core.IP) else core.ip(i)


# ------------------------------------------------------------------ 1. numpy
def inputs(get, dims):
    n, m, k = dims
    return dict(n=n, m=m, k=k, A=get("A", n, m), B=get("B", n, m), C=get("C", m, k), S=get("S", n, n), T3=get("T3", n, m, k),
                x=get("x", n), y=get("y", n), z=get("z", m), w=get("w", m), c=get("c", n, 1), r=get("r", 1, m))


EXPRS = """
A + B; A - 2 * B; A * x[:, None]; A @ C; x @ A; A @ z; x @ y; A.T; A.T @ A; -A; A / (1 + B**2); A**2; A**3; abs(A); np.sqrt(A**2 + 1)
A[0]; A[-1]; A[:, 0]; A[:, -1]; A[1:]; A[:-1]; A[::-1]; A[:, ::-1]; A[::2]; A[1::2]; A[:, 1::2]; A[-1:0:-1]; A[..., 0]; A[None]
A[:, None, :]; T3[0]; T3[:, 0]; T3[..., -1]; T3[:, :, ::2]; x[None, :]; x[:, None]; x[::-1]; x[1:] - x[:-1]
np.sum(A); np.sum(A, axis=0); np.sum(A, axis=1); A.sum(axis=-1, keepdims=True); np.mean(A, axis=1); np.mean(A); A.mean(axis=0)
np.sum(T3, axis=(0, 2)); np.var(A, axis=1); np.std(A, axis=1)**2; np.var(A, ddof=0); np.trace(S); np.diag(S); np.diag(x)
np.diagonal(S); np.dot(A, C); np.dot(x, y); np.outer(x, z); np.inner(x, y); np.tensordot(A, C, axes=1); np.tensordot(T3, A, axes=([0, 1], [0, 1]))
np.kron(x, z); np.kron(A, C); np.kron(np.eye(2), A); np.kron(A, np.ones(2)); np.einsum("ij,jk->ik", A, C); np.einsum("ij,ij->j", A, B)
np.einsum("i,j->ij", x, z); np.einsum("ijk,j->ik", T3, z); np.einsum("ii", S); np.einsum("ii->i", S); np.einsum("...j,j->...", A, z)
la.khatri_rao(A, B); la.khatri_rao(A, np.vstack([B, A])); la.block_diag(A, C); la.norm(A)**2; np.linalg.norm(A, axis=0)**2
np.concatenate([A, B]); np.concatenate([A, B], axis=1); np.hstack([A, S]); np.vstack([A, r]); np.hstack([x, z]); np.column_stack([x, y])
np.stack([x, y]); np.stack([A, B], axis=1); np.stack([A, B], axis=-1); np.append(x, z); np.block([[A, S], [r, np.zeros((1, n))]])
np.concatenate([x, np.ones(2), z]); np.concatenate([A, A, A], axis=1); np.vstack([x, y, x]); np.split(np.concatenate([A, B]), 2)
np.split(A, [1]); np.split(np.hstack([A, S]), [m], axis=1); np.vsplit(np.vstack([A, B]), 2); np.hsplit(np.hstack([A, B]), 2)
A.reshape(-1); A.ravel(); A.reshape((-1, 1)); A.reshape((n * m,)); A.reshape(1, n, m); A.T.reshape(-1); np.ravel(A.T); A.reshape((m, n))
T3.reshape((n, m * k)); T3.reshape((n * m, k)); T3.reshape(-1); A.flatten(); np.transpose(T3); T3.transpose(2, 0, 1); np.swapaxes(T3, 0, 1)
np.moveaxis(T3, 0, -1); np.squeeze(A[None]); np.expand_dims(A, 1); np.broadcast_to(x[:, None], (n, m)); np.atleast_2d(x); np.atleast_1d(x)
np.eye(n); np.eye(n, m); np.zeros((n, m)); np.ones(n); np.full((n, 2), 3.); np.zeros_like(A); np.ones_like(x); np.full_like(A, 2.); np.identity(n)
np.tile(x, 2); np.tile(A, (2, 1)); np.tile(x, (2, 1)); np.repeat(x, 2); np.repeat(A, 2, axis=1); np.roll(x, 1); np.flip(A, 0); np.flipud(A); np.fliplr(A)
np.cumsum(x); np.diff(x); np.diff(A, axis=1); np.triu(S); np.tril(S); np.triu(A, 1); np.tril(A, -1); np.arange(n) * x; np.arange(1, n + 1); np.arange(0, n, 2)
np.linspace(0, 1, n); np.linspace(2, 3, 5); np.vander(x, 3); np.vander(x, 3, increasing=True); np.where(np.arange(n) > 1, x, y)
np.count_nonzero(np.arange(n) > 1); np.prod([n, m]); np.prod(x[:1]); np.isscalar(n); np.size(A); np.ndim(A); np.shape(A)
np.average(A, axis=0); np.mean(A, axis=1, keepdims=True); A - np.mean(A, axis=1, keepdims=True); (A - A.mean(axis=1).reshape((-1, 1))) @ z
x[np.arange(n)]; x[np.arange(n)[::-1]]; A[np.arange(n), 0]; A[np.array([0, 0])]; A[:, np.array([0, 0])]; A[[0]]; A[[-1, 0]]; x[[0, -1]]
A[np.tril_indices(1)]; np.array([x, y]); np.array([1, 2, 3]); np.array([x[0], y[0], 2.]); np.asarray(A); np.copy(A); np.array(A)
np.square(A); np.reciprocal(1 + A**2); np.negative(A); np.sign(n) * A; np.abs(A)**2; np.hypot(x, y)**2; np.trapezoid(y, x) if hasattr(np, 'trapezoid') else 0
np.sum(A * np.eye(n, m)); (np.eye(n) + S) @ A; np.kron(x, x) @ np.kron(y, y); np.sum(np.kron(A, C)); np.diag(np.diag(S)); np.diag(x) @ A
x @ np.diag(y) @ x; np.concatenate([[0.], x]); np.concatenate([x[1:], x[:1]]); np.insert(x, 0, 0.) if False else x; np.eye(n)[0]; np.eye(n)[:, 1:]
np.sum(np.hstack([A, S]), axis=1); np.hstack([A, S]) @ np.concatenate([z, x]); np.vstack([A, B]).T @ np.concatenate([x, y]); np.vstack([A, B])[n:]
np.hstack([A, S])[:, m:]; np.hstack([A, S])[:, :m]; np.hstack([A, S])[:, m - 1]; np.hstack([A, S]).T[m:]; np.concatenate([x, z])[n]; np.concatenate([x, z])[n - 1]
A.reshape(-1)[0]; A.reshape(-1)[m - 1]; A.reshape(-1)[-1]; A.reshape((n, m, 1)); T3.reshape((n, m * k)) @ np.ones(m * k); np.kron(x, z).reshape((n, m))
np.kron(x, z)[0]; np.kron(x, z)[-1]; np.kron(x, z)[m:]; la.khatri_rao(A, B)[0]; la.khatri_rao(A, B)[n - 1]; np.add.reduce(A) if False else A; np.max([n, m])
np.minimum(np.arange(n), 2); np.maximum(np.arange(n), 2) * 1.; sum(x); len(A); [len(A), n]; list(range(3)); A.size; A.shape; A.shape[0] * x; x.size // 1
"""
STMTS = """
D = A.copy(); D[0] = 1; R = D
D = A.copy(); D[:, 0] = x; R = D
D = A.copy(); D[1:] = 0; R = D
D = A.copy(); D[:, 1:] += 1; R = D
D = A.copy(); D *= 2; R = D
D = A.copy(); D -= x[:, None]; R = D
D = A.copy(); E = D[1:]; E[...] = 3; R = D
D = A.copy(); E = D.T; E[0] = x; R = D
D = A.copy(); E = D[::-1]; E[0] = 7; R = D
D = A.copy(); E = D.reshape(-1); E[0] = 7; R = D
D = A.copy(); E = D.ravel(); E[-1] = 7; R = (D, E)
D = A.copy(); E = D[:, 0]; E += 1; R = D
D = S.copy(); D[np.arange(n), np.arange(n)] = 0; R = D
D = S.copy(); D[np.diag_indices(n)] = 5; R = D
D = np.zeros((n, m)); D[:] = z; R = D
D = np.empty((n, m + 1)); D[:, :m] = A; D[:, m] = x; R = D
D = np.empty((n, m + 1)); D[:, 0] = x; D[:, 1:] = A; R = D
D = np.zeros((n + m, n + m)); D[:n, :n] = S; D[:n, n:] = A; R = D
D = np.empty_like(A); D[::2] = 1; D[1::2] = 2; R = D
D = np.zeros(n); D[1:] = np.cumsum(x)[:-1]; R = D
D = x.copy(); D[:-1] += y[1:]; R = D
D = A.copy(); D[0, 0] = 3; D[-1, -1] = 4; R = D
D = A.copy(); D[[0]] = 1; R = D
D = A.copy(); D[A.shape[0] - 1, :] = w; R = D
D = np.ones(n + 1); D[n] = 2; D[:n] *= x; R = D
D = A; D = D + 1; R = (A, D)
D = A.copy(); E = D.view(); E[0] = 0; R = D
D = A.copy().T.copy(); D[0] = x; R = D
D = np.array(A); D[0] = 0; R = (A, D)
D = A.flatten(); D[0] = 0; R = (A, D)
D = A.copy(); E = np.asarray(D); E[0] = 1; R = D
D = A.copy(); E = np.atleast_2d(D); E[0] = 1; R = D
D = x.copy(); E = np.atleast_2d(D); E[0] = 1; R = D
D = A.copy(); E = np.squeeze(D[None]); E += 1; R = D
D = A.copy(); E = np.moveaxis(D, 0, -1); E += 1; R = D
D = A.copy(); E = np.expand_dims(D, 1); E += 1; R = D
D = A.copy(); E = D[:, None]; E += 1; R = D
D = A.copy(); E = D.reshape((n, m, 1)); E[:, 0] = 1; R = D
D = np.vstack([A, B]); E = np.split(D, 2); E[0][0] = 1; R = D
D = np.vstack([A, B]); E, F = np.split(D, [n]); E[:] = 1; R = (D, F)
D = A.copy(); E = [row for row in D]; E[0][:] = 1; R = D
D = A.copy(); E = np.array(D, copy=False) if False else D; E[0] = 1; R = D
D = A.copy(); E = D.astype(float); E[0] = 1; R = D
D = A.copy(); E = D[[0]]; E[0] = 1; R = D
D = A.copy(); E = np.transpose(D); E[0] = x; R = D
D = A.copy(); E = D[0]; D[0] = 1; R = E
D = A.copy(); E = D + 0; D[0] = 1; R = E
D = A.copy(); E = D.T @ D; D[0] = 1; R = E
D = A.copy(); E = np.concatenate([D, D]); D[0] = 1; R = E
D = A.copy(); E = D.sum(axis=0); D[0] = 1; R = E
D = A.copy(); D[0] = D[-1]; R = D
D = x.copy(); D[:] = D[::-1]; R = D
D = A.copy(); D[:, 0] = D[:, -1] + D[:, 0]; R = D
D = A.copy(); D[:-1] = D[1:]; R = D
D = A.copy(); D[1:] = D[:-1]; R = D
D = A.copy(); D += D[0]; R = D
D = A.copy(); D -= D.mean(axis=0); R = D
D = A.copy(); E = D; E += 1; R = D
D = x.copy(); D, E = D[:1], D; D[0] = 5; R = E
"""
LOOPS = {
    "sum": "s = 0.\nfor i in range(n):\n    s += x[i] * y[i]\nR = s",
    "fill": "R = np.zeros(n)\nfor i in range(n):\n    R[i] = x[i]**2",
    "fill rows": "R = np.empty((n, m))\nfor i in range(n):\n    R[i] = A[i] * x[i]",
    "fill cols": "R = np.empty((n, m))\nfor j in range(m):\n    R[:, j] = A[:, j] * z[j]",
    "diag": "R = np.zeros((n, n))\nfor i in range(n):\n    R[i, i] = x[i]",
    "upper": "R = np.zeros((n, n))\nfor i in range(n):\n    R[i, i:] = S[i, i:]",
    "lower strict": "R = np.zeros((n, n))\nfor i in range(n):\n    R[i, :i] = S[i, :i]",
    "nested": "R = np.zeros((n, m))\nfor i in range(n):\n    for j in range(m):\n        R[i, j] = A[i, j] + i - 2 * j",
    "nested triangle": "R = np.zeros((n, n))\nfor i in range(n):\n    for j in range(i + 1):\n        R[i, j] = S[j, i] * (i + 1)",
    "counter": "R = np.zeros(n * (n + 1) // 2)\nt = 0\nfor i in range(n):\n    for j in range(i + 1):\n        R[t] = S[i, j]\n        t += 1",
    "blocks": "R = np.zeros(n * (n + 1) // 2)\nt = 0\nfor i in range(n):\n    R[t:t + i + 1] = S[i, :i + 1]\n    t += i + 1",
    "blocks down": "R = np.zeros(n * (n + 1) // 2)\nt = 0\nfor i in range(n):\n    R[t:t + n - i] = S[i, i:]\n    t += n - i",
    "offset": "R = np.zeros(n * m)\nfor i in range(n):\n    R[i * m:(i + 1) * m] = A[i]",
    "overwrite": "R = np.zeros(n + 1)\nfor i in range(n):\n    R[i] = x[i]\n    R[i + 1] = 1.",
    "overwrite all": "R = np.zeros(n)\nfor i in range(m):\n    R[:] = A[:, i]",
    "accumulate": "R = np.zeros(n)\nfor j in range(m):\n    R += A[:, j] * z[j]",
    "accumulate elem": "R = np.zeros(n)\nfor j in range(m):\n    for i in range(n):\n        R[i] += A[i, j]",
    "prefix": "R = np.zeros(n)\ns = 0.\nfor i in range(n):\n    s += x[i]\n    R[i] = s",
    "recurrence": "R = np.zeros(n)\nR[0] = 1.\nfor i in range(1, n):\n    R[i] = R[i - 1] * x[i]",
    "two arrays": "D = np.zeros(n)\nE = np.zeros(n)\nfor i in range(n):\n    D[i] = x[i]\n    E[n - 1 - i] = y[i]\nR = (D, E)",
    "reversed": "R = np.zeros(n)\nfor i in range(n):\n    R[n - 1 - i] = x[i]",
    "start step": "R = np.zeros(n)\nfor i in range(1, n):\n    R[i - 1] = x[i]",
    "stride 2": "R = np.zeros(2 * n)\nfor i in range(n):\n    R[2 * i] = x[i]\n    R[2 * i + 1] = y[i]",
    "same cell": "R = np.zeros(1)\nfor i in range(n):\n    R[0] = x[i]",
    "last value": "for i in range(n):\n    v = x[i]\nR = v",
    "loop variable": "for i in range(n):\n    pass\nR = i",
    "condition": "R = np.zeros(n)\nfor i in range(n):\n    if i > 1:\n        R[i] = x[i]\n    else:\n        R[i] = y[i]",
    "condition 2": "R = np.zeros((n, m))\nfor i in range(n):\n    for j in range(m):\n        if i == j:\n            R[i, j] = 1.\n        elif i < j:\n            R[i, j] = A[i, j]",
    "break": "R = np.zeros(n)\nfor i in range(n):\n    if i == 2:\n        break\n    R[i] = x[i]",
    "continue": "R = np.zeros(n)\nfor i in range(n):\n    if i == 2:\n        continue\n    R[i] = x[i]",
    "swap": "D = x.copy()\nfor i in range(n):\n    D[i] = D[i] * 2\nR = D",
    "in place shift": "D = x.copy()\nfor i in range(n - 1):\n    D[i] = D[i + 1]\nR = D",
    "in place shift up": "D = np.concatenate([x, [0.]])\nfor i in range(n):\n    D[i + 1] = D[i]\nR = D",
    "enumerate": "R = np.zeros((n, m))\nfor i, row in enumerate(A):\n    R[i] = row * 2",
    "zip": "R = np.zeros(n)\nfor a, b in zip(x, y):\n    R[0] += a * b",
    "iterate array": "s = 0.\nfor a in x:\n    s += a\nR = s",
    "list": "L = []\nfor i in range(n):\n    L.append(x[i] * 2)\nR = np.array(L)",
    "list rows": "L = []\nfor i in range(n):\n    L.append(A[i])\nR = np.vstack(L)",
    "comprehension": "R = np.array([x[i] * y[i] for i in range(n)])",
    "concat comp": "R = np.concatenate([S[i] * x[i] for i in range(n)])",
    "ragged comp": "R = np.concatenate([S[i, :i + 1] for i in range(n)])",
    "ragged comp down": "R = np.concatenate([x[i] * x[i:] for i in range(n)])",
    "double ragged": "R = np.concatenate([x[i] * np.concatenate([x[j] * x[:j + 1] for j in range(i + 1)]) for i in range(n)])",
    "sum gen": "R = sum(x[i] * y[i] for i in range(n))",
    "sum gen nested": "R = sum(A[i, j] * x[i] for i in range(n) for j in range(m))",
    "tri counter cols": "R = np.zeros((m, n * (n + 1) // 2))\nt = 0\nfor i in range(n):\n    for j in range(i, n):\n        R[:, t] = S[i, j] * z\n        t += 1",
    "symmetrize": "R = np.zeros((n, n))\nfor i in range(n):\n    for j in range(i + 1):\n        R[i, j] = R[j, i] = S[i, j]",
    "scatter add": "R = np.zeros((n, n))\nfor i in range(n):\n    for j in range(n):\n        R[j, i] += S[i, j]",
    "quadratic counter": "t = 0\nfor i in range(n):\n    t += 2 * i + 1\nR = t",
    "nonlinear counter": "t = 1\nfor i in range(n):\n    t *= 2\nR = t",
    "read after": "R = np.zeros(n)\nfor i in range(n):\n    R[i] = x[i]\nfor i in range(n):\n    R[i] = R[i] + y[i]",
    "two loops": "R = np.zeros(2 * n)\nfor i in range(n):\n    R[i] = x[i]\nfor i in range(n):\n    R[n + i] = y[i]",
    "alias": "D = np.zeros((n, m))\nfor i in range(n):\n    row = D[i]\n    row[:] = A[i]\n    row += 1\nR = D",
    "alias 2": "D = np.zeros(n)\nE = D\nfor i in range(n):\n    D[i] = x[i]\nR = E",
    "max length": "R = np.zeros(n)\nfor i in range(m):\n    R[0] += z[i]\n    R[n - 1] += w[i]",
    "downto": "R = np.zeros(n)\nfor i in range(n - 1, -1, -1):\n    R[i] = x[i]",
    "step 2": "R = np.zeros(n)\nfor i in range(0, n, 2):\n    R[i] = x[i]",
}


def run_source(src, sym, env):
    names = ", ".join(env)
    text = f"def __f__({names}):\n" + "".join("    " + l + "\n" for l in src.split("\n")) + "    return R\n"
    tree = ast.parse(text, "<selftest>")
    g = {}
    if sym:
        tree = loader.Rewrite(set(shim.CALLS)).visit(tree)
        ast.fix_missing_locations(tree)
        b = dict(builtins.__dict__)
        for k, v in shim.CALLS.items():
            b[f"__vp_{k}__"] = v
        b["__vp_listcomp__"], b["__vp_genexp__"], b["__vp_loops__"] = shim.v_listcomp, shim.v_genexp, loops
        g["__builtins__"] = b
    exec(compile(tree, "<selftest>", "exec"), g)
    return g["__f__"](**env)


def test_source(label, src):
    def symf(V):
        d = [V.dim(q) for q in "nmk"]
        names = {}

        def get(name, *shape):
            return V.array(name, *shape)
        env = inputs(get, d)
        return run_source(src, True, dict(env, np=V.np, la=V.la))

    def realf(dims):
        env = inputs(lambda name, *s: concrete(name, s), [dims[q] for q in "nmk"])
        return run_source(src, False, dict(env, np=np, la=sla))

    return selftest(label, symf, realf)


H5_VALUES = [1, 2.5, -3, True, False, "text", "", 1 + 2j, np.float64(1.5), np.int64(4), np.bool_(True), [1, 2], [1.5],
             [True], [], (1, 2), "NULL", None, np.arange(4), np.ones((2, 3)), np.zeros((0, 2)), np.array([1 + 1j]),
             np.float32([1, 2]), np.array(3.0), np.array([True, False]), [[1, 2], [3, 4]], [None], b"bytes", np.ones((2, 2)).T]
H5_NAMES = ["a", "b", "a/b", "meta", "b/c/d"]
H5_KEYS = [slice(None), 0, -1, (), Ellipsis, slice(0, 1), np.int64(0), (slice(None), 0), 7]


def h5_outcome(f):
    """comparable description of a value or of an exception"""
    try:
        x = f()
    except Exception:
        return ("raises",)
    if isinstance(x, (np.ndarray, np.generic)):
        return (type(x).__name__, str(x.dtype), x.shape, x.tolist())
    if isinstance(x, (bool, int, float, complex, str, bytes, tuple, list, type(None))):
        return (type(x).__name__, x)
    return type(x).__name__


def h5_program(seed, folder):
    """a random program over one file, run on both implementations"""
    import h5py
    import random
    from vp import fakeh5
    core.PATH.memo.pop("files", None)
    name = os.path.join(folder, f"{seed}.h5")
    logs = []
    for impl in (h5py, fakeh5):
        rnd = random.Random(seed)
        log = []
        for session in range(3):
            mode = "w" if session == 0 else rnd.choice("rra")
            f = impl.File(name, mode)
            for _ in range(rnd.randrange(4, 14)):
                op, path, value, key = rnd.randrange(12), rnd.choice(H5_NAMES), rnd.choice(H5_VALUES), rnd.choice(H5_KEYS)
                if "/" in path and repr(value) in ('None', '[None]'):
                    value = 0           # h5py then leaves the intermediate groups behind
                run = {
                    0: lambda: bool(f.create_dataset(path, data=value)),
                    1: lambda: bool(f.create_dataset(path, shape=(0,))),
                    2: lambda: bool(f.create_group(path)),
                    3: lambda: f[path].attrs.__setitem__("k", value),
                    4: lambda: f[path].attrs["k"],
                    5: lambda: f[path].attrs["none"],
                    6: lambda: f[path][key],
                    7: lambda: path in f,
                    8: lambda: (tuple(f[path].shape), f[path].ndim, f[path].size),
                    9: lambda: list(f.keys()),
                    10: lambda: [("k" in f[path].attrs), isinstance(f[path], impl.Dataset), isinstance(f[path], impl.Group)],
                    11: lambda: bool(f[path].create_dataset("x", data=value)),
                }[op]
                log.append(((session, mode, op, path, repr(value)[:40], repr(key)), h5_outcome(run)))
            f.close()
        logs.append(log)
    os.remove(name)
    return [(a[0], a[1], b[1]) for a, b in zip(*logs) if a[1] != b[1] and a[1] != (b[1],)][:1]


def h5_main(n=4000):
    import collections
    import tempfile
    seen = collections.Counter()
    with tempfile.TemporaryDirectory() as folder:
        for seed in range(n):
            for what, real, fake in h5_program(seed, folder):
                seen[what[2]] += 1
                if seen.total() <= 40:
                    print("h5py differs:", what, "real", real, "assumed", fake)
    print(f"h5py: {n} programs, {seen.total()} differ", dict(seen))


def main():
    import collections
    if "h5py" in sys.argv[1:]:
        return h5_main()
    from concurrent.futures import ProcessPoolExecutor
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    jobs = []
    for e in EXPRS.replace("\n", ";").split(";"):
        e = e.strip()
        if e:
            jobs.append((e, "R = " + e))
    for s in STMTS.split("\n"):
        if s.strip():
            jobs.append((s, s))
    for k, s in LOOPS.items():
        jobs.append(("loop " + k, s))
    jobs = [j for j in jobs if not only or any(o in j[0] for o in only)]
    with ProcessPoolExecutor(4) as ex:
        res = list(ex.map(test_source, *zip(*jobs)))
    print(dict(collections.Counter(res)))


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    main()
