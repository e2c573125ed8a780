"""C14: liftings invert and satisfy the chain rule."""
import io, contextlib
from vp.harness import contract, Skip

# orders and the sign of the states on which the lifting is defined and one-to-one
ORDERS = {"1": ((1,), None), "1.0": ((1.0,), None), "12": ((1, 2), None), "214": ((2, 1, 4), None),
          "01": ((0, 1), None), "10": ((1, 0), None), "scalar1": (1, None), "13": ((1, 3), None), "231": ([2, 3, 1], None),
          "3": ((3,), None), "23": ((2, 3), None), "03": ((0, 3), None), "43": ((4, 3), None), "5": (5, None),
          "-1": ((-1,), "nz"), "-1,2": ((-1, 2), "nz"), "2,-1": ((2, -1), "nz"), "-2,1": ((-2, 1), "nz"),
          "-1,.5": ((-1, 0.5), "pos"), ".5,-1": ((0.5, -1), "pos"), ".5": ((0.5,), "pos"), "scalar.5": (0.5, "pos"),
          "2": ((2,), "pos"), "scalar2": (2, "pos"), "02": ((0, 2), "pos"), "-2,4": ((-2, 4), "pos"),
          "1.5,.5": ((1.5, 0.5), "pos"), "0,.5,2": ((0, 0.5, 2), "pos"), "-.5,1": ((-0.5, 1), "pos")}


def states(V, sign, n, k, name="Q"):
    if sign == "pos":
        return V.array(name, n, k, sign="pos")
    if sign == "nz":
        return V.nonzero(name, n, k)
    return V.array(name, n, k)


def shapes(V):
    return V.dim("n"), V.dim("k")


def powers(V, orders):
    return tuple(orders) if isinstance(orders, (tuple, list)) else (orders,)


def same(V, p):
    return int(p) if p == int(p) else p


@contract("C14", fns=["QuadraticLifter.lift", "QuadraticLifter.unlift", "QuadraticLifter.lift_ddts"])
def quadratic(V):
    n, k = shapes(V)
    Q, D = V.array("Q", n, k), V.array("D", n, k)
    Q0, D0 = V.copy(Q), V.copy(D)
    for l in (V.opinf.lift.QuadraticLifter(), V.opinf.lift.QuadraticLifter):
        L = l.lift(Q)
        V.shape("lifted", L, (2 * n, k))
        V.eq("first block is q", L[:n], Q0)
        V.eq("second block is q^2", L[n:], V.tab((n, k), lambda i, j: Q0[i, j] * Q0[i, j]))
        V.eq("unlift(lift(q)) = q", l.unlift(L), Q0)
        d = l.lift_ddts(Q, D)
        V.shape("lifted ddts", d, (2 * n, k))
        V.eq("first block of the derivative", d[:n], D0)
        V.eq("chain rule", d[n:], V.tab((n, k), lambda i, j: 2 * Q0[i, j] * D0[i, j]))
        V.eq("states unchanged", Q, Q0)
        V.eq("ddts unchanged", D, D0)
        L0 = V.copy(L)
        l.unlift(L)
        V.eq("lifted states unchanged", L, L0)


@contract("C14", fns=["PolynomialLifter.orders", "PolynomialLifter.lift", "PolynomialLifter.unlift"],
          cases={"orders": list(ORDERS)}, trials=12)
def polynomial_inverts(V, orders):
    orders, sign = ORDERS[orders]
    n, k = shapes(V)
    Q = states(V, sign, n, k)
    Q0 = V.copy(Q)
    l = V.opinf.lift.PolynomialLifter(orders)
    ps = powers(V, orders)
    V.true("orders", tuple(l.orders) == ps)
    V.true("number of variables", l.num_variables == len(ps))
    L = l.lift(Q)
    V.shape("lifted", L, (len(ps) * n, k))
    for b, p in enumerate(ps):
        V.eq(f"block {b} is q^{p}", L[b * n:(b + 1) * n], V.tab((n, k), lambda i, j: Q0[i, j] ** same(V, p)))
    L0 = V.copy(L)
    V.eq("unlift(lift(q)) = q", l.unlift(L), Q0)
    V.eq("states unchanged", Q, Q0)
    V.eq("lifted states unchanged", L, L0)


@contract("C14", fns=["PolynomialLifter.lift_ddts"], cases={"orders": list(ORDERS)}, trials=12)
def polynomial_chain_rule(V, orders):
    orders, sign = ORDERS[orders]
    n, k = shapes(V)
    Q, D = states(V, sign, n, k), V.array("D", n, k)
    Q0, D0 = V.copy(Q), V.copy(D)
    l = V.opinf.lift.PolynomialLifter(orders)
    ps = powers(V, orders)
    d = l.lift_ddts(Q, D)
    V.shape("lifted ddts", d, (len(ps) * n, k))

    def rate(p, i, j):
        p = same(V, p)
        if p == 0:
            return 0 * D0[i, j]
        if p == 1:
            return D0[i, j]
        return p * Q0[i, j] ** same(V, p - 1) * D0[i, j]

    for b, p in enumerate(ps):
        V.eq(f"derivative of block {b}", d[b * n:(b + 1) * n], V.tab((n, k), lambda i, j: rate(p, i, j)))
    V.eq("states unchanged", Q, Q0)
    V.eq("ddts unchanged", D, D0)


@contract("C14", fns=["PolynomialLifter.lift_ddts", "QuadraticLifter.lift_ddts"],
          cases={"lifter": ["quadratic"] + list(ORDERS)}, modes=("con",), trials=12)
def derivative_by_complex_step(V, lifter):
    """lift_ddts is the directional derivative of lift itself, measured by central differences"""
    n, k = shapes(V)
    if lifter == "quadratic":
        l, sign = V.opinf.lift.QuadraticLifter(), None
    else:
        orders, sign = ORDERS[lifter]
        l = V.opinf.lift.PolynomialLifter(orders)
    Q, D = states(V, sign, n, k), V.array("D", n, k)
    if sign == "nz":
        Q = V.np.sign(Q) * (abs(Q) + 0.3)
    if sign == "pos":
        Q = Q + 0.3
    h = 1e-4
    est = (8 * (l.lift(Q + h * D) - l.lift(Q - h * D)) - (l.lift(Q + 2 * h * D) - l.lift(Q - 2 * h * D))) / (12 * h)
    V.eq("derivative", l.lift_ddts(Q, D), est, tol=1e-4)


@contract("C14", fns=["PolynomialLifter.lift", "PolynomialLifter.unlift"], cases={"lifter": ["quadratic", "12", "214", "23", "01"]},
          trials=12)
def column_by_column(V, lifter):
    """a batch is lifted as its single snapshots are (also 1-D states)"""
    n, k = shapes(V)
    l = V.opinf.lift.QuadraticLifter() if lifter == "quadratic" else V.opinf.lift.PolynomialLifter(ORDERS[lifter][0])
    Q, D = V.array("Q", n, k), V.array("D", n, k)
    j = V.index("j", k)
    V.eq("lift", l.lift(Q)[:, j], l.lift(Q[:, j]))
    V.eq("lift_ddts", l.lift_ddts(Q, D)[:, j], l.lift_ddts(Q[:, j], D[:, j]))
    L = l.lift(Q)
    V.eq("unlift", l.unlift(L)[:, j], l.unlift(L[:, j]))


@contract("C14", fns=["PolynomialLifter.lift"], cases={"lifter": ["quadratic", "12", "214", "3", "01"]}, modes=("con",), trials=8)
def integer_states(V, lifter):
    n, k = shapes(V)
    l = V.opinf.lift.QuadraticLifter() if lifter == "quadratic" else V.opinf.lift.PolynomialLifter(ORDERS[lifter][0])
    Q, D = V.rng.integers(-6, 7, (n, k)), V.rng.integers(-6, 7, (n, k))
    V.eq("lift", l.lift(Q), l.lift(Q.astype(float)))
    V.eq("lift_ddts", l.lift_ddts(Q, D), l.lift_ddts(Q.astype(float), D.astype(float)))
    V.eq("unlift", l.unlift(l.lift(Q)), Q)


@contract("C14", fns=["PolynomialLifter.lift", "PolynomialLifter.unlift", "PolynomialLifter.lift_ddts"],
          cases={"lifter": ["quadratic", "12", "214", "3", "01", "2,-1"]}, trials=8)
def arrays_may_be_reused(V, lifter):
    """the same arrays, overwritten between two calls"""
    n, k = shapes(V)
    new = V.opinf.lift.QuadraticLifter if lifter == "quadratic" else (lambda: V.opinf.lift.PolynomialLifter(ORDERS[lifter][0]))
    l = new()
    sign = None if lifter == "quadratic" else ORDERS[lifter][1]
    Q, D = states(V, sign, n, k) * 1.0, V.array("D", n, k) * 1.0
    Q2, D2 = states(V, sign, n, k, "Qnew"), V.array("Dnew", n, k)
    l.unlift(l.lift(Q))
    l.lift_ddts(Q, D)
    Q[...] = Q2
    D[...] = D2
    V.eq("lift", l.lift(Q), new().lift(Q2))
    V.eq("lift_ddts", l.lift_ddts(Q, D), new().lift_ddts(Q2, D2))
    V.eq("unlift", l.unlift(l.lift(Q)), Q2)


@contract("C14", fns=["PolynomialLifter.orders"])
def orders_can_be_replaced(V):
    n, k = shapes(V)
    Q, D = V.array("Q", n, k), V.array("D", n, k)
    l = V.opinf.lift.PolynomialLifter((1, 2, 3))
    l.orders = (2, 1)
    ref = V.opinf.lift.PolynomialLifter((2, 1))
    V.true("number of variables", l.num_variables == 2)
    V.eq("lift", l.lift(Q), ref.lift(Q))
    V.eq("lift_ddts", l.lift_ddts(Q, D), ref.lift_ddts(Q, D))
    V.eq("unlift", l.unlift(l.lift(Q)), Q)


@contract("C14", fns=["PolynomialLifter.orders", "PolynomialLifter.unlift"])
def constant_lifting_is_not_invertible(V):
    import warnings
    n, k = shapes(V)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        l = V.opinf.lift.PolynomialLifter(0)
    L = l.lift(V.array("Q", n, k))
    V.raises("unlift of q^0", ZeroDivisionError, lambda: l.unlift(L))


class _Bad:
    """user lifters with one inconsistency each"""
    @staticmethod
    def make(opinf, np, kind):
        class L(opinf.lift.LifterTemplate):
            @staticmethod
            def lift(states):
                out = np.concatenate((states, states**3))
                return out[:, :-1] if kind == "columns" else out

            @staticmethod
            def unlift(lifted):
                q = np.split(lifted, 2, axis=0)[0]
                if kind == "unlift shape":
                    return q[:-1]
                return q * (1 + 1e-3) if kind == "unlift" else q

            @staticmethod
            def lift_ddts(states, ddts):
                if kind == "none":
                    return NotImplemented
                if kind == "ddts shape":
                    return ddts
                c = {"ddts": 2.9}.get(kind, 3)
                return np.concatenate((ddts, c * states**2 * ddts))
        return L()


@contract("C14", fns=["LifterTemplate.verify"], modes=("con",), trials=4,
          cases={"kind": ["good", "none", "columns", "unlift", "unlift shape", "ddts", "ddts shape",
                          "quadratic", "polynomial"]})
def verify_accepts_exactly_the_consistent(V, kind):
    np = V.np
    n, k = V.rng.integers(2, 5), 400
    t = np.linspace(0, 1, k)
    Q = np.array([np.sin((i + 1) * t) + 2 + V.rng.random() for i in range(n)])
    Q0 = Q.copy()
    if kind == "quadratic":
        l = V.opinf.lift.QuadraticLifter()
    elif kind == "polynomial":
        l = V.opinf.lift.PolynomialLifter(ORDERS[V.choice("o", ["12", "214", "13", ".5,-1", "2", "1.5,.5"])][0])
    else:
        l = _Bad.make(V.opinf, np, kind)
    with contextlib.redirect_stdout(io.StringIO()):
        if kind in ("good", "none", "quadratic", "polynomial"):
            l.verify(Q, t)
        else:
            V.raises("inconsistency reported", V.opinf.errors.VerificationError, lambda: l.verify(Q, t))
    V.eq("states unchanged", Q, Q0)


@contract("C14", fns=["PolynomialLifter.unlift", "PolynomialLifter.lift"], modes=("con",), trials=30)
def unusual_orders(V):
    """orders near, but different from, the special values 0 and 1"""
    rng = V.rng
    pool = [1.01, .99, 1.001, .999, 1.1, .9, .05, .01, -.01, .5, 2, 3, -1, 2.5, 1 / 3, -1.01]
    orders = [float(x) for x in rng.choice(pool, int(rng.integers(1, 4)), replace=False)]
    if rng.random() < .2:
        orders.insert(int(rng.integers(len(orders) + 1)), 0)
    Q, D = V.np.abs(V.array("Q", 3, 4)) + .1, V.array("D", 3, 4)
    l = V.opinf.lift.PolynomialLifter(orders)
    L = l.lift(Q)
    V.eq("lift", L, V.np.concatenate([Q ** p for p in orders]))
    V.eq("unlift(lift(q)) = q", l.unlift(L), Q)
    V.eq("chain rule", l.lift_ddts(Q, D), V.np.concatenate([p * Q ** (p - 1) * D for p in orders]))
