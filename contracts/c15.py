"""C15: saving and loading returns an equivalent object.

With symbolic inputs the file is the assumed h5py of vp/fakeh5.py; with
concrete inputs it is a real HDF5 file in a scratch directory."""
import os
import shutil
import tempfile
import warnings
from vp.harness import contract, Skip
from _ops import OPS, make, ncols
from _pre import make_tf, KINDS
from c07 import NAMES, affine, params, coeffs
from c17 import rows, posterior

BOUND = {"r": [1, 2], "n": [2, 3]}


class Disk:
    def __init__(self, V):
        self.V, self.dir, self.k = V, None if V.symbolic else tempfile.mkdtemp(prefix="vp_c15_"), 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def new(self):
        self.k += 1
        return os.path.join(self.dir or "/nowhere", f"object{self.k}.h5")

    def bytes(self, f):
        if self.dir:
            with open(f, "rb") as h:
                return h.read()


def sparse_(x):
    return hasattr(x, "tocoo") and hasattr(x, "nnz")


def same(V, label, a, b):
    """a and b are the same value, of the same kind"""
    if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
        return V.true(label, a is b if a is None or isinstance(a, type) else type(a) is type(b) and a == b)
    if isinstance(a, dict):
        V.true(label + " keys", sorted(a) == sorted(b))
        for k in a:
            if k in b:
                same(V, f"{label}.{k}", a[k], b[k])
        return
    if isinstance(a, (list, tuple)):
        V.true(label + " length", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(V, f"{label}[{i}]", x, y)
        return
    if sparse_(a) or sparse_(b):
        V.true(label + " format", sparse_(a) and sparse_(b) and a.format == b.format)
        return V.eq(label, a.toarray(), b.toarray())
    da, db = getattr(a, "ndim", 0), getattr(b, "ndim", 0)
    V.true(label + " dimensions", da == db)
    if da == db:
        V.eq(label, a, b, tol=0)


def snapshot(V, x):
    if isinstance(x, dict):
        return {k: snapshot(V, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(V, v) for v in x]
    if x is None or isinstance(x, (str, type, bool, int, float)):
        return x
    return x.copy() if hasattr(x, "copy") else x


def arrays_in(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_in(v)]
    if sparse_(x):
        return [x.data]
    return [x] if getattr(x, "ndim", 0) else []


def equal(V, label, a, b):
    r = a == b
    V.true(label, r)


def check(V, D, obj, state, acts=None, load=None, eq=True, copy=True, other=None, shares=(), default=False):
    """the whole of C15 for one object; state(obj) -> dict of all that defines it; acts(obj) -> values it computes"""
    load = load or (lambda o, f: type(o).load(f))
    a0 = acts(obj) if acts else None
    s0 = snapshot(V, state(obj))
    f = D.new()
    obj.save(f)
    same(V, "saving changes nothing", state(obj), s0)
    b = D.bytes(f)
    kw = {"overwrite": False} if default else {}
    V.raises("an existing file is not overwritten", FileExistsError, lambda: obj.save(f, **kw))
    V.raises("an existing file is not overwritten (explicitly)", FileExistsError, lambda: obj.save(f, overwrite=False))
    V.true("file unchanged", D.bytes(f) == b)
    new = load(obj, f)
    V.true("loading changes no file", D.bytes(f) == b)
    V.true("same class", type(new) is type(obj))
    same(V, "loaded", state(new), s0)
    if eq:
        equal(V, "compares equal", new, obj)
        equal(V, "compares equal (reversed)", obj, new)
    if acts:
        same(V, "acts identically", acts(new), a0)
    g = D.new()
    new.save(g)
    same(V, "saved twice", state(load(obj, g)), s0)
    if other is not None:
        t0 = snapshot(V, state(other))
        other.save(f, overwrite=True)
        same(V, "overwritten when told to", state(load(other, f)), t0)
    if copy:
        c = obj.copy()
        V.true("copy has the same class", type(c) is type(obj))
        same(V, "copy", state(c), s0)
        same(V, "copied object", state(obj), s0)
        if eq:
            equal(V, "copy compares equal", c, obj)
        if acts:
            same(V, "copy acts identically", acts(c), a0)
        for k, v in state(c).items():
            if k not in shares:
                for x in arrays_in(v):
                    x += 1
        same(V, "copy shares no array", state(obj), s0)
    return s0


# ------------------------------------------------------------------ operators
@contract("C15", fns=["OpInfOperator.save", "OpInfOperator.load", "OpInfOperator.copy", "OpInfOperator.__eq__",
                      "hdf5_savehandle", "hdf5_loadhandle"],
          cases={"name": OPS, "entries": [True, False]}, bound=BOUND, trials=6)
def operators(V, name, entries):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    cls = getattr(V.opinf.operators, name)
    op = make(V, name, r, m)[1] if entries else cls()
    other = cls() if entries else make(V, name, r, m)[1]
    q, u = V.array("q", r), V.array("u", m)
    acts = (lambda o: {"apply": o.apply(q, u)}) if entries else None
    with Disk(V) as D:
        check(V, D, op, lambda o: {"entries": o.entries}, acts, other=other)


@contract("C15", fns=["LinearOperator.save", "LinearOperator.load", "LinearOperator.copy"],
          cases={"form": ["csr", "csc", "coo", "dia", "matrix"]}, modes=("con",), trials=6)
def sparse_linear_operator(V, form):
    """bounded stand-in: scipy's sparse classes are outside the verifier"""
    import scipy.sparse as sp
    r = V.dim("r", lo=2, hi=5)
    M = V.array("A", r, r) * (V.array("mask", r, r) > 0)
    A = sp.csr_matrix(M) if form == "matrix" else getattr(sp, form + "_array")(M)
    op = V.opinf.operators.LinearOperator(A)
    q = V.array("q", r)
    with Disk(V) as D:
        check(V, D, op, lambda o: {"entries": o.entries}, lambda o: {"apply": o.apply(q)})


@contract("C15", fns=["PolynomialOperator.save", "PolynomialOperator.load", "PolynomialOperator.copy"],
          cases={"p": [0, 1, 2, 3], "entries": [True, False]}, modes=("con",), trials=4)
def polynomial_operator(V, p, entries):
    """bounded stand-in"""
    r = V.dim("r", hi=3)
    op = V.opinf.operators.PolynomialOperator(p)
    if entries:
        op.set_entries(V.array("E", r, op.operator_dimension(r)))
    q = V.array("q", r)
    with Disk(V) as D:
        check(V, D, op, lambda o: {"entries": o.entries, "p": o.polynomial_order},
              (lambda o: {"apply": o.apply(q)}) if entries else None)


@contract("C15", fns=["_AffineOperator.save", "_AffineOperator.load", "_AffineOperator.copy"],
          cases={"x": list("cAHGBN"), "form": ["callable", "list", "int"], "entries": [True, False]}, bound=BOUND,
          trials=4)
def affine_operators(V, x, form, entries):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    c, kw, th, p = coeffs(V, form, 2)
    cls = getattr(V.opinf.operators, "Affine" + NAMES[x])
    full = affine(V, x, form, 2, r, m)[0]
    op = full if entries else cls(c, **kw)
    mu, q, u = V.array("mu", p), V.array("q", r), V.array("u", m)
    acts = (lambda o: {"evaluate": o.evaluate(mu).entries, "apply": o.apply(mu, q, u)}) if entries else None
    state = lambda o: {"entries": o.entries, "nterms": o.nterms, "p": o.parameter_dimension}
    with Disk(V) as D:
        check(V, D, op, state, acts, load=lambda o, f: cls.load(f, c), eq=False, other=cls(c, **kw) if entries else full)
        if entries:      # still works once a parameter has fixed the parameter dimension
            op.evaluate(mu)
            check(V, D, op, state, acts, load=lambda o, f: cls.load(f, c), eq=False)


@contract("C15", fns=["_AffineOperator.save", "save_sparray", "load_sparray"],
          cases={"form": ["csr", "csc", "coo", "dia"]}, modes=("con",), trials=5)
def sparse_affine_operator(V, form):
    """bounded stand-in: scipy's sparse classes are outside the verifier"""
    import scipy.sparse as sp
    r = V.dim("r", lo=2, hi=5)
    Ms = [V.array(f"A{i}", r, r) * (V.array(f"mask{i}", r, r) > 0) for i in range(3)]
    As = [getattr(sp, form + "_array")(M) for M in Ms]
    c = lambda mu: [1, mu[0], mu[1]]
    cls = V.opinf.operators.AffineLinearOperator
    op = cls(c, nterms=3, entries=As)
    mu, q = V.array("mu", 2), V.array("q", r)
    with Disk(V) as D:
        check(V, D, op, lambda o: {"entries": o.entries, "nterms": o.nterms},
              lambda o: {"apply": o.apply(mu, q)}, load=lambda o, f: cls.load(f, c), eq=False)


class Interpolator:
    """an elementwise interpolator of the user's"""

    def __init__(self, points, values):
        self.points, self.values = points, values

    def __call__(self, x):
        return sum(self.values[i] * (x - self.points[i]) for i in range(len(self.points)))


def interp_state(o):
    return {"entries": o.entries, "parameters": o.training_parameters, "p": o.parameter_dimension,
            "interpolator": type(o.interpolator) if o.interpolator is not None else None}


@contract("C15", fns=["_InterpOperator.save", "_InterpOperator.load", "_InterpOperator.copy", "_InterpOperator.__eq__"],
          cases={"x": list("cAHGBN"), "state": ["entries", "parameters", "none"]}, bound=BOUND, trials=4)
def interpolated_operators(V, x, state):
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), 2
    cls = getattr(V.opinf.operators, "Interp" + NAMES[x])
    mus = V.array("mus", s)
    if state == "none":
        op = cls(InterpolatorClass=Interpolator)
    elif state == "parameters":
        op = cls(mus, InterpolatorClass=Interpolator)
    else:
        op = cls(mus, [make(V, NAMES[x], r, m, tag=f"E{i}")[0] for i in range(s)], InterpolatorClass=Interpolator)
    mu, q, u = V.real("mu"), V.array("q", r), V.array("u", m)
    acts = (lambda o: {"evaluate": o.evaluate(mu).entries}) if state == "entries" else None
    with Disk(V) as D, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check(V, D, op, interp_state, acts, load=lambda o, f: cls.load(f, InterpolatorClass=Interpolator))


@contract("C15", fns=["_InterpOperator.save", "_InterpOperator.load", "_InterpOperator.copy"],
          cases={"x": list("cAB"), "ic": ["default", "CubicSpline", "PchipInterpolator", "nd", "nearest"],
                 "state": ["entries", "parameters", "none"]}, modes=("con",), trials=3)
def interpolated_operators_scipy(V, x, ic, state):
    """bounded stand-in: scipy's interpolators are outside the verifier"""
    import scipy.interpolate as si
    np = V.np
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), V.dim("s", lo=4, hi=6)
    cls = getattr(V.opinf.operators, "Interp" + NAMES[x])
    two = ic in ("nd", "nearest")
    IC = {"default": None, "nd": None, "nearest": si.NearestNDInterpolator}.get(ic) or getattr(si, ic, None)
    mus = params(V, s, 2 if two else 1)
    kw = dict(InterpolatorClass=IC)
    op = cls(**kw) if state == "none" else cls(mus, **kw) if state == "parameters" else cls(
        mus, [make(V, NAMES[x], r, m)[0] for _ in range(s)], **kw)
    mu = mus[0] * 0.6 + mus[1] * 0.4 if two else float(mus.min() * .3 + mus.max() * .7)
    acts = (lambda o: {"evaluate": o.evaluate(mus[1] if two else mu).entries}) if state == "entries" else None
    with Disk(V) as D:
        check(V, D, op, interp_state, acts)


# --------------------------------------------------------------------- models
SOLVERS = ["none", "plain", "plain0", "l2", "l2d", "tik", "tikd", "tikd0", "tsvd", "tls"]


def solver(V, kind, d, r):
    L, np = V.opinf.lstsq, V.np
    return {"none": lambda: None, "plain": lambda: L.PlainSolver(cond=None if V.symbolic else 1e-12, lapack_driver="gelsy"),
            "plain0": lambda: L.PlainSolver(cond=0.0), "tikd0": lambda: L.TikhonovDecoupledSolver([V.array(f"g{i}", d, sign="pos") for i in range(r)], cond=0.0),
            "l2": lambda: L.L2Solver(V.real("lam", sign="pos"), lapack_driver="gesvd"),
            "l2d": lambda: L.L2DecoupledSolver(V.array("lam", r, sign="pos")),
            "tik": lambda: L.TikhonovSolver(V.array("g", d, sign="pos"), method="normal"),
            "tikd": lambda: L.TikhonovDecoupledSolver([V.array(f"g{i}", d, sign="pos") for i in range(r)],
                                                      cond=None if V.symbolic else 1e-13),
            "tsvd": lambda: L.TruncatedSVDSolver(2), "tls": lambda: L.TotalLeastSquaresSolver(lapack_driver="gesvd")}[kind]()


def solver_state(V, s):
    if s is None:
        return {"class": None}
    out = {"class": type(s), "options": dict(getattr(s, "options", {}))}
    for a in ("regularizer", "method", "num_svdmodes"):
        if hasattr(s, a):
            out[a] = getattr(s, a)
    return out


def model_state(V, data=False):
    def state(md):
        out = {"classes": [type(o) for o in md.operators], "entries": [o.entries for o in md.operators],
               "r": md.state_dimension, "m": md.input_dimension, "solver": solver_state(V, md.solver),
               "infer": [int(i) for i in md._indices_of_operators_to_infer],
               "known": [int(i) for i in md._indices_of_known_operators]}
        return out
    return state


@contract("C15", fns=["_NonparametricModel.save", "_NonparametricModel.load", "_NonparametricModel.copy",
                      "_Model.__eq__"],
          cases={"kind": ["ContinuousModel", "DiscreteModel"], "ops": ["cAB", "AH", "cAHGBN"],
                 "trained": ["all", "some", "none"], "sol": ["none", "plain", "l2"]}, bound=BOUND, trials=3)
def models(V, kind, ops, trained, sol):
    r, m = V.dim("r", hi=3), V.dim("m", hi=2)
    O = V.opinf.operators
    d = 3
    os_ = [make(V, NAMES[x], r, m, tag="E" + x)[1] if trained == "all" or trained == "some" and k else
           getattr(O, NAMES[x])() for k, x in enumerate(ops)]
    md = getattr(V.opinf.models, kind)(os_, solver=solver(V, sol, d, r))
    q, u = V.array("q", r), V.array("u", m)
    acts = None
    if trained == "all":
        acts = lambda o: {"rhs": o.rhs(q, u) if kind == "DiscreteModel" else o.rhs(0, q, lambda t: u)}
    with Disk(V) as D:
        check(V, D, md, model_state(V), acts)
        other = "DiscreteModel" if kind == "ContinuousModel" else "ContinuousModel"
        f = D.new()
        md.save(f)
        V.raises("a file of another class is rejected", Exception, lambda: getattr(V.opinf.models, other).load(f))


@contract("C15", fns=["_NonparametricModel.save", "_NonparametricModel.load", "_NonparametricModel.copy"],
          cases={"kind": ["ContinuousModel", "DiscreteModel"], "sol": SOLVERS}, modes=("con",), trials=3)
def fitted_models(V, kind, sol):
    """a fitted model, saved and loaded, can be refitted with the same result (bounded stand-in)"""
    np = V.np
    r, k = V.dim("r", hi=2), 12
    Q, Y, U = V.array("Q", r, k), V.array("Y", r, k), V.array("U", k)
    md = getattr(V.opinf.models, kind)("cAB", solver=solver(V, sol, r + 2, r))
    fit = (lambda o: o.fit(Q, Y, inputs=U)) if kind == "ContinuousModel" else (lambda o: o.fit(Q, nextstates=Y, inputs=U))
    fit(md)
    with Disk(V) as D:
        check(V, D, md, model_state(V))
        f = D.new()
        md.save(f)
        new = type(md).load(f)
        for o in (new, md.copy()):
            if new.solver is not None:
                same(V, "solver data", o.solver.data_matrix, md.solver.data_matrix)
                o.refit()
                for a, b in zip(o.operators, md.operators):
                    V.eq("refitted entries", a.entries, b.entries)


@contract("C15", fns=["_InterpModel.save", "_InterpModel.load", "_InterpModel.copy"],
          cases={"kind": ["InterpContinuousModel", "InterpDiscreteModel"], "ops": ["cAB", "AHN"],
                 "trained": [True, False], "sol": ["none", "plain", "l2"]}, bound=BOUND, trials=3)
def interpolated_models(V, kind, ops, trained, sol):
    r, m, s = V.dim("r", hi=3), V.dim("m", hi=2), 2
    O = V.opinf.operators
    mus = V.array("mus", s)
    os_ = []
    for x in ops:
        cls = getattr(O, "Interp" + NAMES[x])
        os_.append(cls(mus, [make(V, NAMES[x], r, m, tag=f"E{x}{i}")[0] for i in range(s)],
                       InterpolatorClass=Interpolator) if trained else cls(InterpolatorClass=Interpolator))
    cls = getattr(V.opinf.models, kind)
    md = cls(os_, solver=solver(V, sol, 3, r), InterpolatorClass=Interpolator)
    base = model_state(V)
    state = lambda o: dict(base(o), IC=o._InterpModel__InterpolatorClass,
                           parameters=[p.training_parameters for p in o.operators])
    mu, q, u = V.real("mu"), V.array("q", r), V.array("u", m)
    acts = (lambda o: {"evaluated": [p.entries for p in o.evaluate(mu).operators]}) if trained else None
    with Disk(V) as D, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check(V, D, md, state, acts, load=lambda o, f: cls.load(f, InterpolatorClass=Interpolator))
        f = D.new()
        md.save(f)
        other = "InterpDiscreteModel" if kind == "InterpContinuousModel" else "InterpContinuousModel"
        V.raises("a file of another class is rejected", Exception,
                 lambda: getattr(V.opinf.models, other).load(f, InterpolatorClass=Interpolator))


# --------------------------------------------------------------- transformers
def tf_state(t):
    out = {"name": t.name}
    for a in ("state_dimension", "reference", "scaler", "byrow", "centering", "scaling", "verbose", "mean_", "scale_",
              "shift_", "num_variables", "num_transformers"):
        if hasattr(t, a):
            v = getattr(t, a)
            out[a] = bool(v) if a in ("byrow", "centering", "verbose") else v
    for k in ("transformers",):
        if hasattr(t, k):
            out[k] = [dict(tf_state(x), cls=type(x)) for x in getattr(t, k)]
    return out


NAMED = [None, "u"]


def tf_acts(V, n):
    Q = V.array("Q", n, V.dim("k", hi=3, split=False))
    return lambda t: {"transform": t.transform(V.copy(Q)), "inverse": t.inverse_transform(V.copy(Q)),
                      "ddts": t.transform_ddts(V.copy(Q))}


@contract("C15", fns=["save", "load", "NullTransformer", "ShiftTransformer", "ScaleTransformer",
                      "ShiftScaleTransformer"],
          cases={"kind": KINDS, "name": NAMED}, bound=BOUND, trials=5)
def transformers(V, kind, name):
    n = V.dim("n", hi=4)
    t, f, g = make_tf(V, kind, n)
    t.name = name
    with Disk(V) as D:
        check(V, D, t, tf_state, tf_acts(V, n), copy=False, eq=kind.startswith("ss"))


SCALINGS = [None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym", "maxnorm", "maxnormsym"]


@contract("C15", fns=["ShiftScaleTransformer.save", "ShiftScaleTransformer.load", "ShiftScaleTransformer.__eq__"],
          cases={"centering": [False, True], "scaling": SCALINGS, "byrow": [False, True], "fitted": ["no", "dim", "yes"]},
          trials=4, bound=BOUND, when=lambda centering, scaling, byrow, fitted: (centering or scaling or fitted != "yes") and not (
              byrow and scaling in ("maxnorm", "maxnormsym")))
def shiftscale_options(V, centering, scaling, byrow, fitted):
    n = V.dim("n", hi=4)
    t = V.opinf.pre.ShiftScaleTransformer(centering=centering, scaling=scaling, byrow=byrow, name="field",
                                          verbose=False)
    if fitted == "dim":
        t.state_dimension = n
    elif fitted == "yes":
        t.state_dimension = n
        if centering:
            t.mean_ = V.array("mean", n)
        if scaling:
            a, b = (V.array("a", n, sign="pos"), V.array("b", n)) if byrow else (V.real("a", sign="pos"), V.real("b"))
            t.scale_, t.shift_ = a, b
    with Disk(V) as D:
        check(V, D, t, tf_state, tf_acts(V, n) if fitted == "yes" else None, copy=False)


@contract("C15", fns=["TransformerPipeline.save", "TransformerPipeline.load", "TransformerMulti.save",
                      "TransformerMulti.load", "TransformerMulti.__eq__"],
          cases={"join": ["pipeline", "multi"], "kinds": ["shift,scale", "null,ss.c", "ss.cs,shift,scalerow",
                                                          "ss.r,null"], "name": NAMED}, bound=BOUND, trials=5)
def joined_transformers(V, join, kinds, name):
    ks = kinds.split(",")
    n = V.dim("n", hi=3)
    ts = [make_tf(V, k, n, tag=str(i))[0] for i, k in enumerate(ks)]
    for i, t in enumerate(ts):
        t.name = None if i == 0 else f"v{i}"
    if join == "pipeline":
        t = V.opinf.pre.TransformerPipeline(ts, name=name)
    else:
        t = V.opinf.pre.TransformerMulti(ts)
    cls = type(t)
    total = n if join == "pipeline" else n * len(ks)
    state = tf_state if join == "pipeline" else lambda o: {"n": o.state_dimension, "num": o.num_variables, "tfs": [
        dict(tf_state(x), cls=type(x)) for x in o.transformers]}
    with Disk(V) as D:
        load = lambda o, f: cls.load(f, [type(x) for x in ts])
        check(V, D, t, state, tf_acts(V, total), copy=False, load=load, eq=False)
        f = D.new()
        t.save(f)
        V.raises("wrong number of classes", Exception, lambda: cls.load(f, [type(x) for x in ts] + [type(ts[0])]))


@contract("C15", fns=["load"], cases={"a": ["null", "shift", "scale", "ss.cs"], "b": ["null", "shift", "scale", "ss.cs"]},
          bound=BOUND, trials=3, when=lambda a, b: a != b)
def transformer_of_another_class(V, a, b):
    """a file that holds another kind of transformer is rejected"""
    n = V.dim("n", hi=3)
    s, t = make_tf(V, a, n)[0], make_tf(V, b, n, tag="o")[0]
    with Disk(V) as D:
        f = D.new()
        s.save(f)
        V.raises("rejected", Exception, lambda: type(t).load(f))


# ---------------------------------------------------------------------- bases
def basis_state(b):
    out = {"name": b.name, "shape": b.shape}
    for a in ("entries", "weights", "full_state_dimension", "reduced_state_dimension", "svdvals", "leftvecs",
              "rightvecs", "max_vectors"):
        if hasattr(b, a):
            out[a] = getattr(b, a)
    return out


def basis_acts(V, n, r):
    Q, z = V.array("Q", n, 3), V.array("z", r)
    return lambda b: {"compress": b.compress(Q), "decompress": b.decompress(z), "project": b.project(Q)}


@contract("C15", fns=["LinearBasis.save", "LinearBasis.load", "LinearBasis.__eq__", "BasisTemplate.copy"],
          cases={"weights": [None, "1d", "2d"], "name": NAMED}, bound=BOUND, trials=6)
def linear_basis(V, weights, name):
    n, r = V.dim("n", hi=5), V.dim("r", hi=3)
    V.assume(r <= n)
    E = V.array("Vr", n, r)
    w = None
    if weights == "1d":
        w = V.array("w", n, sign="pos")
    elif weights == "2d":
        w = V.spd("W", n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = V.opinf.basis.LinearBasis(E, w, check_orthogonality=False, name=name)
        with Disk(V) as D:
            st = lambda o: {k: v for k, v in basis_state(o).items() if k != "weights"} | {
                "weights": o.weights.toarray() if hasattr(o.weights, "toarray") else o.weights}
            check(V, D, b, st, basis_acts(V, n, r))


@contract("C15", fns=["BasisMulti.save", "BasisMulti.load", "BasisMulti.__eq__"], cases={"nv": [1, 2, 3]}, bound=BOUND,
          trials=5)
def multi_basis(V, nv):
    ns, rs = [V.dim(f"n{i}", hi=4) for i in range(nv)], [V.dim(f"r{i}", hi=2) for i in range(nv)]
    for n, r in zip(ns, rs):
        V.assume(r <= n)
    L = V.opinf.basis.LinearBasis
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bs = [L(V.array(f"V{i}", ns[i], rs[i]), V.array(f"w{i}", ns[i], sign="pos") if i else None,
                check_orthogonality=False, name=f"b{i}" if i else None) for i in range(nv)]
        b = V.opinf.basis.BasisMulti(bs)
        n, r = sum(ns[1:], ns[0]), sum(rs[1:], rs[0])
        z = V.array("z", r)
        Q = V.array("Q", n, 2)
        st = lambda o: {"bases": [basis_state(x)["entries"] for x in o.bases], "names": [x.name for x in o.bases],
                        "classes": [type(x) for x in o.bases], "n": o.full_state_dimension, "r": o.reduced_state_dimension}
        with Disk(V) as D:
            check(V, D, b, st, lambda o: {"decompress": o.decompress(z), "compress": o.compress(Q)},
                  load=lambda o, f: type(o).load(f, L), copy=False)
            f = D.new()
            b.save(f)
            V.raises("wrong number of classes", Exception, lambda: type(b).load(f, [L] * (nv + 1)))


@contract("C15", fns=["PODBasis.save", "PODBasis.load", "PODBasis.copy"],
          cases={"crit": ["num_vectors", "cumulative_energy", "residual_energy", "svdval_threshold", "projection_error"],
                 "weights": [None, "1d", "2d"], "state": ["fitted", "unfitted", "resized", "max", "fromsvd", "mos", "randomized", "options"]},
          modes=("con",), trials=3)
def pod_basis(V, crit, weights, state):
    """bounded stand-in: the basis has a private state of many parts"""
    np = V.np
    n, k = V.dim("n", lo=4, hi=6), V.dim("k", lo=4, hi=8)
    Q = V.array("Q", n, k)
    val = {"num_vectors": 2, "cumulative_energy": .9, "residual_energy": .1, "svdval_threshold": .3,
           "projection_error": .3}[crit]
    w = V.array("w", n, sign="pos") if weights == "1d" else V.spd("W", n) if weights == "2d" else None
    kw = {crit: val}
    if state == "max":
        kw["max_vectors"] = 3
    if state in ("mos", "randomized"):
        kw["svdsolver"] = {"mos": "method-of-snapshots"}.get(state, state)
    if state == "options":
        kw["lapack_driver"], kw["overwrite_a"] = "gesvd", False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P = V.opinf.basis.PODBasis
        if state == "fromsvd":
            U, s, Vh = np.linalg.svd(Q, full_matrices=False)
            b = P.from_svd(U, s, Vh.T if n < 6 else None, **kw)
        else:
            b = P(weights=w, name="pod" if n == 4 else None, **kw)
            if state != "unfitted":
                b.fit(Q)
            if state == "resized":
                b.reduced_state_dimension = 3 if b.reduced_state_dimension != 3 else 2
        q = V.array("q", n, 2)
        fitted = state != "unfitted"

        def st(o):
            out = {k: v for k, v in basis_state(o).items()} if fitted else {"name": o.name}
            out["criterion"] = list(o._PODBasis__criterion)
            out["max"] = o._PODBasis__max_vectors_desired
            W = o.weights
            out["weights"] = W.toarray() if sparse_(W) else W
            out["svdsolver"], out["options"] = o.svdsolver, dict(o.svdsolver_options)
            return out
        acts = (lambda o: {"compress": o.compress(q), "project": o.project(q)}) if fitted else None
        with Disk(V) as D:
            check(V, D, b, st, acts, eq=fitted)
            if state in ("unfitted", "options"):
                f = D.new()
                b.save(f)
                V.eq("fits alike", P.load(f).fit(Q).entries, b.fit(Q).entries)


# ------------------------------------------------------- posteriors and solvers
@contract("C15", fns=["OperatorPosterior.save", "OperatorPosterior.load"],
          cases={"size": ["1", "2", "ragged2", "matrix"], "inverted": [False, True]}, bound={"d": [1, 2]}, trials=5)
def operator_posterior(V, size, inverted):
    means, mats, r = rows(V, size)
    p = posterior(V, means, mats, inverted)
    with Disk(V) as D:
        check(V, D, p, lambda o: {"rows": o.nrows, "means": list(o.means), "covs": list(o.covs)}, copy=False,
              default=True)
        f = D.new()
        p.save(f)
        V.raises("not overwritten when told not to", FileExistsError, lambda: p.save(f, overwrite=False))


@contract("C15", fns=["SolverTemplate.save", "PlainSolver.load", "L2Solver.load", "TikhonovSolver.load",
                      "TruncatedSVDSolver.load", "TotalLeastSquaresSolver.load"],
          cases={"sol": [s for s in SOLVERS if s != "none"], "fitted": [True, False]}, bound={"r": [1, 2]}, trials=5)
def solvers(V, sol, fitted):
    d = 3 if sol in ("tsvd",) else V.dim("d", lo=2, hi=4)
    r = 2 if sol in ("l2d", "tikd") else V.dim("r", hi=3)
    k = V.dim("k", lo=5, hi=12)
    V.assume(k >= d + r + 1)
    s = solver(V, sol, d, r)
    Dm, Z = V.array("D", k, d), V.array("Z", r, k)
    if fitted:
        s.fit(Dm, Z)

    def st(o):
        out = solver_state(V, o)
        out["data"], out["lhs"] = o.data_matrix, o.lhs_matrix
        if sol == "tls" and fitted:
            out["error"], out["cond"] = o.error, o.augcond
        return out
    acts = (lambda o: {"solve": o.solve()}) if fitted else None
    with Disk(V) as D:
        check(V, D, s, st, acts, eq=False, shares=("data", "lhs", "options"))
