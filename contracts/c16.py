"""C16: ROMs compose lifting, preprocessing, basis and model consistently.

The stages are arbitrary: every abstract stage below acts through its own
arbitrary matrices (so different orders of composition, a skipped stage or a
stage applied to the wrong data give different results) and records what it is
calibrated with.  The ROM is checked against the contracts of its stages, not
against any particular stage."""
import warnings
from vp.harness import contract, Skip

STAGES = ["", "L", "T", "B", "LT", "LB", "TB", "LTB"]


class World:
    """stages with arbitrary actions, and the composition they should have"""

    def __init__(self, V, stages, kind, parametric=False, has_inputs=False, fitted=True, rows=None):
        self.V, self.stages, self.kind = V, stages, kind
        op = V.opinf
        self.n = V.dim("n", hi=4, split=False)
        self.nl = V.dim("nl", hi=5, split=False) if "L" in stages else self.n
        self.r = V.dim("r", hi=3, split=False) if "B" in stages else self.nl
        n, nl, r = self.n, self.nl, self.r
        W = self
        self.L, self.L2, self.Un = (V.array("L", nl, n), V.array("L2", nl, n), V.array("Un", n, nl)) if "L" in stages else [None] * 3
        self.T = {f: V.array(f"T{f}", nl, nl) for f in (0, 1)} if "T" in stages else None
        self.t = {f: V.array(f"t{f}", nl) for f in (0, 1)} if "T" in stages else None
        self.D = {f: V.array(f"D{f}", nl, nl) for f in (0, 1)} if "T" in stages else None
        self.Ti = {f: V.array(f"I{f}", nl, nl) for f in (0, 1)} if "T" in stages else None
        self.C = {f: V.array(f"C{f}", r, nl) for f in (0, 1)} if "B" in stages else None
        self.E = {f: V.array(f"E{f}", nl, r) for f in (0, 1)} if "B" in stages else None
        self.ft = self.fb = 0 if fitted else None
        self.fitdata = {}

        class Lifter(op.lift.LifterTemplate):
            def lift(self, states):
                return W.L @ states

            def lift_ddts(self, states, ddts):
                return (W.L2 @ states) * (W.L @ ddts)

            def unlift(self, lifted_states):
                return W.Un @ lifted_states

        class Transformer(op.pre.TransformerTemplate):
            def put(self, x, new, inplace):
                if inplace:
                    x[...] = new
                    return x
                return new

            def fit(self, states):
                W.ft = 1
                W.fitdata.setdefault("transformer", []).append(V.copy(states))
                return self

            def fit_transform(self, states, inplace=False):
                self.fit(states)
                return self.transform(states, inplace)

            def transform(self, states, inplace=False):
                return self.put(states, W.transform(states), inplace)

            def transform_ddts(self, ddts, inplace=False):
                return self.put(ddts, W.D[W.ft] @ ddts, inplace)

            def inverse_transform(self, states_transformed, inplace=False, locs=None):
                if locs is not None:
                    return self.put(states_transformed, W.at(locs, states_transformed), inplace)
                return self.put(states_transformed, W.Ti[W.ft] @ states_transformed, inplace)

        class Basis(op.basis.BasisTemplate):
            def fit(self, states):
                W.fb = 1
                W.fitdata.setdefault("basis", []).append(V.copy(states))
                return self

            def compress(self, states):
                return W.C[W.fb] @ states

            def decompress(self, states_compressed, locs=None):
                E = W.E[W.fb]
                return (E if locs is None else E[locs]) @ states_compressed

        class DDT(op.ddt.DerivativeEstimatorTemplate):
            def __init__(self):
                pass

            def estimate(self, states, inputs=None):
                W.fitdata.setdefault("ddt", []).append((states, inputs))
                s, d = states[:, 1:], W.rates(states)
                return (s, d) if inputs is None else (s, d, inputs[..., 1:])

            def mask(self, arr):
                raise NotImplementedError

        Base = {("c", False): op.models.ContinuousModel, ("d", False): op.models.DiscreteModel,
                ("c", True): op.models.ParametricContinuousModel,
                ("d", True): op.models.ParametricDiscreteModel}[kind, parametric]

        class Model(Base):
            def __init__(self):
                self._has_inputs = has_inputs
                self.fits = []
                self.predicts = []

            def fit(self, *args):
                self.fits.append(("fit", args))
                return self

            def _fit_solver(self, *args):
                self.fits.append(("solver", args))

            def predict(self, *args, **kwargs):
                self.predicts.append((args, kwargs))
                state0 = args[1] if parametric else args[0]
                return W.evolve(state0)

        self.lifter = Lifter() if "L" in stages else None
        self.transformer = Transformer() if "T" in stages else None
        self.basis = Basis() if "B" in stages else None
        self.ddt = DDT() if kind == "c" else None
        self.model = Model()
        self.parametric = parametric

    def rom(self, estimator=True):
        op = self.V.opinf
        cls = op.roms.ParametricROM if self.parametric else op.roms.ROM
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return cls(self.model, lifter=self.lifter, transformer=self.transformer, basis=self.basis,
                       ddt_estimator=self.ddt if estimator else None)

    # the documented compositions
    def shift(self, x):
        t = self.t[self.ft]
        return t if x.ndim == 1 else t[:, None]

    def transform(self, x):
        return self.T[self.ft] @ x + self.shift(x)

    def at(self, locs, x):
        d = self.t[self.ft][locs]
        return (d if x.ndim == 1 else d[:, None]) * x

    def lifted(self, q):
        return self.L @ q if "L" in self.stages else q

    def encode(self, q):
        q = self.lifted(q)
        if "T" in self.stages:
            q = self.transform(q)
        return self.C[self.fb] @ q if "B" in self.stages else q

    def encode_lhs(self, q, z):
        if "L" in self.stages:
            z = (self.L2 @ q) * (self.L @ z) if self.kind == "c" else self.L @ z
        if "T" in self.stages:
            z = self.D[self.ft] @ z if self.kind == "c" else self.transform(z)
        return self.C[self.fb] @ z if "B" in self.stages else z

    def decode(self, x):
        if "B" in self.stages:
            x = self.E[self.fb] @ x
        if "T" in self.stages:
            x = self.Ti[self.ft] @ x
        return self.Un @ x if "L" in self.stages else x

    def rates(self, x):
        return 3 * x[:, 1:] - 2 * x[:, :-1]

    def evolve(self, q0):
        V = self.V
        if "P" not in self.__dict__:
            self.P, self.w = V.array("P", self.r, self.r), V.array("w", 3)
        return (self.P @ q0)[:, None] * self.w[None, :]


@contract("C16", fns=["_BaseROM.encode"], cases={"stages": STAGES, "kind": ["c", "d"], "state": ["matrix", "vector"]}, trials=6)
def encode_is_the_composition(V, stages, kind, state):
    W = World(V, stages, kind)
    shape = (W.n,) if state == "vector" else (W.n, V.dim("k", hi=4))
    Q, Z = V.array("Q", *shape), V.array("Z", *shape)
    Q0, Z0 = V.copy(Q), V.copy(Z)
    rom = W.rom()
    V.eq("encode", rom.encode(Q), W.encode(Q0))
    both = rom.encode(Q, Z)
    V.true("two outputs", len(both) == 2)
    V.eq("encoded states", both[0], W.encode(Q0))
    V.eq("encoded lhs", both[1], W.encode_lhs(Q0, Z0))
    V.eq("states unchanged", Q, Q0)
    V.eq("lhs unchanged", Z, Z0)
    V.true("nothing calibrated", W.fitdata == {})
    V.eq("inplace gives the same", rom.encode(V.copy(Q), inplace=True), W.encode(Q0))


@contract("C16", fns=["_BaseROM.encode"], cases={"stages": STAGES, "kind": ["c", "d"], "fit": ["t", "b", "tb"]}, trials=6)
def encode_calibrates_on_request(V, stages, kind, fit):
    W = World(V, stages, kind)
    n, k = W.n, V.dim("k", hi=4)
    Q, Z = V.array("Q", n, k), V.array("Z", n, k)
    Q0, Z0 = V.copy(Q), V.copy(Z)
    rom = W.rom()
    out = rom.encode(Q, Z, fit_transformer="t" in fit, fit_basis="b" in fit)
    V.true("transformer calibrated", ("transformer" in W.fitdata) == ("T" in stages and "t" in fit))
    V.true("basis calibrated", ("basis" in W.fitdata) == ("B" in stages and "b" in fit))
    if "transformer" in W.fitdata:
        V.true("once", len(W.fitdata["transformer"]) == 1)
        V.eq("transformer calibrated on lifted states", W.fitdata["transformer"][0], W.lifted(Q0))
    if "basis" in W.fitdata:
        X = W.lifted(Q0)
        V.true("once", len(W.fitdata["basis"]) == 1)
        V.eq("basis calibrated on transformed states", W.fitdata["basis"][0], W.transform(X) if "T" in stages else X)
    V.eq("encoded states", out[0], W.encode(Q0))
    V.eq("encoded lhs", out[1], W.encode_lhs(Q0, Z0))
    V.eq("states unchanged", Q, Q0)
    V.eq("lhs unchanged", Z, Z0)


@contract("C16", fns=["_BaseROM.decode", "_BaseROM.project"], cases={"stages": STAGES, "state": ["matrix", "vector"]}, trials=6)
def decode_and_project(V, stages, state):
    W = World(V, stages, "c")
    tail = () if state == "vector" else (V.dim("k", hi=4),)
    X, Q = V.array("X", W.r, *tail), V.array("Q", W.n, *tail)
    X0, Q0 = V.copy(X), V.copy(Q)
    rom = W.rom()
    V.eq("decode", rom.decode(X), W.decode(X0))
    V.eq("project", rom.project(Q), W.decode(W.encode(Q0)))
    V.eq("encoded states unchanged", X, X0)
    V.eq("states unchanged", Q, Q0)


@contract("C16", fns=["_BaseROM.decode"], cases={"stages": ["", "T", "B", "TB"], "state": ["matrix", "vector"]}, trials=6)
def decode_at_locations(V, stages, state):
    """without a lifter: entries `locs` only"""
    W = World(V, stages, "c")
    p = V.dim("p", hi=3)
    locs = V.locs("locs", p, W.nl)
    tail = () if state == "vector" else (V.dim("k", hi=4),)
    X = V.array("X", W.r if "B" in stages else p, *tail)
    X0 = V.copy(X)
    x = X0
    if "B" in stages:
        x = W.E[0][locs] @ x
    if "T" in stages:
        x = W.at(locs, x)
    V.eq("decode", W.rom().decode(X, locs=locs), x)
    V.eq("encoded states unchanged", X, X0)


def trajectories(V, W, s, inputs, lhs, longer=False):
    ks = [V.dim(f"k{i}", lo=2, hi=5) for i in range(s)]
    Qs = [V.array(f"Q{i}", W.n, k) for i, k in enumerate(ks)]
    Zs = [V.array(f"Z{i}", W.n, k) for i, k in enumerate(ks)] if lhs else None
    if inputs == "2d":
        m = V.dim("m", hi=2, split=False)
        Us = [V.array(f"U{i}", m, k + 1 if longer else k) for i, k in enumerate(ks)]
    elif inputs == "1d":
        Us = [V.array(f"U{i}", k) for i, k in enumerate(ks)]
    else:
        Us = None
    return ks, Qs, Zs, Us


def expected(V, W, Qs, Zs, Us):
    X = [W.encode(Q) for Q in Qs]
    if Zs is not None:
        return X, [W.encode_lhs(Q, Z) for Q, Z in zip(Qs, Zs)], Us
    if W.kind == "c":
        return [x[:, 1:] for x in X], [W.rates(x) for x in X], None if Us is None else [U[..., 1:] for U in Us]
    return [x[:, :-1] for x in X], [x[:, 1:] for x in X], None if Us is None else \
        [U[..., :x.shape[1] - 1] for x, U in zip(X, Us)]


def check_calibration(V, W, stages, fit, Qs):
    H = V.np.hstack
    V.true("transformer calibrated once if requested",
           len(W.fitdata.get("transformer", [])) == int("T" in stages and "t" in fit))
    V.true("basis calibrated once if requested", len(W.fitdata.get("basis", [])) == int("B" in stages and "b" in fit))
    X = [W.lifted(Q) for Q in Qs]
    if "transformer" in W.fitdata:
        V.eq("transformer calibrated on all lifted states", W.fitdata["transformer"][0], H(X))
    if "basis" in W.fitdata:
        V.eq("basis calibrated on all transformed states", W.fitdata["basis"][0],
             H([W.transform(x) for x in X]) if "T" in stages else H(X))


@contract("C16", fns=["ROM.fit", "_BaseROM._fit_model", "_BaseROM._process_training_data"], trials=3,
          cases={"stages": ["", "T", "LB", "LTB"], "kind": ["c", "d"], "lhs": [True, False], "inputs": ["none", "2d", "1d"],
                 "data": ["single", 1, 2, 3], "fit": ["tb"]})
def fit_trains_the_model_on_encoded_data(V, stages, kind, lhs, inputs, data, fit):
    check_fit(V, stages, kind, lhs, inputs, data, fit)


@contract("C16", fns=["ROM.fit", "_BaseROM._fit_model"], trials=3,
          cases={"stages": ["L", "B", "LT", "TB", "LTB"], "kind": ["c", "d"], "lhs": [True, False], "inputs": ["2d"],
                 "data": ["single", 2], "fit": ["", "t", "b", "tb"]})
def fit_with_calibrated_stages(V, stages, kind, lhs, inputs, data, fit):
    check_fit(V, stages, kind, lhs, inputs, data, fit)


def check_fit(V, stages, kind, lhs, inputs, data, fit, longer=False):
    W = World(V, stages, kind, has_inputs=inputs != "none")
    ks, Qs, Zs, Us = trajectories(V, W, 1 if data == "single" else data, inputs, lhs, longer)
    c = V.copy
    Qs0, Zs0, Us0 = c(Qs), c(Zs), c(Us)
    rom = W.rom()
    kw = dict(fit_transformer="t" in fit, fit_basis="b" in fit)
    if fit == "tb":
        kw = {}
    one = (lambda x: x[0] if x is not None else None) if data == "single" else (lambda x: x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        V.true("returns self", rom.fit(one(Qs), one(Zs), one(Us), **kw) is rom)
    check_calibration(V, W, stages, fit, Qs0)
    X, Y, U = expected(V, W, Qs0, Zs0, Us0)
    H = V.np.hstack
    V.true("model fit once", len(W.model.fits) == 1 and W.model.fits[0][0] == "fit")
    args = W.model.fits[0][1]
    V.true("three arguments", len(args) == 3)
    V.eq("model states", args[0], H(X))
    V.eq("model lhs", args[1], H(Y))
    if inputs == "none":
        V.true("no inputs", args[2] is None)
    else:
        V.eq("model inputs", args[2], H(U))
    unchanged(V, Qs, Qs0, Zs, Zs0, Us, Us0)


def unchanged(V, Qs, Qs0, Zs, Zs0, Us, Us0):
    V.eq("states unchanged", Qs, Qs0)
    if Zs is not None:
        V.eq("lhs unchanged", Zs, Zs0)
    if Us is not None:
        V.eq("inputs unchanged", Us, Us0)


@contract("C16", fns=["ROM.fit"], cases={"stages": ["", "TB"], "data": ["single", 2]}, trials=3)
def discrete_inputs_may_be_longer(V, stages, data):
    """inputs given for every snapshot and beyond are aligned with the snapshots"""
    check_fit(V, stages, "d", False, "2d", data, "tb", longer=True)


@contract("C16", fns=["ParametricROM.fit", "_BaseROM._fit_model"], trials=3,
          cases={"stages": ["", "T", "LB", "LTB"], "kind": ["c", "d"], "lhs": [True, False], "inputs": ["none", "2d"],
                 "s": [1, 2], "fit": ["", "tb"]})
def parametric_fit(V, stages, kind, lhs, inputs, s, fit):
    W = World(V, stages, kind, parametric=True, has_inputs=inputs != "none")
    ks, Qs, Zs, Us = trajectories(V, W, s, inputs, lhs)
    c = V.copy
    Qs0, Zs0, Us0 = c(Qs), c(Zs), c(Us)
    mus = [V.array(f"mu{i}", 2) for i in range(s)]
    rom = W.rom()
    kw = {} if fit == "tb" else dict(fit_transformer=False, fit_basis=False)
    V.true("returns self", rom.fit(mus, Qs, Zs, Us, **kw) is rom)
    check_calibration(V, W, stages, fit, Qs0)
    X, Y, U = expected(V, W, Qs0, Zs0, Us0)
    V.true("model fit once", len(W.model.fits) == 1 and W.model.fits[0][0] == "fit")
    args = W.model.fits[0][1]
    V.true("four arguments", len(args) == 4)
    V.eq("parameters", list(args[0]), mus)
    V.eq("model states", list(args[1]), X)
    V.eq("model lhs", list(args[2]), Y)
    if inputs == "none":
        V.true("no inputs", args[3] is None)
    else:
        V.eq("model inputs", list(args[3]), U)
    unchanged(V, Qs, Qs0, Zs, Zs0, Us, Us0)


@contract("C16", fns=["ROM.predict", "ParametricROM.predict"], cases={"stages": STAGES, "parametric": [False, True]}, trials=6)
def predict_encodes_evolves_decodes(V, stages, parametric):
    W = World(V, stages, "c", parametric=parametric)
    q0 = V.array("q0", W.n)
    q00 = V.copy(q0)
    rom = W.rom()
    t, f, mu = object(), object(), object()
    lead = (mu,) if parametric else ()
    out = rom.predict(*lead, q0, t, f, method="Radau")
    X = W.evolve(W.encode(q00))
    V.eq("prediction", out, W.decode(X))
    (args, kw), = W.model.predicts
    V.true("arguments handed on", len(args) == len(lead) + 3 and args[-2] is t and args[-1] is f and kw == {"method": "Radau"}
           and (not parametric or args[0] is mu))
    V.eq("encoded initial condition", args[len(lead)], W.encode(q00))
    V.eq("initial condition unchanged", q0, q00)
    V.true("nothing calibrated", W.fitdata == {})


@contract("C16", fns=["_BaseROM._check_fit_args"], trials=2, cases={"parametric": [False, True]})
def missing_data_is_reported(V, parametric):
    n, k = V.dim("n"), V.dim("k", lo=2)
    W = World(V, "", "c", parametric=parametric, has_inputs=True)
    Q, Z, U = V.array("Q", n, k), V.array("Z", n, k), V.array("U", k)
    lead = ([V.array("mu", 1)],) if parametric else ()
    w = (lambda x: [x]) if parametric else (lambda x: x)
    rom = W.rom(estimator=False)
    V.raises("lhs required", ValueError, lambda: rom.fit(*lead, w(Q), None, w(U)))
    V.raises("inputs required", ValueError, lambda: rom.fit(*lead, w(Q), w(Z), None))
    V.true("model untouched", W.model.fits == [])


@contract("C16", fns=["_BaseROM.__init__"], trials=2)
def estimator_ignored_for_discrete_models(V):
    W = World(V, "", "d")
    W.ddt = V.opinf.ddt.UniformFiniteDifferencer(V.np.arange(5) * 1.0) if not V.symbolic else object()
    rom = W.rom()
    V.true("no estimator", rom.ddt_estimator is None)


def real_rom(V, kind, stages, inputs=False, n=6, r=2):
    """a ROM of the package's own stages and the training data for it"""
    np, op = V.np, V.opinf
    lifter = op.lift.QuadraticLifter() if "L" in stages else None
    nl = 2 * n if "L" in stages else n
    mk = lambda: op.pre.ShiftScaleTransformer(centering=bool(V.rng.integers(2)), byrow=bool(V.rng.integers(2)),
                                              scaling=[None, "standard", "minmax", "maxabs"][V.rng.integers(4)])
    transformer = None
    if "T" in stages:
        transformer = op.pre.TransformerMulti([mk(), mk()]) if "M" in stages else mk()
    basis = None
    if "B" in stages:
        if "M" in stages:
            basis = op.basis.BasisMulti([op.basis.PODBasis(num_vectors=r), op.basis.PODBasis(num_vectors=r)])
        else:
            basis = op.basis.PODBasis(num_vectors=r)
    cls = op.models.ContinuousModel if kind == "c" else op.models.DiscreteModel
    model = cls("cAB" if inputs else "cA")
    return op.roms.ROM(model, lifter=lifter, transformer=transformer, basis=basis,
                       ddt_estimator=op.ddt.UniformFiniteDifferencer(np.linspace(0, 1, 30), "ord4") if kind == "c" else None)


@contract("C16", fns=["ROM.fit", "ROM.predict"], modes=("con",), trials=6,
          cases={"kind": ["c", "d"], "stages": ["T", "LB", "TB", "LTB", "MTB", "MLTB"], "inputs": [False, True]})
def with_the_packages_own_stages(V, kind, stages, inputs):
    np = V.np
    n, k, s = 6, 30, V.rng.integers(1, 4)
    rom = real_rom(V, kind, stages, inputs, n)
    t = np.linspace(0, 1, k)
    Qs = [np.array([np.sin((i + 1) * t * V.rng.uniform(.5, 2) + V.rng.normal()) + 1.5 + V.rng.random() for i in range(n)])
          for _ in range(s)]
    Us = [np.cos(3 * t + V.rng.normal(size=(2, 1))) for _ in range(s)] if inputs else None
    Qs0, Us0 = V.copy(Qs), V.copy(Us)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rom.fit(Qs, None, Us)
        X = [rom.lifter.lift(Q) if rom.lifter else Q for Q in Qs0]
        op = V.opinf
        if rom.transformer is not None:
            X = [rom.transformer.transform(x) for x in X]
        if rom.basis is not None:
            X = [rom.basis.compress(x) for x in X]
        if kind == "c":
            est = [op.ddt.ddt_uniform(x, t[1] - t[0], order=4) for x in X]
            Y, X1, U1 = est, X, Us0
        else:
            Y, X1 = [x[:, 1:] for x in X], [x[:, :-1] for x in X]
            U1 = [U[:, :-1] for U in Us0] if inputs else None
        model = type(rom.model)("cAB" if inputs else "cA")
        model.fit(np.hstack(X1), np.hstack(Y), np.hstack(U1) if inputs else None)
        for a, b in zip(rom.model.operators, model.operators):
            V.eq("operators", a.entries, b.entries, tol=1e-6)
        V.eq("states unchanged", Qs, Qs0)
        if inputs:
            V.eq("inputs unchanged", Us, Us0)
        q = Qs0[0][:, 0]
        args = (t, (lambda tt: np.array([np.cos(tt), 1 - tt]))) if kind == "c" else (5, Us0 and Us0[0])
        if not inputs:
            args = args[:1]
        x0 = rom.encode(q)
        V.eq("encode of a snapshot", x0, X[0][:, 0])
        pred = rom.model.predict(x0, *args)
        V.eq("prediction", rom.predict(q, *args), rom.decode(pred))
        if rom.basis is not None and rom.lifter is None:
            P = rom.project(Qs0[0])
            V.eq("project is idempotent", rom.project(P), P)
            V.eq("encode(decode(x)) = x", rom.encode(rom.decode(X[0])), X[0])
        elif rom.basis is None:
            V.eq("decode(encode(q)) = q", rom.project(Qs0[0]), Qs0[0])


@contract("C16", fns=["ROM.fit", "ROM.encode", "ROM.decode", "ROM.predict"], modes=("con",), trials=4,
          cases={"kind": ["c", "d"], "stages": ["T", "LB", "TB", "LTB", "MTB"], "inputs": [False, True]})
def refitted_rom_forgets_the_first_data(V, kind, stages, inputs):
    """a second fit gives what a new reduced-order model fitted to the second data set gives"""
    np = V.np
    n, k = 6, 30
    state = V.rng.bit_generator.state
    A = real_rom(V, kind, stages, inputs, n)
    V.rng.bit_generator.state = state
    B = real_rom(V, kind, stages, inputs, n)
    t = np.linspace(0, 1, k)
    new = lambda: [np.array([np.sin((i + 1) * t * V.rng.uniform(.5, 2) + V.rng.normal()) + 1.5 + V.rng.random()
                             for i in range(n)]) for _ in range(2)]
    Us = [np.cos(3 * t + V.rng.normal(size=(2, 1))) for _ in range(2)] if inputs else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first, second = new(), new()
        A.fit(first, None, Us)
        A.project(first[0])
        if V.choice("reuse", [False, True]):
            held = [Q.copy() for Q in first]
            for a, b in zip(first, second):
                a[...] = b
            A.fit(first, None, Us)
            first = held
        else:
            A.fit(second, None, Us)
        B.fit(second, None, Us)
        V.eq("project", A.project(first[1]), B.project(first[1]), tol=1e-6)
        q = second[0][:, 0]
        args = (t, (lambda tt: np.array([np.cos(tt), 1 - tt]))) if kind == "c" else (5, Us and Us[0])
        if not inputs:
            args = args[:1]
        a, b = A.encode(q), B.encode(q)
        f = (lambda M, x: M.model.rhs(0.2, x, *args[1:])) if kind == "c" else \
            (lambda M, x: M.model.rhs(x, *([Us[0][:, 0]] if inputs else [])))
        V.eq("right-hand side", A.decode(f(A, a)), B.decode(f(B, b)), tol=1e-5)
