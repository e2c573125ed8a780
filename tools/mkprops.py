"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/opinf/" + f for f in files],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Operators apply exactly their entries times the data matrix",
  "For every nonparametric operator (constant, linear, quadratic, cubic, quartic, input, state-input), applying it to a state and input gives exactly the operator's entries multiplied by the operator's data block for that state and input, where the data block is the documented feature vector (1, q, the compressed Kronecker products of q with itself, u, u kron q). Applying an operator to many snapshots at once gives column by column what applying it to each snapshot gives. The advertised operator dimension always equals the number of columns of the entries and the number of rows of the data block.",
  ["inputs"], "all state dimensions r, input dimensions m, snapshot counts k, operator entries, states and inputs (single snapshots, batches, and scalar states when r = 1)",
  "The tests compare a few random draws at fixed sizes; the identity must hold for every dimension and every value.",
  ["operators/_nonparametric.py", "operators/_base.py", "operators/_polynomial_operator.py"],
  [("apply / datablock / operator_dimension / ckron", "operators/_nonparametric.py")],
  ["Operator.apply", "Operator.datablock", "Operator.operator_dimension"])

p("C02", "Jacobians are the exact derivatives of what is evaluated",
  "For every nonparametric operator, jacobian(q, u) is the exact derivative of apply(q, u) with respect to the state q. For every model, jacobian(q, u) is the exact derivative of the right-hand side rhs(q, u) with respect to q.",
  ["inputs"], "all dimensions, entries, states and inputs (states differ from call to call, so no cached quantity may leak between states)",
  "Finite-difference comparisons in the tests cover fixed sizes and random points; exactness for all sizes and states is a universally quantified algebraic identity.",
  ["operators/_nonparametric.py", "models/mono/_nonparametric.py"],
  [("jacobian and its precomputed _jac / _jac_ factors", "operators/_nonparametric.py"), ("model jacobian", "models/mono/_nonparametric.py")],
  ["Operator.jacobian", "ContinuousModel.jacobian", "DiscreteModel.jacobian"])

p("C03", "Galerkin projection commutes with evaluation",
  "Projecting an operator with a trial basis V and a test basis W gives a new operator of the same kind, leaves the original unchanged, and satisfies reduced.apply(z, u) = (W^T V)^{-1} W^T full.apply(V z, u) for every reduced state z and input u; omitting W means W = V. Projecting a model projects every one of its operators in the same way, so the projected model's right-hand side is the projection of the full one.",
  ["inputs"], "all full and reduced dimensions, bases (orthonormal or not, W = V or not), entries, reduced states and inputs",
  "The tests check shapes and isolated examples with orthonormal bases; the commuting identity over arbitrary W, V and states is never exercised in general.",
  ["operators/_base.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py"],
  [("OpInfOperator.galerkin", "operators/_base.py"), ("galerkin of each operator", "operators/_nonparametric.py"), ("model galerkin", "models/mono/_nonparametric.py")],
  ["Operator.galerkin", "Model.galerkin"])

p("C04", "Compressed and full Kronecker entries describe the same operator",
  "For quadratic, cubic and quartic operators, compressing entries written for the full Kronecker product and evaluating on the compressed product gives the same result as the full product for every state; expanding compressed entries does the same in the other direction. Compressing after expanding returns the entries unchanged, and expanding returns entries that are symmetric in the state indices. Constructing or setting an operator with full-product or tensor entries yields the same operator as the compressed entries, without modifying the array that was passed.",
  ["inputs"], "all dimensions, entries and states",
  "The tests sample small random tensors; the identities quantify over all dimensions, and index-ordering mistakes cancel for symmetric samples.",
  ["operators/_nonparametric.py"],
  [("compress_entries / expand_entries / ckron / ckron_indices", "operators/_nonparametric.py"), ("set_entries", "operators/_nonparametric.py")],
  ["QuadraticOperator.compress_entries", "CubicOperator.expand_entries", "Operator.entries"])

p("C05", "A model evaluates the sum of its operators, and predict iterates it",
  "The right-hand side of a model equals the sum of all of its operators applied to the same state and input, independently of the order of the operators, and never alters the state or the operators. For discrete models, predict returns the initial state followed by successive applications of the right-hand side with the matching column of the inputs; for continuous models, predict integrates exactly that right-hand side (and Jacobian), with inputs taken from the input function at the solver's time or interpolated from the given samples, and returns the states at the requested times.",
  ["inputs", "configurations"], "all operator combinations and orders, dimensions, states, inputs, and numbers of time steps",
  "The tests use a handful of operator combinations and fixed step counts; the sum and the recursion must hold for every combination and every number of steps.",
  ["models/mono/_nonparametric.py", "models/mono/_base.py"],
  [("rhs / predict of the three model classes", "models/mono/_nonparametric.py")],
  ["SteadyModel.rhs", "ContinuousModel.rhs", "ContinuousModel.predict", "DiscreteModel.rhs", "DiscreteModel.predict"])

p("C06", "Model fit poses and distributes the documented regression",
  "Fitting a model hands the solver the least-squares problem whose data matrix consists of the data blocks of exactly the operators without entries, in operator order, and whose left-hand side is the given left-hand side minus the contribution of the operators whose entries are already known (trajectories concatenated in order; for discrete models each state paired with its successor and the input of that step). After the fit, the entries of the fitted operators are exactly the corresponding column blocks of the solver's solution, so the fitted operators' combined action on the training data equals the solution applied to the data matrix; operators with known entries, and the training data, are left untouched.",
  ["inputs", "configurations"], "all operator combinations (known and unknown, with and without inputs), dimensions, numbers of snapshots and trajectories, and refits",
  "Tests fix a few models; alignment of column blocks, trajectories and known terms must hold for every combination and for repeated fits.",
  ["models/mono/_nonparametric.py", "models/mono/_base.py", "models/_utils.py", "operators/_nonparametric.py", "operators/_base.py"],
  [("_process_fit_arguments, _assemble_data_matrix, _extract_operators, fit, refit", "models/mono/_nonparametric.py"), ("stack_trajectories", "models/mono/_nonparametric.py")],
  ["Model.fit", "Model.refit", "solver.fit arguments", "Operator.entries"])

p("C07", "Parametric operators and models agree with their nonparametric values",
  "Evaluating an affine parametric operator at a parameter gives the nonparametric operator whose entries are the coefficient-weighted sum of its matrices; evaluating an interpolatory operator at any of its training parameters gives the entries for that parameter, whatever the order of the training parameters. A parametric operator's or model's apply, jacobian and rhs at a parameter equal those of the evaluated nonparametric operator or model, and a parametric data block pairs with the stacked entries to give the operator's action at every training parameter. Fitting a parametric model distributes the solver's solution over its operators consistently with those data blocks, and an interpolatory model fit gives at each training parameter the model fitted to that parameter's data alone.",
  ["inputs", "configurations"], "all parameter dimensions and values, numbers of training parameters and affine terms, coefficient functions, entries, and mixtures of parametric and nonparametric operators",
  "Tests use fixed parameter sets in ascending order and single operator kinds; the guarantee is over all orders, counts and mixtures.",
  ["operators/_affine.py", "operators/_interpolate.py", "operators/_base.py", "models/mono/_parametric.py"],
  [("evaluate / datablock / operator_dimension", "operators/_affine.py"), ("set_training_parameters / evaluate / _from_operators", "operators/_interpolate.py"), ("parametric fit / evaluate", "models/mono/_parametric.py")],
  ["ParametricOperator.evaluate", "ParametricModel.evaluate", "ParametricModel.fit"])

p("C08", "Preprocessing transformers are exactly invertible",
  "For every transformer (shift, scale, shift-and-scale, null, multi-variable, pipeline), inverse_transform undoes transform on every array of states, also when restricted to a subset of locations; transform_ddts is the linear part of transform, i.e. the time derivative of the transformed states is the transformed time derivative, and fit_transform equals fit followed by transform. Transformations work column by column, so one snapshot alone gives the same as that snapshot in a batch; with inplace=False no argument is modified, and with inplace=True the result is written into the given array.",
  ["inputs", "configurations"], "all state dimensions, snapshot counts, transformer kinds and options (every scaling, centering, by row or global), nestings, location subsets, and states different from the training states",
  "Tests check selected scalings on fixed random data; invertibility must hold for every configuration, new data and every subset of locations.",
  ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
  [("transform / inverse_transform / transform_ddts", "pre/_shiftscale.py"), ("composition over variables and pipelines", "pre/_multi.py")],
  ["Transformer.transform", "Transformer.inverse_transform", "Transformer.transform_ddts", "Transformer.fit_transform"])

p("C09", "Learned shifts and scalings have their documented targets",
  "Fitting the shift-and-scale transformer makes the transformed training data satisfy the documented target of the chosen option: zero mean snapshot when centering, zero mean and unit standard deviation (standard), range [0, 1] (minmax), range [-1, 1] (minmaxsym), and largest absolute value, or norm, as documented for the maxabs and maxnorm variants, either globally or per row. The stand-alone shift and scale functions compute the documented affine map, and multi-variable transformers and pipelines fit each part to exactly the data that part will transform.",
  ["inputs", "configurations"], "all nondegenerate training data, dimensions, snapshot counts, scaling options, by row or global, with or without centering",
  "Tests check the statistics on random samples of fixed size; the targets are identities over all data.",
  ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
  [("fit_transform and scaling rules", "pre/_shiftscale.py"), ("shift / scale", "pre/_shiftscale.py")],
  ["ShiftScaleTransformer.fit_transform", "shift", "scale"])

p("C10", "Bases compress, decompress and project consistently",
  "For every basis (linear, POD, multi-variable; with or without weights), compressing after decompressing is the identity on latent states whenever the basis is orthonormal in its inner product, projection equals decompress(compress(.)), is idempotent, and leaves states in the span of the basis unchanged, and decompressing at a subset of locations gives those rows of the full result. Compression and decompression are linear, act column by column, and are independent of the snapshots' order; multi-variable bases act on each variable's block with that variable's basis. projection_error is the norm of the difference between the states and their projection, relative or absolute as requested.",
  ["inputs", "configurations"], "all full and reduced dimensions, bases, weights, states (single snapshots and batches), location subsets and numbers of variables",
  "Tests fix a few shapes; linearity and the projection identities quantify over all states and bases.",
  ["basis/_linear.py", "basis/_base.py", "basis/_multi.py", "basis/_pod.py"],
  [("compress / decompress", "basis/_linear.py"), ("project / projection_error", "basis/_base.py"), ("BasisMulti", "basis/_multi.py")],
  ["Basis.compress", "Basis.decompress", "Basis.project", "Basis.projection_error"])

p("C11", "POD bases are orthonormal, optimal and of the documented dimension",
  "A POD basis has columns that are orthonormal in the chosen inner product and span the dominant singular directions of the (weighted) training data, singular values in descending order matching those directions, and projection error on the training data equal to the energy of the discarded singular values. The reduced dimension is exactly the one the chosen criterion documents (number of vectors, singular value threshold, cumulative energy, residual energy, projection error), never exceeds the number of available vectors, and can be changed after fitting to any admissible value with nested bases.",
  ["inputs", "configurations"], "all training data, weights, selection criteria and threshold values, and sequences of set_dimension calls",
  "Tests check single thresholds on random matrices; off-by-one selections only show for thresholds that fall on boundaries.",
  ["basis/_pod.py", "basis/_linear.py"],
  [("set_dimension and the selection criteria", "basis/_pod.py"), ("fit / fit_from_svd / weights", "basis/_pod.py")],
  ["PODBasis.fit", "PODBasis.set_dimension", "pod_basis", "cumulative_energy", "residual_energy", "svdval_decay"])

p("C12", "Least-squares solvers return the documented minimizer",
  "Each solver's solution minimizes its documented objective: ordinary or truncated-SVD least squares, scalar or per-row L2 regularization, Tikhonov regularization with one matrix or one per row, and total least squares. Changing the regularizer and solving again on the same data gives the same as building a new solver with that regularizer, and solving does not modify the data. The reported residual and regularized residual are the documented norms of the given operator matrix on that data, regularizers built from per-operator parameters place each parameter on its operator's columns, and the posterior mean and precision are those of the documented Bayesian regression.",
  ["inputs", "histories"], "all data sizes, data matrices, left-hand sides (one or many rows), admissible regularizers, solution methods, and sequences of solves with different regularizers",
  "Tests compare with dense formulas on a few random problems; optimality conditions must hold for every problem, method and sequence of regularizers.",
  ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py"],
  [("fit / solve / regularizer setters", "lstsq/_tikhonov.py"), ("residual", "lstsq/_base.py"), ("truncation", "lstsq/_tsvd.py"), ("total least squares", "lstsq/_total.py")],
  ["Solver.fit", "Solver.solve", "Solver.residual", "Solver.regresidual", "Solver.posterior", "TikhonovSolver.get_operator_regularizer"])

p("C13", "Time derivative estimators are exact, ordered and aligned",
  "Every finite-difference scheme of documented order p reproduces exactly the derivative of every polynomial of degree at most p in time, for every step size and number of snapshots, at every returned snapshot including boundaries. Estimators return states, derivatives and inputs that belong to the same time instants, as selected by their mask, and never modify the given arrays. Estimates are linear in the states and treat each state row independently, and the generic ddt function agrees with the uniform and nonuniform routines it stands for.",
  ["inputs", "configurations"], "all schemes, snapshot counts large enough for the scheme, step sizes, state dimensions, uniform and nonuniform times, with and without inputs",
  "Tests check convergence rates on one smooth function; a wrong coefficient at one boundary node or a misaligned mask only shows at particular sizes.",
  ["ddt/_finite_difference.py", "ddt/_base.py", "ddt/_interpolation.py"],
  [("fwd / bwd / ctr and mixed-order schemes", "ddt/_finite_difference.py"), ("estimate / mask", "ddt/_base.py"), ("ddt_uniform / ddt_nonuniform / ddt", "ddt/_finite_difference.py")],
  ["fwd1 ... bwd6, ctr2 ... ctr6, ord2, ord4, ord6", "UniformFiniteDifferencer.estimate", "NonuniformFiniteDifferencer.estimate", "InterpDerivativeEstimator.estimate", "ddt"])

p("C14", "Liftings invert and satisfy the chain rule",
  "For every provided lifter, unlift(lift(q)) = q for every native state on which the lifting is defined and one-to-one, and lift_ddts(q, dq) is the exact derivative of lift along q with velocity dq. Both act column by column on batches of states, return the documented blocks in the documented order, and leave their arguments unchanged.",
  ["inputs"], "all native states (scalar or block variables), orders of the lifting, derivatives and numbers of snapshots",
  "Tests evaluate a few random states; invertibility and the chain rule quantify over all states and orders, negative orders included.",
  ["lift/_base.py", "lift/_polynomial.py"],
  [("lift / unlift / lift_ddts", "lift/_polynomial.py")],
  ["Lifter.lift", "Lifter.unlift", "Lifter.lift_ddts"])

p("C15", "Saving and loading returns an equivalent object",
  "Saving any savable object (operator, model, transformer, basis, least-squares solver, operator posterior) and loading it with its class gives an object of the same class with the same options, entries and learned parameters, which acts identically on every input and compares equal where the class defines equality, whether or not it has been calibrated; copy() does the same and shares no entries, training parameters, weights or regularizers with the original. Saving with overwrite=False never overwrites an existing file, and saving never changes the object being saved; loading an operator, model, transformer or basis from a file that holds another kind raises an error instead of returning a wrong object.",
  ["inputs", "histories", "configurations"], "all savable classes, options, calibration states, entries and save/load/copy sequences",
  "Tests save and load a few configurations; equivalence must hold for every option and stored value.",
  ["utils/_hdf5.py", "operators/_base.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "roms/_bayes.py"],
  [("hdf5_savehandle / hdf5_loadhandle", "utils/_hdf5.py"), ("save / load / copy / __eq__ of each class", "operators, models, pre, basis, roms")],
  ["save", "load", "copy", "__eq__"])

p("C16", "ROMs compose lifting, preprocessing, basis and model consistently",
  "A reduced-order model's encode is lifting, then transformation, then compression, and its decode is decompression, inverse transformation and unlifting, in that order and with absent stages skipped, so decode(encode(q)) is the projection of q and project agrees with it. Fitting calibrates each stage on the output of the previous one and the model on encoded states with matching encoded derivatives (given, lifted and transformed, or estimated) and inputs, one trajectory or several. Prediction encodes the initial condition, evolves the reduced model and decodes the result, and no stage modifies the user's data.",
  ["inputs", "configurations"], "all combinations of present and absent stages, dimensions, trajectories, left-hand side sources and inputs",
  "Tests exercise a few combinations with fixed data; the composition must hold for every combination.",
  ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
  [("encode / decode / project", "roms/_base.py"), ("fit / predict", "roms/_nonparametric.py"), ("fit / predict", "roms/_parametric.py")],
  ["ROM.encode", "ROM.decode", "ROM.project", "ROM.fit", "ROM.predict"])

p("C17", "Operator posteriors represent the documented distributions",
  "An operator posterior built from means and precisions (or covariances) reports those means and the corresponding covariances, and random draws are operator matrices whose i-th row is distributed with the i-th mean and covariance and has the documented shape. A Bayesian reduced-order model's posterior is the one its solver defines for the fitted data, and drawing operators installs exactly the drawn matrix into the model's operators.",
  ["inputs", "configurations"], "all numbers of rows, row lengths, means, positive definite precisions, and both construction modes",
  "Tests check a few shapes; the guarantee is about the distribution and shape of every draw and about block placement for every model.",
  ["roms/_bayes.py", "lstsq/_tikhonov.py"],
  [("OperatorPosterior", "roms/_bayes.py"), ("draw_operators / _initialize_posterior", "roms/_bayes.py"), ("posterior", "lstsq/_tikhonov.py")],
  ["OperatorPosterior.means", "OperatorPosterior.covs", "OperatorPosterior.rvs", "BayesianROM.draw_operators"])

p("C18", "Regularization selection returns the best stable candidate",
  "A grid search never returns a candidate whose objective value is worse than that of any evaluated grid candidate, treats infinite or undefined (nan) values as inadmissible and respects the search bounds, and reports failure or falls back as documented when every candidate is inadmissible. Regularization selection of a reduced-order model leaves the model fitted with the selected regularization, rejects unstable candidates, and ranks the others by the documented training error.",
  ["inputs", "configurations"], "all candidate lists (any order, any length), objective functions including those with infinite or undefined values, and one or more hyperparameters",
  "Tests run one smooth objective; the guarantee ranges over all candidate orders and objectives.",
  ["utils/_gridsearch.py", "roms/_base.py", "roms/_nonparametric.py"],
  [("gridsearch", "utils/_gridsearch.py"), ("fit_regselect_continuous / fit_regselect_discrete", "roms/_base.py")],
  ["utils.gridsearch", "ROM.fit_regselect_continuous", "ROM.fit_regselect_discrete"])

p("C19", "Error metrics compute the documented norms",
  "The Frobenius, l2 and L2-in-time error functions return exactly the documented absolute and relative errors of an approximation against a reference: zero if and only if the two agree, unchanged in relative form when both are multiplied by the same nonzero number, scaled by its magnitude in absolute form, and normalized by the reference (or the given normalization) and never by the approximation. They act snapshot by snapshot where documented, and never modify their arguments.",
  ["inputs"], "all reference and approximate data (single snapshots and batches), time grids, norms and normalization options",
  "Tests compare with one formula on random data of one shape; normalization and axis mistakes hide when the shapes or data are special.",
  ["post/_errors.py"],
  [("frobenius_error / lp_error / Lp_error", "post/_errors.py")],
  ["post.frobenius_error", "post.lp_error", "post.Lp_error"])

with open("properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
