S = "src/probnum/"
NA = {}
MC = "explicit-state exploration of the real code: "
P = []


def p(id, title, statement, over, q, why, files, mech, tech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=[S + f for f in files],
                  mech=mech, tech=MC + tech, note=note, observe=list(observe)))


p("C01", "Linear-operator expressions act like their dense matrices",
  "Every expression built from linear operators (products, sums, differences, scalar multiples, transposes, inverses, casts, Kronecker and "
  "block compositions, also mixed with arrays) has the shape and the action of the same expression of dense matrices, whichever operator "
  "classes are combined. An undefined combination is refused rather than answered.",
  ["programs", "configurations"], "all expressions up to the depth bound over the operator catalogue, both evaluation modes",
  "the arithmetic dispatches on pairs of operator classes: tests sample a few pairs, the defects live in the other pairs",
  ["linops/_linear_operator.py", "linops/_arithmetic.py", "linops/_arithmetic_fallbacks.py", "linops/_scaling.py", "linops/_kronecker.py", "linops/_block.py"],
  [("pairwise arithmetic registry", "linops/_arithmetic.py"), ("fallback sum/product operators", "linops/_arithmetic_fallbacks.py")],
  "all operator expressions up to a depth bound against dense numpy",
  "bounded: leaves of every class, depth 2-3, dims <= 6; deterministic entries", ["operator results as dense arrays and matrix-vector products"])
p("C02", "Derived matrix quantities are right after any history of queries",
  "Rank, determinant, eigenvalues, condition number, trace, diagonal, inverse, solves, Cholesky factors and symmetric part of an operator equal those "
  "of its dense matrix, no matter which quantities were asked for before. Structural claims an operator makes about itself (symmetric, triangular, positive definite) are true.",
  ["histories", "inputs"], "all operators of the catalogue, all ordered query histories up to the bound",
  "answers are cached and caches steer later algorithms; tests query fresh objects in one order",
  ["linops/_linear_operator.py", "linops/_scaling.py", "linops/_kronecker.py", "linops/_block.py", "linops/_arithmetic_fallbacks.py"],
  [("caching accessors", "linops/_linear_operator.py"), ("class-specific shortcuts", "linops/_scaling.py, linops/_kronecker.py")],
  "all query histories up to depth 2-3 on every operator", "bounded: orders <= 4 (6 thorough), histories <= 2 (3 thorough)")
p("C03", "Operators apply to stacked operands along any axis",
  "Multiplying an operator with a stack of vectors or matrices from the left or right, applying it along any axis of an array, or solving with a stack of right-hand sides "
  "gives the numpy result for the dense matrix. The operand is never modified and operands of the wrong shape are refused.",
  ["inputs"], "all operators, operand ranks 1-4, all axes, memory layouts and dtypes of the bounded grid",
  "tests apply operators to vectors and a few matrices; axis and stack handling is class specific",
  ["linops/_linear_operator.py", "linops/_vectorize.py", "linops/_kronecker.py", "linops/_block.py"],
  [("axis application and broadcasting", "linops/_linear_operator.py, linops/_vectorize.py")],
  "all operand ranks, stack shapes, axes, layouts and dtypes", "bounded: ranks <= 4, stack dims <= 3")
p("C04", "Gaussian arithmetic is the exact affine pushforward",
  "Any sequence of arithmetic operations on Gaussian and constant random variables with scalars, arrays, operators and independent Gaussians yields the random variable whose "
  "shape, mean, covariance, variances and carried Cholesky factor are those of the exactly transformed distribution. Operands are left unchanged.",
  ["programs", "histories"], "all operation sequences up to the bound from every covariance representation, with and without precomputed factors",
  "tests check single operations on a few shapes; representation, factor caching and sign interact over sequences",
  ["randvars/_arithmetic.py", "randvars/_normal.py", "randvars/_constant.py"],
  [("arithmetic registry", "randvars/_arithmetic.py"), ("covariance representations", "randvars/_normal.py")],
  "all operation sequences against exact Gaussian pushforward", "bounded: depth 2-3, vectors <= 3, matrices <= 2x3")
p("C05", "Structural operations on random variables act on their values",
  "Indexing, reshaping and transposing a random variable is the same operation on its values: shape, mean, covariance and samples of any size transform accordingly, for every "
  "index expression numpy accepts and for every kind of random variable.",
  ["inputs", "programs"], "all keys of the key alphabet, reshapes and permutations and their pairs, for all kinds of random variables",
  "tests index with a handful of keys and never look at samples or covariances of the result",
  ["randvars/_random_variable.py", "randvars/_normal.py", "randvars/_constant.py"],
  [("marginalisation by indexing", "randvars/_normal.py"), ("generic structural operations", "randvars/_random_variable.py")],
  "all index keys, reshapes, permutations and pairs thereof", "bounded: dims <= 3(4), two-step sequences")
p("C06", "Distribution functions of a random variable describe one law",
  "Density, log-density, distribution function, quantile, entropy, mode, median, moments and support membership of a random variable agree with each other and with the "
  "closed form of its distribution, for single and batched points. Probability masses are non-negative and sum to one, also with repeated or array-valued support points. "
  "A Cholesky factor of a Gaussian, given or computed with any damping, is the lower-triangular factor of its (damped) covariance.",
  ["inputs"], "all distributions of the catalogue x all grid points x all batch shapes",
  "tests evaluate few functions at random points and never relate them",
  ["randvars/_random_variable.py", "randvars/_normal.py", "randvars/_categorical.py", "randvars/_constant.py", "randvars/_scipy_stats.py"],
  [("distribution callables and fallbacks", "randvars/_random_variable.py")],
  "complete parameter/point grid against closed forms", "bounded: finite parameter and point grids")
p("C07", "Sampling has the right shape, exact law and no side effects",
  "Sampling a random variable returns an array of the requested size followed by the variable's shape whose distribution is exactly the variable's, independent across the requested samples. "
  "It is reproducible from the generator passed in, touches no global random state and does not change the variable.",
  ["inputs", "schedules"], "all variables of the catalogue, all size forms, all unit scripts of the random environment",
  "tests look at shapes of seeded samples; the law of a sampler is invisible in any single draw",
  ["randvars/_normal.py", "randvars/_random_variable.py", "randvars/_categorical.py", "randvars/_arithmetic.py"],
  [("samplers", "randvars/_normal.py, randvars/_categorical.py")],
  "exhaustive scripting of the random environment", "bounded: dims <= 6; samplers affine in their Gaussian draws are determined by the unit scripts")
p("C08", "Covariance functions evaluate their formula in every form",
  "Calling a covariance function, asking for its covariance matrix and asking for its covariance operator all give the values of its defining formula at every pair of points, for every "
  "combination of batch shapes, an omitted second argument, multiple outputs, sums, products and scalings, and integer or single-precision inputs. Gram matrices are symmetric positive semi-definite; inputs of the wrong shape are refused.",
  ["inputs", "programs"], "all kernels, kernel expressions up to depth 2, pairs of batch shapes and dtypes of the bounded grid",
  "tests check each kernel on random float inputs against the kernel itself in another form; broadcasting, repeated points and dtypes are not covered",
  ["randprocs/covfuncs/_covariance_function.py", "randprocs/covfuncs/_covariance_linear_operator.py", "randprocs/covfuncs/_matern.py", "randprocs/covfuncs/_product_matern.py",
   "randprocs/covfuncs/_arithmetic_fallbacks.py", "randprocs/covfuncs/_exponentiated_quadratic.py", "randprocs/covfuncs/_white_noise.py"],
  [("broadcasting and layout of evaluations", "randprocs/covfuncs/_covariance_function.py"), ("kernel formulas", "randprocs/covfuncs")],
  "all kernel expressions x batch-shape pairs x dtypes against the scalar formula", "bounded: input dims <= 3, batches <= 6 points, expression depth 2")
p("C09", "Random processes evaluate to the joint law of their mean and covariance function",
  "Sums, differences and multiples of functions evaluate pointwise for every batch of inputs. A Gaussian process evaluated at any array of points is the Gaussian whose mean and covariance entries are its "
  "mean and covariance function at those points, for scalar and vector outputs; variances, standard deviations and samples describe that same law.",
  ["programs", "inputs"], "all function expressions up to depth 3; all processes of the catalogue at all argument shapes",
  "tests check types and shapes of evaluations on random inputs, never the joint covariance of multi-output evaluations or the law of samples",
  ["functions/_function.py", "functions/_algebra.py", "functions/_algebra_fallbacks.py", "randprocs/_random_process.py", "randprocs/_gaussian_process.py"],
  [("function arithmetic dispatch", "functions/_algebra.py"), ("finite-dimensional evaluation", "randprocs/_gaussian_process.py")],
  "all function expressions and all processes x argument shapes; scripted samplers", "bounded: <= 6 points, outputs <= 3, expression depth <= 3")
p("C10", "Markov transitions are exact Gaussian inference",
  "The forward pass of a linear Markov transition (discrete, continuous, integrator, any implementation choice) maps a Gaussian or a realization to exactly the Gaussian that the model's matrices and noise prescribe, "
  "with the matching cross-covariance and gain; the backward pass is exact Gaussian conditioning. Implementation choice, precomputed factors and optional hints (gain, forwarded variable) never change the result, and the diffusion scales exactly the noise covariance.",
  ["configurations", "inputs"], "all transition classes x implementations x variable representations x steps x diffusions x hint combinations of the bounded grid",
  "tests compare implementations pairwise on one random system with default hints; the combinations and the oracle itself are not covered",
  ["randprocs/markov/discrete/_linear_gaussian.py", "randprocs/markov/discrete/_lti_gaussian.py", "randprocs/markov/discrete/_nonlinear_gaussian.py", "randprocs/markov/continuous/_linear_sde.py", "randprocs/markov/continuous/_lti_sde.py",
   "randprocs/markov/integrator/_iwp.py", "randprocs/markov/integrator/_ioup.py", "randprocs/markov/integrator/_matern.py", "utils/linalg/_cholesky_updates.py"],
  [("forward/backward implementations", "randprocs/markov/discrete/_linear_gaussian.py"), ("preconditioned integrators", "randprocs/markov/integrator"), ("discretisation", "randprocs/markov/continuous/_lti_sde.py")],
  "complete product of transition configurations and inputs against closed-form conditioning", "bounded: dims <= 6, two steps, three diffusions")
p("C11", "Markov processes are consistent over time grids and sample their joint law",
  "Propagating a state through any partition of an interval equals propagating it in one step. Samples of a Markov process at any increasing locations have exactly the joint law of the process, for any requested size, and "
  "smoothing a list of filtering distributions and sampling jointly backwards give exactly the smoothing law. Artificial measurements have the joint law of states and observations.",
  ["schedules", "histories"], "all partitions of a 5-cell grid; all subsets of a 5-point grid as sampling locations; all unit scripts of the random environment",
  "tests only look at sample shapes; correlations across time are invisible in single draws",
  ["randprocs/markov/_markov.py", "randprocs/markov/_transition.py", "randprocs/markov/integrator", "randprocs/markov/continuous/_lti_sde.py", "randprocs/markov/utils/_generate_measurements.py"],
  [("joint sampling and smoothing lists", "randprocs/markov/_transition.py"), ("sampling entry point", "randprocs/markov/_markov.py")],
  "all grid partitions and location subsets; samplers under all unit scripts", "bounded: dims <= 4, grids <= 5 points")
p("C12", "Kalman filtering and smoothing equal batch Gaussian conditioning",
  "For every linear Gaussian state-space model, filtering and smoothing return, at every location, exactly the Gaussian obtained by conditioning the joint law of all states and observations at once, "
  "whatever the implementation choices of the transitions, the observation grid and the observed components. Wrong configurations (unordered locations, mismatching observations or model counts) are refused.",
  ["histories", "configurations"], "all models of the catalogue x all location patterns x observation histories up to length 4, both entry points",
  "tests check that errors shrink on one simulated trajectory; they never compare with the exact posterior",
  ["filtsmooth/gaussian/_kalman.py", "filtsmooth/gaussian/_kalmanposterior.py", "filtsmooth/_kalman_filter_smoother.py", "randprocs/markov/_transition.py"],
  [("filter and smoother recursion", "filtsmooth/gaussian/_kalman.py"), ("user-level interface", "filtsmooth/_kalman_filter_smoother.py")],
  "all observation histories of the bounded models against batch conditioning", "bounded: <= 4 observations, state dims <= 4")
p("C13", "Filtering and smoothing posteriors are one law over time",
  "A posterior evaluated at any time (on, between, before or after the grid) is the exact marginal of the process given the data it is conditioned on, for constant and piecewise-constant diffusions. "
  "Samples at any set of locations have exactly the joint posterior law. Building a posterior by appending leaves everything already recorded unchanged, and a frozen posterior accepts nothing more.",
  ["histories", "schedules"], "all query positions relative to all grids, all subsets of a query grid for sampling, all append/freeze histories up to the bound",
  "tests evaluate posteriors at a few points and look at sample shapes; the joint law and the time convention of diffusions are invisible there",
  ["filtsmooth/_timeseriesposterior.py", "filtsmooth/gaussian/_kalmanposterior.py", "randprocs/markov/continuous/_diffusions.py"],
  [("interpolation and extrapolation", "filtsmooth/gaussian/_kalmanposterior.py"), ("piecewise diffusion lookup", "randprocs/markov/continuous/_diffusions.py")],
  "all query positions, sampling subsets (unit scripts) and append histories", "bounded: <= 4 grid points, <= 4 query points")
p("C14", "Approximate filters do what their approximation prescribes",
  "Extended and unscented filters of nonlinear models return exactly the Gaussian prescribed by linearising (or by the sigma points) at the documented point, coincide with exact inference on affine models, and iterated filters and smoothers "
  "re-linearise at the previous estimate, stop exactly by their stopping criterion and reach stationary points. Merged regression problems contain all data in time order.",
  ["inputs", "histories"], "all models of the catalogue x representations x hints; all convergence histories of the stopping criterion up to the bound",
  "tests check dimensions and error reduction on the pendulum; the formula actually evaluated is not compared with anything",
  ["filtsmooth/gaussian/approx/_extendedkalman.py", "filtsmooth/gaussian/approx/_unscentedkalman.py", "filtsmooth/optim/_gauss_newton.py", "filtsmooth/optim/_state_space_optimizer.py",
   "filtsmooth/optim/_stopping_criterion.py", "filtsmooth/optim/_iterated_component.py", "problems/zoo/filtsmooth", "filtsmooth/utils/_merge_regression_problems.py"],
  [("linearisations", "filtsmooth/gaussian/approx"), ("iteration and stopping", "filtsmooth/optim")],
  "complete configuration product and all convergence histories", "bounded: dims <= 3, <= 4 iterations per history")
p("C15", "Particle filters follow importance-resampling exactly",
  "At every step the particle weights are the normalised product of the previous weights with the observation likelihood (for any proposal, corrected by the proposal density), resampling happens exactly when the effective number of events falls below the given share, "
  "resampled particles keep their multiplicities and restart with equal weights, and observations far from all particles still give finite weights. The particles follow the law of the proposal.",
  ["schedules", "inputs"], "all scripts of the random environment (particle picks and Gaussian draws) over the bounded observation histories",
  "tests compare seeded errors with the Kalman filter; weight recursion and resampling decisions are random there",
  ["filtsmooth/particle/_particle_filter.py", "filtsmooth/particle/_importance_distributions.py", "filtsmooth/particle/_particle_filter_posterior.py"],
  [("weights and resampling", "filtsmooth/particle/_particle_filter.py"), ("proposals", "filtsmooth/particle/_importance_distributions.py")],
  "exhaustive scripting of the random environment over observation histories", "bounded: <= 3 particles, <= 3 steps")
p("C16", "ODE solvers step exactly through the time domain",
  "For every sequence of accepted and rejected steps, an ODE solver starts at t0, retries rejected steps from the unchanged state with the suggested smaller step, never passes tmax and ends there, "
  "and has every requested stop inside the domain among its locations. Callbacks are applied in order exactly once per accepted step and the solver continues from the state they return. "
  "Adaptive steps are accepted exactly if the scaled error is below one, follow the documented proportional control within its limits, and tolerances hold for states of either sign.",
  ["schedules", "histories"], "all accept/reject/suggestion sequences up to the depth bound x first steps x stop sets x callbacks; all real solvers x stop sets",
  "tests run a few solvers with one well-spaced list of stops; which attempts are rejected depends on the problem",
  ["diffeq/_odesolver.py", "diffeq/stepsize/_steprule.py", "diffeq/stepsize/_propose_firststep.py", "diffeq/callbacks/_discrete_callback.py", "diffeq/_utils.py"],
  [("step loop and stops", "diffeq/_odesolver.py"), ("step-size control", "diffeq/stepsize/_steprule.py")],
  "all decision sequences on a recording solver against a reference machine", "bounded: 4 (6 thorough) scripted decisions, 13 stop sets")
p("C17", "ODE filter solutions are the Gaussian posterior of their linearised ODE",
  "The solution of an ODE filter (any supported prior, linearisation, diffusion model, initialisation and step pattern) equals, at and between all locations, the Gaussian process posterior given the linearised ODE residuals at the locations, "
  "with the diffusion calibrated by quasi maximum likelihood globally or per step; filtering solution, derivatives, error estimates, dense output and joint samples all describe that law. "
  "Initial distributions, information operators and regression problems derived from an initial value problem represent that problem.",
  ["configurations", "inputs"], "all ODEs, priors, linearisations, diffusion models, initialisations and step patterns of the bounded catalogue; all stop subsets; all unit scripts of the samplers",
  "tests check that errors are small and types are right; covariances, time arguments of non-autonomous ODEs and calibration are not compared with anything",
  ["diffeq/odefilter/_odefilter.py", "diffeq/odefilter/_odefilter_solution.py", "diffeq/odefilter/approx_strategies/_ek.py", "diffeq/odefilter/information_operators", "diffeq/odefilter/init_routines", "diffeq/odefilter/utils/_problem_utils.py", "diffeq/_probsolve_ivp.py", "randprocs/markov/continuous/_diffusions.py"],
  [("filter step and calibration", "diffeq/odefilter/_odefilter.py"), ("residual and linearisation", "diffeq/odefilter/information_operators/_ode_residual.py")],
  "complete configuration product against batch Gaussian conditioning; scripted samplers", "bounded: ODE dims <= 2, <= 3 derivatives, <= 12 steps")
p("C18", "Perturbed ODE solvers are Runge-Kutta with scaled steps",
  "The states, error estimates and dense output of the wrapped and perturbed Runge-Kutta solvers are those of the Butcher tableau with the recorded, randomly scaled steps, also after rejected steps, at requested stops and after callbacks. "
  "Perturbed steps follow the uniform or log-normal law around the proposed step, the solve is reproducible from its generator and zero noise gives the unperturbed method.",
  ["schedules", "inputs"], "all perturbation scripts over {0.6, 1, 1.5}^4 x methods x ODEs x step patterns; all scripted draws of the perturbation laws",
  "tests check that a perturbed solution is close to the deterministic one; rejected attempts and their side effects never occur there",
  ["diffeq/perturbed/step/_perturbedstepsolver.py", "diffeq/perturbed/step/_perturbedstepsolution.py", "diffeq/perturbed/step/_perturbation_functions.py", "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py", "diffeq/_perturbsolve_ivp.py"],
  [("perturbed steps", "diffeq/perturbed/step/_perturbedstepsolver.py"), ("wrapped Runge-Kutta step", "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py")],
  "all perturbation scripts and step patterns against the Butcher tableau", "bounded: <= 4 scripted perturbations")
p("C19", "Kernel embeddings are the integrals of the kernel, measures what they claim",
  "For every supported kernel and integration measure, the kernel mean at every point is the integral of the kernel against the measure and the kernel variance is the double integral (zero is never returned by accident, normalised measures have mass one). "
  "Unsupported combinations are refused. Domains can be written in every documented way and mean the same box; densities integrate to the mass of the measure and samples are the image of the underlying draws and lie in the domain.",
  ["configurations", "inputs"], "all supported kernel families, smoothnesses, lengthscales, dimensions 1-3, measures and evaluation points of the catalogue; all unit scripts of the samplers",
  "tests compare single points with a loose Monte Carlo or trapezoidal estimate, and only for the unit parameters",
  ["quad/kernel_embeddings/_kernel_embedding.py", "quad/kernel_embeddings/_expquad_gauss.py", "quad/kernel_embeddings/_expquad_lebesgue.py", "quad/kernel_embeddings/_matern_lebesgue.py", "quad/integration_measures/_gaussian_measure.py", "quad/integration_measures/_lebesgue_measure.py", "quad/integration_measures/_integration_measure.py", "quad/_utils.py"],
  [("embedding dispatch", "quad/kernel_embeddings/_kernel_embedding.py"), ("Matern embedding", "quad/kernel_embeddings/_matern_lebesgue.py")],
  "complete kernel x measure x point product against tensor Gauss quadrature of the kernel; scripted samplers", "bounded: dimension <= 3; Matern means at points in the domain")
p("C20", "The belief of Bayesian quadrature is the exact conditional of the integral",
  "In every order and in every split of the same function values into batches, the integral belief, the estimated scale, the Gram matrix and the whole history of beliefs are those of Gaussian conditioning on all data at once. "
  "Integrand predictions and acquisition functions have the posterior values of that Gaussian process; Bayesian quadrature from given data and multilevel Bayesian quadrature agree with it, and multilevel results add up the levels.",
  ["histories", "inputs"], "all permutations and all consecutive batch splits of 4 (5) nodes x kernels x measures x scale estimation x jitter; all acquisition functions in all reached states",
  "tests add data in one order and compare only shapes and signs of the belief",
  ["quad/solvers/belief_updates/_belief_update.py", "quad/solvers/_bq_state.py", "quad/solvers/_bayesian_quadrature.py", "quad/solvers/acquisition_functions", "quad/_bayesquad.py"],
  [("belief update", "quad/solvers/belief_updates/_belief_update.py"), ("state append", "quad/solvers/_bq_state.py")],
  "all data orders and batch splits of the real update against dense conditioning", "bounded: <= 5 nodes")
p("C21", "The Bayesian quadrature loop evaluates and stops exactly as specified",
  "The integrand is evaluated exactly at the nodes of the state, once each and in batches of the configured size, after the initial design and given data. Iterations end exactly at the first state in which the stopping criterion holds; "
  "combined criteria are the boolean combination of their parts evaluated on that state. Nodes are those the policy defines (van der Corput sequence, samples of the measure, optimisers of the acquisition function within the domain); initial designs have the documented structure; equal generators give equal runs.",
  ["schedules", "inputs", "histories"], "all combinations of policy, batch size, stopping options, design and initial data of the catalogue; all boolean expressions over criteria up to the depth bound; all scripted draws; all sizes of designs and sequences up to the bound",
  "tests run a few default configurations until they stop; wrong stops, duplicate evaluations and wrong nodes still give an integral near the truth",
  ["quad/solvers/_bayesian_quadrature.py", "quad/solvers/policies", "quad/solvers/stopping_criteria", "quad/solvers/initial_designs", "quad/solvers/_bq_state.py", "quad/_bayesquad.py", "_pnmethod/_stopping_criterion.py"],
  [("iterator", "quad/solvers/_bayesian_quadrature.py"), ("criteria", "quad/solvers/stopping_criteria")],
  "complete option product with the loop's trace replayed against a reference machine; exhaustive boolean expressions; scripted draws", "bounded: <= 40 evaluations, expression depth 2-3")
p("C22", "Probabilistic linear solver beliefs are exact conditionals on all observations",
  "After every sequence of actions, the belief over the solution, the matrix and its inverse of the composable probabilistic linear solvers equals dense Gaussian conditioning of the prior on all observations (with noise if assumed), independent of matrix type and of how the prior is written. "
  "Residual, actions, observations and step count in the state are the true ones; conjugate-gradient actions are conjugate to the previous ones they are to be orthogonalised against, unit-vector policies draw with the stated weights; stopping criteria decide exactly as documented.",
  ["histories", "inputs"], "all action sequences over the alphabet up to depth 3 (4) x solver family x system x matrix type x prior; all reorthogonalisation variants; all scripted draws",
  "tests check one update for shape and consistency, and that solvers converge",
  ["linalg/solvers/_probabilistic_linear_solver.py", "linalg/solvers/_state.py", "linalg/solvers/beliefs/_linear_system_belief.py", "linalg/solvers/belief_updates", "linalg/solvers/policies", "linalg/solvers/information_ops", "linalg/solvers/stopping_criteria", "utils/linalg/_orthogonalize.py"],
  [("solution based update", "linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py"), ("symmetric update", "linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py"), ("solver state", "linalg/solvers/_state.py")],
  "exhaustive action sequences on the real solver objects against dense conditioning", "bounded: order <= 4, depth <= 4")
p("C23", "problinsolve returns the symmetric Gaussian conditional and truthful info",
  "For every symmetric positive definite system, matrix and prior type, every iterate handed to the callback and the returned posterior over solution, matrix and inverse are the batch conditional of the symmetric matrix-variate Gaussian prior given all actions and observations, uncertainty calibrated as requested. "
  "The iteration count, residual norms, trace of the solution covariance and convergence criterion in info are the true ones, iterations never exceed maxiter, several right-hand sides are solved each, and invalid systems are refused.",
  ["inputs", "histories"], "all systems, matrix types, right-hand sides, priors, calibrations, tolerances and iteration limits of the catalogue; every iteration of each run",
  "tests compare the posterior mean with the solution; posterior covariances, iterates and info are hardly looked at",
  ["linalg/_problinsolve.py", "linalg/solvers/matrixbased.py", "linalg/_bayescg.py"],
  [("symmetric updates", "linalg/solvers/matrixbased.py"), ("argument preparation", "linalg/_problinsolve.py")],
  "complete configuration product; each callback state compared with batch conditioning", "bounded: order <= 4")
p("C24", "Shared building blocks: configuration, functions, random-variable lists, factors",
  "Configuration options set in a context are in force exactly inside it and restored when it is left, normally or by exception, in every nesting; unknown options are refused without side effects. Expressions of functions evaluate pointwise to the expression of their values for every batch shape. "
  "Statistics of a list of random variables are those of its current elements. Updated Cholesky factors and triangularised factors reproduce the sum of the matrices with a non-negative diagonal. Arguments are normalised to equal values for each way of writing them, or refused.",
  ["histories", "inputs"], "all programs of configuration operations up to depth 5 (6); all function expression trees over the alphabet to depth 2; all histories of list operations up to depth 3 (4); all shapes and ranks of factor updates; all kinds of arguments of the catalogue",
  "tests exercise one context and one operation at a time",
  ["_config.py", "functions/_function.py", "functions/_algebra.py", "functions/_algebra_fallbacks.py", "randvars/_randomvariablelist.py", "utils/linalg/_cholesky_updates.py", "utils/argutils.py", "randvars/_utils.py", "linops/_utils.py"],
  [("configuration context", "_config.py"), ("function algebra", "functions/_algebra.py"), ("Cholesky update", "utils/linalg/_cholesky_updates.py")],
  "exhaustive operation sequences of the real objects against reference machines", "bounded depths and shapes; one thread")
p("C25", "Zoo problems are what they are documented to be and stored solutions solve them",
  "Vector fields, Jacobians and Hessians of the ODE problems agree with the documented equations and with each other, stored solutions satisfy the ODE and the initial value. Stored integrals are the integrals of the integrand against the measure, also after the transform to Gaussian measures. "
  "Time-series problems carry the documented transition, observation and initial models, data drawn from them on the requested grid, reproducibly; random matrices have the requested spectrum and structure and random linear systems are solved by their stored solution. Parameters of the wrong kind are refused.",
  ["inputs", "configurations"], "all problems x all parameter combinations of the catalogue",
  "tests check types and shapes of problems, one parameter setting each",
  ["problems/_problems.py", "problems/zoo/diffeq/_ivp_examples.py", "problems/zoo/quad", "problems/zoo/filtsmooth/_filtsmooth_problems.py", "problems/zoo/linalg"],
  [("ODE problems", "problems/zoo/diffeq/_ivp_examples.py"), ("uniform quadrature problems", "problems/zoo/quad/_quadproblems_uniform.py")],
  "complete parameter product against finite differences, high-order quadrature and documented models", "bounded: dimension <= 3")
