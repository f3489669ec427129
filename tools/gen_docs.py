#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "bayesian_sde_solver/"
FO, IT, SD = P + "foster_polynomial.py", P + "ito_stratonovich.py", P + "sde_solver.py"
OD, PN, SC, SSM, UT = P + "ode_solvers/", P + "ode_solvers/probnum/", P + "sde_solvers/", P + "ssm_parabola/", P + "utils/"
I, C, H = "inputs", "configurations", "histories"

# id, title, statement, over, text, why, files, mechanisms [(name, where)], technique, note
T = [
 ("C01", "The polynomial replacing a Brownian path on a step is the Brownian parabola",
  "On a step of length delta the approximation of the driving path starts at 0, ends at the Brownian increment, is quadratic in time in every component, and encloses the area fixed by its second coefficient. This holds for each way of drawing the coefficients, every step length, dimension and key.",
  [I, C], "all keys, step lengths (28 octaves), dimensions, coefficient values and times, the three coefficient families",
  "tests draw a few keys at one or two step lengths and look at moments only; the shape is never checked at other times or lengths",
  [FO], [("evaluation of the parabola", FO + ": eval_fn of the three families"), ("coefficient draws", FO + ": get_coeffs")],
  "property-based testing: closed-form and finite-difference invariants of the evaluated polynomial"),
 ("C02", "Coarse coefficients agree with the fine Brownian path they are drawn with",
  "When the coefficients of a step come together with a finer Brownian path, the increment is the end point of that path and the parabola has the same time integral as the fine path (piecewise linear, respectively piecewise parabolic). This holds for every number of fine pieces, step length, dimension and key.",
  [I, C], "all keys, step lengths, dimensions, numbers of fine pieces from 1 up",
  "tests use one fine resolution and compare moments with a tolerance larger than the mismatch",
  [FO], [("aggregation of fine increments", FO + ": get_approx_and_brownian, get_approx_fine")],
  "property-based testing: exact integration of the returned fine path in numpy as oracle"),
 ("C03", "Parabola coefficients have the law of Brownian motion at every scale",
  "Increments are N(0, delta), second coefficients N(0, delta/2), independent of each other and across components, jointly with the returned fine path as Brownian motion prescribes. With the same key, changing the step length only rescales the coefficients by the square root of the ratio.",
  [I, C], "all step lengths, dimensions and fine resolutions (law over keys, scaling for every key)",
  "tests check a variance at one step length with one decimal; cross-covariances, dimensions and scales are not looked at",
  [FO], [("Gaussian draws", FO + ": get_coeffs"), ("combination of fine coefficients", FO + ": get_approx_fine")],
  "property-based testing: generated configurations with joint moment and normality tests over 20000 keys; metamorphic Brownian scaling"),
 ("C04", "Ito and Stratonovich conversions are exact and inverse to each other",
  "Converting a drift between Ito and Stratonovich form changes it by exactly half the sum of directional derivatives of the diffusion columns along themselves, leaves the diffusion unchanged, and the two conversions undo each other. This holds for every smooth state- and time-dependent drift and rectangular diffusion, and agrees with Ito's formula under changes of variable.",
  [I, C], "all smooth fields, states, times and diffusion shapes",
  "tests compare one scalar and one diagonal example",
  [IT], [("correction term by automatic differentiation", IT + ": to_stratonovich, to_ito")],
  "property-based testing: analytic derivatives as oracle, round-trip, chain-rule metamorphic relation"),
 ("C05", "A path is the composition of ODE solves driven by each step's own parabola",
  "On the k-th step the solver integrates, with the given ODE method, the drift plus diffusion times the slope of that step's parabola, with absolute time passed to drift and diffusion, starting from the previous value. The returned times, trajectory (initial value first) and coefficients are consistent with each other for every number of steps, dimension, ODE method and composite state.",
  [I, C], "all drifts and diffusions, step lengths, numbers of steps, coefficient families, step methods, composite states",
  "tests check end-of-path moments of a few autonomous equations at tolerances of 10%",
  [SD], [("scan over steps", SD + ": body"), ("initial value insertion", UT + "insert.py")],
  "property-based testing: numpy reference model replaying each step from the returned coefficients"),
 ("C06", "Every step and purpose gets fresh randomness; equal keys give equal results",
  "All random numbers used along a path (path coefficients of each step, sampling of the solver's posterior, increments of the classical schemes) are mutually independent, and determined by the caller's key. Two different keys give different paths; the sampling noise never changes or repeats the driving path.",
  [I, C, H], "all keys, numbers of steps, dimensions, solvers",
  "a reused or shared key leaves every single-step moment intact, so moment tests pass",
  [SD, SSM + "ssm_parabola_ode.py", SC + "euler_maruyama.py", SC + "diag_15_scheme.py", FO],
  [("key splitting", SD + ": body; " + SSM + "ssm_parabola_ode.py: body"), ("key splitting in the draws", FO)],
  "property-based testing: key-recording step solvers, joint independence tests over thousands of generated paths"),
 ("C07", "Simulated paths follow the Ito solution along the Brownian path they report",
  "With the drift converted to Stratonovich form, the path solver returns the solution of the Ito equation driven by the very Brownian motion it reports: exactly on the grid where the solution is a function of the increments, and with strong order one in general with every provided ODE solver and one inner step.",
  [I, C], "all equations of the generated classes, keys, step lengths, solvers",
  "tests look at moments (weak error) of gbm-like equations; the pathwise error and its rate are only in the scripts",
  [SD, IT, FO, OD], [("parabola-driven ODE", SD), ("conversion", IT)],
  "property-based testing: equations with known pathwise solutions (transformed Brownian motion, linear additive), generated; error-rate oracle"),
 ("C08", "Public operations are pure functions of their arguments",
  "Calling any solver, sampler or prior again with the same arguments gives the same result, whatever was called in between; no argument is modified; deterministic results are the same eagerly, compiled and vectorised.",
  [I, H, C], "all sequences of calls, argument values, execution modes",
  "tests call each function once, mostly compiled, and never look at the arguments afterwards",
  [P], [("functional style without hidden state", "all modules")],
  "property-based testing: differential execution modes and generated call histories with argument snapshots"),
 ("C09", "The Euler ODE solver is the explicit Euler recursion on its grid",
  "With step h and N steps the solver returns the N-th iterate of x + h f(x, t) with t = 0, h, 2h, ... A run can be cut at any step and resumed with the time shifted, and the error against the exact solution is of first order.",
  [I, C], "all fields, steps, numbers of steps",
  "tests integrate one linear autonomous equation",
  [OD + "euler.py"], [("fori/scan recursion", OD + "euler.py: solver")],
  "property-based testing: numpy recursion oracle, splitting metamorphic relation, convergence rate"),
 ("C10", "Probabilistic ODE solvers converge to the solution at their order",
  "For smooth problems, priors and settings offered by the package, the mean of each Gaussian filtering ODE solver converges to the exact solution with at least the order of its prior (number of derivatives plus one for an exactly initialised integrated prior). When the field depends on time only and its integral is a polynomial the prior can represent, the mean is exact.",
  [I, C], "all smooth fields, priors, square-root settings, step lengths",
  "tests compare one or two linear problems at one step length",
  [OD], [("filter", PN + "ekf.py"), ("wrappers", OD + "ekf0.py, ekf1.py, ekf0_2.py, ekf1_2.py")],
  "property-based testing: Runge-Kutta reference, error ratio under step refinement, polynomial exactness"),
 ("C11", "The integrated Brownian / Ornstein-Uhlenbeck prior is the exact transition",
  "The returned transition matrix and covariance of the q-times integrated process are the exact ones of its linear stochastic equation for any step, scale, order and dimension (leading order for a mean-reverting process), independent across coordinates, and two successive steps compose to one.",
  [I, C], "all orders, dimensions, steps over 16 octaves, scales, mean reversions",
  "tests only use the prior inside a filter with order 1",
  [PN + "IOUP.py"], [("closed form", PN + "IOUP.py: transition_function")],
  "property-based testing: matrix-exponential oracle and semigroup relation"),
 ("C12", "The Matern prior is the transition of the Matern process",
  "The transition matrix is the exponential of the process's companion matrix and the covariance its exact integral, for half-integer smoothness, magnitude, length scale and step, in closed form or by numerical integration alike; stationarity gives the Matern correlation function, coordinates are independent, and covariances stay accurate and positive for small and large steps.",
  [I, C], "smoothness 1/2 to 7/2, magnitudes, length scales, steps over 15 octaves",
  "no test touches this prior",
  [PN + "matern.py", PN + "transition_function.py"], [("closed form for 3/2", PN + "matern.py"), ("numerical integration", PN + "transition_function.py")],
  "property-based testing: matrix exponentials, Gauss-Legendre quadrature and Bessel-function correlation as oracles"),
 ("C13", "Generic priors, padding and products of priors are assembled correctly",
  "For any linear time-invariant prior the computed increment, covariance and matrix are those of its exact transition (to quadrature accuracy) and compose over steps; padding appends inert states and a product of priors acts on each coordinate with its own prior and no coupling.",
  [I, C], "all drift matrices, inputs, dispersions, steps, padding sizes, numbers of factors",
  "no test touches these helpers",
  [PN + "transition_function.py", PN + "_utils.py"], [("matrix exponential and quadrature", PN + "transition_function.py"), ("padding, block diagonal", PN + "_utils.py")],
  "property-based testing: block matrix exponentials, entrywise reference"),
 ("C14", "Interlacing keeps every entry and its place",
  "Interlacing blocks of position, velocity and further derivatives puts entry i of block j at place i times the number of blocks plus j, for vectors and consistently for the matrices of their covariances, for any number and size of blocks.",
  [I, C], "all numbers and sizes of blocks, all values",
  "only exercised through one or two dimensional filters",
  [PN + "_utils.py"], [("interlace, interlace_matrix", PN + "_utils.py")],
  "property-based testing: entrywise reference and vector/matrix consistency"),
 ("C15", "The Kalman filter computes Gaussian conditionals",
  "One filter pass returns the conditional mean and covariance of the state given all (linearised) observations, together with the innovation and its covariance, with or without square roots, for covariances of any rank and any zero or regular noise.",
  [I, C], "all transition, observation and noise matrices, covariance ranks, magnitudes, numbers of steps",
  "the two tests of the filter are outdated and fail on the base tree; others see it through moments only",
  [PN + "ekf.py"], [("predict, update", PN + "ekf.py"), ("square roots by triangularisation", PN + "ekf.py")],
  "property-based testing: batch Gaussian conditioning and a numpy extended Kalman filter as oracles"),
 ("C16", "The square-root option changes the arithmetic, not the results",
  "Every solver returns the same means, covariances and innovations with the square-root option on and off, for every prior, noise and (possibly singular) initial covariance, also after many chained steps.",
  [I, C, H], "all solvers, priors, noises, covariance ranks, chains of steps",
  "tests fix the option per test and compare moments at 10%",
  [PN + "ekf.py", PN + "_utils.py", OD, SSM], [("square roots of covariances", PN + "_utils.py: psd_sqrt"), ("conversion of results", OD + "*_2.py")],
  "property-based testing: differential testing of the two arithmetic modes"),
 ("C17", "Filters restarted with exact initial derivatives match the reference filter",
  "Each call starts from the exact state and its derivatives along the field (value, field, total time derivative), with the initial and process covariance, observation noise and linearisation the method prescribes, and returns the resulting position; for all numbers of states, coordinates, steps, priors and noises.",
  [I, C], "fields, states, 2-5 states per coordinate, 1-3 coordinates, priors (also arbitrary), noises, steps",
  "tests use the first-order integrated prior on one or two problems",
  [OD + "ekf.py", OD + "ekf0.py", OD + "ekf1.py"], [("initialisation", OD + "ekf.py: _solver"), ("Jacobian or none", OD + "ekf.py")],
  "property-based testing: independent numpy filter with analytic Jacobians as reference model"),
 ("C18", "With a key solvers sample their posterior; without one they return its mean",
  "Results drawn with a key are Gaussian with exactly the posterior mean and covariance of the filter, jointly over positions and returned Brownian coefficients; without a key the result is the posterior mean.",
  [I, C], "six solvers, priors, noises, square-root settings, problems; law over keys",
  "tests cannot separate sampling covariance from discretisation error at their tolerances",
  [OD, SSM], [("sampling", OD + "ekf0.py, ekf1.py, ekf0_2.py, ekf1_2.py; " + SSM + "ekf0.py, ekf1.py")],
  "property-based testing: generated configurations, moment/normality tests against the reference posterior"),
 ("C19", "Filters that carry their posterior propagate mean and covariance correctly",
  "Given a Gaussian incoming state, the solver returns the mean and covariance of the outgoing state under the linearised dynamics, independent of the random sample that is carried beside it, along any number of steps of the path solver.",
  [I, C, H], "fields, incoming means and covariances of any rank, priors, noises, chains of steps",
  "no stable test checks the carried covariance",
  [OD + "ekf0_2.py", OD + "ekf1_2.py", OD + "ekf.py"], [("joint initial law of position and velocity", OD + "ekf0_2.py, ekf1_2.py"), ("carried tuple", SD)],
  "property-based testing: independent numpy filter, path recomputation from returned coefficients"),
 ("C20", "The estimated prior scale is the maximum-likelihood scale",
  "The calibration returns the mean squared innovation in units of its covariance, maximises the Gaussian likelihood, and recovers a known scale; rescaling the prior leaves filter means unchanged and rescales covariances and the estimate accordingly.",
  [I, C], "all innovations, covariances, dimensions, scales",
  "no test covers calibration",
  [PN + "calibration.py", OD + "ekf.py"], [("quasi maximum likelihood", PN + "calibration.py")],
  "property-based testing: likelihood maximisation, metamorphic rescaling and change of basis"),
 ("C21", "Euler-Maruyama follows its recursion on the given or drawn increments",
  "The trajectory satisfies x + h f(x, t) + S(x, t) dW on the grid 0, h, ..., N h, for rectangular time-dependent diffusions, whether increments are given (scaled or standard normal) or drawn; given increments are not changed, and drawn ones are independent N(0, h).",
  [I, C], "all fields, shapes, steps, numbers of steps, increments, keys",
  "tests use gbm moments and one integrated Brownian path",
  [SC + "euler_maruyama.py"], [("recursions", SC + "euler_maruyama.py")],
  "property-based testing: numpy recursion oracle on recovered increments, law tests"),
 ("C22", "The scheme for diagonal noise is the order 1.5 strong Taylor scheme",
  "For componentwise multiplicative noise each step is the strong order 1.5 Ito-Taylor step (with drift and noise derivative terms) in the Brownian increment and its time integral, which have their exact joint law; the pathwise error on equations with a known solution decreases with order 1.5.",
  [I, C], "all smooth drifts and componentwise noises, steps, keys, dimensions",
  "tests check first moments of one equation with two decimals, so multiplicative-noise terms are invisible",
  [SC + "diag_15_scheme.py"], [("Taylor terms by automatic differentiation", SC + "diag_15_scheme.py: body")],
  "property-based testing: Kloeden-Platen recursion with analytic derivatives on draws recovered with the same key; error-rate oracle"),
 ("C23", "The hypoelliptic scheme has the prescribed mean and degenerate noise",
  "For an equation whose first coordinate is noise-free, each step adds to the second-order Taylor mean a centred Gaussian in which the smooth coordinate carries the leading-order time integral of the rough noise (covariances in h^3/3, h^2/2 and h), evaluated at the current state and independent across steps.",
  [I, C], "all drifts with a driven smooth coordinate, non-degenerate rough noises, steps, keys, dimensions 2-3",
  "tests check covariances with two decimals at steps where several entries are below the tolerance",
  [SC + "hypoelliptic_diffusion__diag_15_scheme.py"], [("mean and covariance of a step", SC + "hypoelliptic_diffusion__diag_15_scheme.py: body")],
  "property-based testing: numpy recursion on recovered noise, whitened residual and law tests"),
 ("C24", "The filter with Brownian coefficients in its state matches the reference filter",
  "One step of the marginalised method conditions the joint Gaussian of position, velocity, Brownian increment and second coefficient on the random ODE, with the prescribed joint initial law and parabola slope, for drift and diffusion depending on state and time, both linearisations, any prior of one derivative and any noise. Without diffusion it is the plain ODE filter and the coefficients keep their law.",
  [I, C], "drifts, square diffusions, states, steps, priors, noises, inner steps",
  "tests compare end-of-path moments of three linear equations at 10%",
  [SSM], [("joint initial covariance", SSM + "ekf.py: _solver"), ("observation of the random ODE", SSM + "ekf.py: extended_vector_field")],
  "property-based testing: independent numpy filter with analytic Jacobians, reduction to the ODE filter"),
 ("C25", "Marginalised-parabola paths compose one-step filters over the time grid",
  "The path solver calls the step method once per step with its own key, the step length, and drift and diffusion shifted to the step's start time, starting from the previous position, and returns the time grid and the positions, initial value first. For linear equations the grid values have the joint Gaussian law this implies.",
  [I, C, H], "fields, numbers of steps, step methods, keys",
  "tests use autonomous equations and end-point moments",
  [SSM + "ssm_parabola_ode.py"], [("scan over steps", SSM + "ssm_parabola_ode.py: body")],
  "property-based testing: probing step solvers against a numpy loop; exact joint law for generated linear equations"),
 ("C26", "The equation catalogue and the moments it declares are right",
  "Each predefined problem returns the drift, diffusion and initial value of its equation at every state and time, square versions have the same law as the originals, declared exact moments are exact, and moments declared up to an order agree with the true ones up to that order; random linear problems are linear, time-independent and have standard normal entries determined by the key.",
  [I, C], "all states and times, problems, keys and dimensions of the random problems",
  "tests use the declared moments as truth, at one small time and coarse tolerances",
  [UT + "ivp.py"], [("definitions and closed forms", UT + "ivp.py")],
  "property-based testing: independent definitions, matrix exponentials, generator expansion and moment equations as oracles"),
 ("C27", "Progress reporting and initial-value insertion never alter results",
  "A loop wrapped with the progress bar returns the same carry and outputs as without, shows one bar per run that counts exactly the number of iterations and is closed at the end, for any number of iterations; inserting the initial value puts it at the requested place of every part of a composite trajectory.",
  [I, C], "numbers of iterations from 1 to thousands (with remainders), carry structures, insert positions",
  "tests never look at the bar and use at most 1000-step loops with no remainder",
  [UT + "progress_bar.py", UT + "insert.py"], [("update every print_rate iterations plus remainder", UT + "progress_bar.py"), ("tuple insertion", UT + "insert.py")],
  "property-based testing: differential run with and without the bar, recorded bar events; numpy insertion oracle"),
 ("C28", "Solvers respect the symmetries of the equations",
  "Solving in permuted, rotated (and where the method is affine-equivariant, arbitrarily transformed) coordinates, or in other units of time or of the state, gives the transformed solution; unrelated systems solved together give what they give apart; and N + M steps are N steps followed by M steps from there at the shifted time.",
  [I, C, H], "all solvers, fields, maps, splits, time units",
  "tests never relate two runs of a solver",
  [OD, SSM, SD, SC + "euler_maruyama.py"], [("structure of the prior (identity Kronecker one-coordinate prior)", OD + "ekf.py; " + SSM + "ekf.py")],
  "property-based testing: metamorphic relations"),
 ("C29", "Results stay accurate in single precision",
  "In the default single precision, filters, priors, parabolas and path solvers give finite results within rounding of the exact ones from very small to very large steps, covariances stay symmetric positive, and clocks do not drift over thousands of steps.",
  [I, C], "solvers, priors, steps 2^-12 to 2^9, square-root settings, noises",
  "tests run in single precision but compare with two decimals at moderate steps",
  [PN, OD, SSM, SD, FO], [("square-root filtering", PN + "ekf.py"), ("cancellation-free closed forms", PN + "matern.py")],
  "property-based testing: double-precision numpy references with rounding-level tolerances"),
 ("C30", "Marginalised-parabola paths converge to the paths of their own parabolas",
  "With additive (possibly time-dependent) noise, each sampled path of the marginalised-parabola method converges, with error proportional to the outer step, to the solution of the equation driven by the piecewise-parabolic path whose coefficients the method returns.",
  [I, C], "drifts, additive diffusions, linearisations, inner steps, square-root settings",
  "tests only look at the weak law of a linear equation at one step size",
  [SSM], [("joint filtering of the state and the parabola's coefficients, then sampling", SSM + "ekf.py")],
  "property-based testing: order of convergence to the random ODE along the returned parabolas"),
 ("C31", "Unsupported shapes are refused, never answered",
  "A filter given an observation noise that is not a matrix of the size of the state, a method for square diffusions (marginalised filters, order 1.5 scheme) given a rectangular one, or a padding to an order that is not higher, fails with an error instead of returning a result, whether or not the arrays would broadcast, eagerly and compiled.",
  [I, C], "solvers, dimensions, wrong shapes (scalars, vectors, singleton dimensions, too large, too many dimensions), with and without compilation",
  "tests never make an invalid call",
  [OD, SSM, SC, PN], [("shape assertions", OD + "ekf.py; " + SSM + "ekf.py; " + SC + "diag_15_scheme.py; " + PN + "transition_function.py")],
  "property-based testing: generated invalid calls, each beside the valid one it differs from"),
 ("C32", "Results have the right derivatives",
  "Differentiating a deterministic result, a simulated path for a given key, a prior, a converted drift, an estimated scale or a parabola with respect to initial values, coefficients of the equation, steps, noises and prior parameters gives the derivative of that very result, in forward and in reverse mode, through the progress bar and with every linearisation, without square roots.",
  [I, C], "solvers, inner solvers, schemes, priors, coefficients, directions, steps",
  "no test differentiates anything",
  [OD, SSM, SC, PN, FO, "bayesian_sde_solver/sde_solver.py", "bayesian_sde_solver/utils/progress_bar.py"], [("linearisation apart from the derivative of the result", OD + "ekf.py; " + SSM + "ekf.py"), ("callbacks under differentiation", "bayesian_sde_solver/utils/progress_bar.py")],
  "property-based testing: generated directional derivatives against extrapolated difference quotients, and reverse against forward mode"),
]

NOTE = ("Random exploration: no violation on the generated cases (counts, distribution and samples in the evidence file); nothing is proved. "
        "Trusts numpy/scipy, jax's primitives and the numpy reference in /verif. Statistical sub-checks compare at 7.5 standard errors with seeded draws.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for (i, title, stmt, over, text, why, files, mech, tech, *_) in T:
            assert len(title) <= 80, (i, len(title))
            files = [x for x in files]
            f.write(json.dumps({"id": i, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py setup",
         "checks": [{"property": t[0], "quick_cmd": f"/opt/venv/bin/python run.py check {t[0]} --tier quick",
                     "thorough_cmd": f"/opt/venv/bin/python run.py check {t[0]} --tier thorough",
                     "technique": t[8], "level": "exploration", "level_note": NOTE} for t in T],
         "not_applicable": [],
         "notes": "No hooks in /repo. Replay a reported case with: /opt/venv/bin/python run.py replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
