# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
C = "ct_core/include/ct/core/"
O = "ct_optcon/include/ct/optcon/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", tech="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, tech=tech, claimed=claimed, reason=reason))


prop("P01", "Trajectory lookup depends only on the stored points, never on history",
     "A time-stamped trajectory behaves as the plain sequence of (time, value) points left by its editing operations "
     "(append, drop at either end, time shift, swap, assign, copy, extract, replace). Evaluating it at any time returns the "
     "zero-order-hold or linear interpolation of the current points, held constant before the first and after the last point, "
     "and index lookup returns the last point not later than the query. Both are independent of all earlier queries and edits, "
     "including failed ones on an empty trajectory.",
     ["histories", "inputs"],
     "all edit/query sequences up to the stated depth over small point sets, followed by every query time class",
     "lookups keep a cached index between calls; tests evaluate fresh trajectories in increasing time order",
     [C + "common/Interpolation.h", C + "types/trajectories/DiscreteTrajectoryBase.h"],
     [("index search with cached index", C + "common/Interpolation.h"),
      ("trajectory editing", C + "types/trajectories/DiscreteTrajectoryBase.h")],
     "exhaustive operation sequences against a reference list of points; values outside the tables are not covered",
     "bounded exhaustive exploration of operation sequences vs reference model")

prop("P02", "Arrays and time grids act element by element and reject size mismatches",
     "Array arithmetic (sum, difference, in-place forms, scaling, division, offset, fill) acts on each element independently, leaves "
     "the operands it does not assign unchanged, and rejects arrays of different length. Editing operations behave like a plain "
     "sequence, and equidistant time grids and linspace contain exactly the requested number of points, equally spaced, including "
     "both end points.",
     ["histories", "inputs"],
     "all programs of up to 3 (quick) / 4 (thorough) operations on two arrays of 0..3 elements; all grids over a spacing/offset/size table",
     "tests sample a few sizes; mismatches, empty arrays and aliasing come in combinations",
     [C + "types/arrays/DiscreteArray.h", C + "types/arrays/ScalarArray.h", C + "types/arrays/TimeArray.h", C + "common/linspace.h"],
     [("element-wise operators", C + "types/arrays/DiscreteArray.h"), ("grid constructor", C + "types/arrays/TimeArray.h")],
     "exhaustive operation programs against std::vector semantics", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P03", "Switched objects always act in the phase that contains the query time",
     "For every phase sequence, the active phase and its mode, start and end time are those of the interval [start, end) containing the "
     "query time, times outside the sequence being clamped to the first or last phase. Switched systems, discrete systems, controllers "
     "and switched linear constraint containers produce exactly what the mode of that phase produces, for every order of queries, and so "
     "do their clones.",
     ["inputs", "histories"],
     "all phase sequences of up to 3 phases over small duration/mode tables, all query sequences over boundary, interior and outside times",
     "tests query one increasing time sweep on one schedule; boundaries, repeated modes and backward jumps are combinations",
     [C + "switching/Switching.h", C + "systems/continuous_time/SwitchedControlledSystem.h",
      C + "systems/discrete_time/SwitchedDiscreteControlledSystem.h", C + "systems/continuous_time/linear",
      O + "constraint/SwitchedLinearConstraintContainer-impl.h"],
     [("phase lookup", C + "switching/Switching.h"), ("mode dispatch", C + "systems/continuous_time/SwitchedControlledSystem.h")],
     "exhaustive schedules x query sequences against interval arithmetic",
     "bounded exhaustive exploration of schedules and query sequences vs reference model")

prop("P04", "Controllers implement their control law for every call history",
     "A state-feedback controller returns feedforward plus gain times state deviation with all three trajectories evaluated at the "
     "(clamped) query time, and the same after any update, extraction or cloning. A PID controller returns the documented "
     "proportional-integral-derivative law with integral limit and output saturation for every sequence of times, measurements, "
     "set-point changes and resets. Constant and step-input controllers return their set values, including derivatives.",
     ["histories", "inputs"], "all call sequences of bounded length over small gain/limit/time tables",
     "controllers are stateful; tests run one simulation with loose assertions",
     [C + "control/StateFeedbackController-impl.h", C + "control/continuous_time/siso", C + "control/continuous_time/ConstantController-impl.h",
      C + "control/continuous_time/ConstantStateFeedbackController.h", C + "control/continuous_time/ConstantTrajectoryController.h"],
     [("state feedback law", C + "control/StateFeedbackController-impl.h"), ("PID law", C + "control/continuous_time/siso/PIDController-impl.h")],
     "exhaustive call sequences against a scalar reference implementation of each law",
     "bounded exhaustive exploration of call histories vs reference model")

prop("P05", "Integrators apply their method exactly and report every step",
     "Fixed-step integration by any offered method (Euler, modified midpoint, Runge-Kutta, built-in steppers, symplectic) over n steps equals n "
     "applications of that method's update with the requested step, start time and start state, for autonomous, time-varying and "
     "controlled systems. Recorded trajectories and step events match the visited (time, state) pairs in order, a step limit or a kill "
     "request stops the integration where documented, and an integrator (or a copy of it) can be reused any number of times without residue.",
     ["inputs", "histories"], "all integrator types x step sizes x step counts x systems x start times x handlers, and sequences of reuse",
     "tests compare end points of single integrations within loose tolerances",
     [C + "integration/Integrator-impl.h", C + "integration/IntegratorSymplectic-impl.h", C + "integration/internal/SteppersCT.h",
      C + "integration/internal/SteppersODEInt.h", C + "integration/Observer-impl.h", C + "integration/EventHandlers"],
     [("stepper dispatch and observers", C + "integration/Integrator-impl.h"), ("built-in steppers", C + "integration/internal/SteppersCT.h"),
      ("symplectic steppers", C + "integration/IntegratorSymplectic-impl.h")],
     "exhaustive configuration enumeration against reference Butcher tableaus",
     "exhaustive enumeration of configurations and reuse sequences vs reference integrator")

prop("P06", "Discretised dynamics and their sensitivities describe the same map",
     "Propagating a discretised system one step equals integrating the continuous dynamics over that step with the control held, using the "
     "configured method and number of substeps, at every step index and for every sequence of calls. The discrete sensitivity matrices returned "
     "for a step equal the closed-form approximation selected (forward/backward Euler, symplectic Euler, Tustin, matrix exponential) or, for "
     "sensitivity integration, the derivative of the propagated state with respect to the initial state and the control.",
     ["inputs", "histories"], "all discretisation types x substeps x time steps x step indices x states/controls from small tables, and call sequences",
     "tests check one step index on one system; time variance, substeps and reuse interact",
     [C + "systems/discrete_time/SystemDiscretizer-impl.h", C + "integration/sensitivity/SensitivityApproximation.h",
      C + "integration/sensitivity/SensitivityIntegrator.h", C + "integration/EventHandlers/SubstepRecorder.h"],
     [("discretiser", C + "systems/discrete_time/SystemDiscretizer-impl.h"), ("sensitivity approximation", C + "integration/sensitivity/SensitivityApproximation.h"),
      ("sensitivity integration", C + "integration/sensitivity/SensitivityIntegrator.h")],
     "exhaustive enumeration against reference discretisation formulas and central differences",
     "exhaustive enumeration of configurations and call sequences vs reference model")

prop("P07", "Clones are faithful and independent of their original",
     "Cloning any system, controller, cost function, constraint or filter-side model yields an object with exactly the same observable "
     "outputs as the original at that moment. Afterwards, no change made to one of the two (parameters, references, time/state settings, controllers) "
     "is visible through the other.",
     ["histories", "programs"], "for every clonable class: all mutation prefixes, clone, then all mutation sequences on either side",
     "tests never clone a modified object and then modify both; multi-threaded solvers rely on it",
     [C + "systems", C + "control", O + "costfunction", O + "constraint", O + "filter"],
     [("copy constructors / clone()", C + "systems/continuous_time/ControlledSystem.h"),
      ("cost function cloning", O + "costfunction/CostFunctionQuadratic-impl.hpp"),
      ("constraint cloning", O + "constraint/ConstraintContainerAnalytical-impl.h")],
     "exhaustive mutate/clone/mutate programs, original compared with an independently built twin",
     "bounded exhaustive exploration of mutate/clone/mutate programs")

prop("P08", "Automatic and numerical derivatives agree with the function they describe",
     "For every differentiable function or system, forward evaluation equals the function, the automatic-differentiation Jacobian and "
     "weighted Hessian equal the analytic derivatives, the numerical ones agree within finite-difference accuracy, and sparse variants, "
     "placed at the reported positions, reproduce the dense ones. System linearisations return the state and input Jacobians "
     "at the requested state, control and time for first- and second-order systems, whatever was linearised before.",
     ["inputs", "histories"], "all points from small tables for a set of functions with known derivatives, all query sequences of bounded length",
     "tests use random points on one function and never interleave queries",
     [C + "math/DerivativesCppad.h", C + "math/DerivativesNumDiff.h", C + "systems/linearizer", C + "systems/continuous_time/linear",
      C + "internal/autodiff/SparsityPattern.h"],
     [("CppAD derivatives", C + "math/DerivativesCppad.h"), ("numeric linearisation", C + "systems/linearizer/DynamicsLinearizerNumDiff.h"),
      ("AD linearisation", C + "systems/linearizer/DynamicsLinearizerADBase.h")],
     "exhaustive point/sequence enumeration against hand-derived derivatives",
     "exhaustive enumeration of points and query sequences vs analytic reference")

prop("P09", "Activations switch and scale exactly as parameterised",
     "A time activation is active exactly within its window (single, periodic, linear ramp, radial basis) and its value is the documented "
     "function of time and parameters; a barrier activation is the sum of the exponentials of the scaled distances beyond its bounds, with true derivatives. This holds identically "
     "whether parameters come from a constructor or from a configuration file, and for every query order.",
     ["inputs", "configurations"], "all parameter tuples from small tables x all query times around every breakpoint, constructor and file",
     "there is no unit test for most activations; the two initialisation routes differ",
     [C + "common/activations"],
     [("activation classes", C + "common/activations/ActivationBase.hpp")],
     "exhaustive parameter x time grids against closed forms", "exhaustive enumeration of parameters and query times vs reference model")

prop("P10", "Cost equals the sum of its active terms and its derivatives are consistent",
     "A cost function evaluates to the sum of the terms added to it, intermediate terms weighted by their time activation and final terms "
     "always counted, at the state, control and (shifted) time last set. Its gradients and Hessians are the true derivatives of that value for every term type "
     "(linear, quadratic, mixed, multiplicative, tracking, smooth-absolute, barrier, simple quadratic), however terms were added, retargeted, re-weighted or "
     "loaded from file.",
     ["inputs", "histories", "configurations"], "all small sets of terms x activations x states/controls/times, all set/evaluate/retarget sequences of bounded length",
     "tests check term derivatives at random points without activations, retargeting or call interleavings",
     [O + "costfunction"],
     [("summation and gating", O + "costfunction/CostFunctionQuadratic-impl.hpp"), ("terms", O + "costfunction/term/TermBase-impl.hpp")],
     "exhaustive term-set/operation enumeration against second-order jets of the closed-form costs",
     "bounded exhaustive exploration of term sets and operation sequences vs reference model")

prop("P11", "Constraint containers report exactly what their constraints say",
     "After any sequence of additions and initialisation, a constraint container reports counts, stacked values, lower/upper bounds and "
     "bound violations that are exactly those of its constraints in order of addition, separately for intermediate and terminal constraints. "
     "Dense Jacobians are the true derivatives of those values and sparse Jacobians placed at the reported pattern reproduce the dense ones; "
     "malformed bounds are rejected.",
     ["histories", "inputs"], "all add sequences of up to 3 constraints (intermediate/terminal) from an alphabet of constraint types x evaluation points",
     "tests use one hand-made container; ordering, sparsity and terminal/intermediate mixes multiply",
     [O + "constraint"],
     [("container stacking", O + "constraint/ConstraintContainerAnalytical-impl.h"), ("bounds/violations", O + "constraint/ConstraintContainerBase-impl.h"),
      ("box constraints", O + "constraint/term/BoxConstraintBase-impl.h")],
     "exhaustive add sequences against a list-of-constraints reference", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P12", "The linear-quadratic problem stores exactly the constraints and data set",
     "Setting box, general or time-invariant data on a linear-quadratic problem marks exactly the addressed stages as constrained, with bounds "
     "expressed relative to the given nominal values, the given sparsity and counts, and rejects wrong sizes and stage indices. Zeroing or re-setting, also after "
     "changing the number of stages, leaves no stale constraint or data behind, for every sequence of such calls.",
     ["histories", "inputs"], "all call sequences of bounded length on problems of 1..3 stages",
     "bookkeeping is spread over many parallel arrays; tests fill it once",
     [O + "problem/LQOCProblem-impl.hpp", O + "problem/LQOCProblem.hpp"],
     [("constraint bookkeeping", O + "problem/LQOCProblem-impl.hpp")],
     "exhaustive call sequences against a stage-wise reference", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P13", "The LQ solver returns the optimum of every unconstrained LQ problem",
     "For every unconstrained linear-quadratic problem with convex cost and any state/control dimension, the Riccati solver's state and control updates satisfy the dynamics from zero deviation and "
     "are the minimiser of the problem, and the feedback gains and feedforward are the optimal ones at every stage. Solving stage by stage, re-solving, "
     "changing problem size or problem, and enabling regularisation within its threshold give the same answer as a fresh solve; constrained problems are refused.",
     ["inputs", "histories"], "all problems over small integer data tables with 1..3 stages, all solve/re-solve/resize sequences of bounded length",
     "tests compare solvers on one random problem",
     [O + "solver/lqp/GNRiccatiSolver-impl.hpp", O + "solver/lqp/LQOCSolver.hpp"],
     [("backward pass, extraction", O + "solver/lqp/GNRiccatiSolver-impl.hpp")],
     "exhaustive problem enumeration against a dense KKT solve", "exhaustive enumeration of problems and solver call sequences vs dense KKT reference")

prop("P14", "LQR designs solve their Riccati equations and stabilise",
     "The infinite-horizon continuous and discrete LQR gains are those of the stabilising, symmetric positive semidefinite solution of the algebraic Riccati equation, whichever solution method "
     "(iterative, direct) or diagonal/non-diagonal weighting path is used. The finite-horizon discrete LQR yields at every stage the gain of the backward Riccati recursion for the given trajectories, system and (cross-term free) cost, "
     "and repeated designs with the same object are independent of each other.",
     ["inputs", "histories"], "all system/weight combinations from small tables, all pairs of consecutive designs",
     "tests check one system; solver objects keep workspace between calls",
     [O + "lqr"],
     [("CARE", O + "lqr/riccati/CARE-impl.hpp"), ("DARE", O + "lqr/riccati/DARE-impl.hpp"), ("finite horizon", O + "lqr/FHDTLQR-impl.hpp")],
     "exhaustive system tables, residual and eigenvalue oracle", "exhaustive enumeration of designs vs Riccati residual oracle")

prop("P15", "Optimal-control solves are consistent, non-worsening and reproducible",
     "For every algorithm variant, the returned trajectories have the sizes and times of the horizon, start at the initial state, are consistent with the controller and cost "
     "reported, and on linear-quadratic problems the full-step solution is the global optimum after one iteration. With line search the cost (merit) never "
     "increases from iteration to iteration, the accepted step is the first acceptable one of the configured sequence, and re-solving or changing initial state, horizon, cost, dynamics, settings or guess gives the same result as a freshly constructed solver warm-started with the current policy. MPC iterations return the same update without a final rollout.",
     ["configurations", "histories", "inputs"], "all algorithm variants x discretisations x horizons x small systems, all reconfiguration sequences of bounded length",
     "tests run full solves from one guess; reconfiguration sequences and per-iteration invariants are not observed",
     [O + "nloc", O + "solver/NLOptConSolver-impl.hpp"],
     [("rollout, line search, update", O + "nloc/NLOCBackendBase-impl.hpp"), ("iteration flow", O + "nloc/algorithms/SingleShooting-impl.hpp")],
     "exhaustive configuration/sequence enumeration in lock-step with a reference iteration (dense KKT solves, plain rollouts)",
     "bounded exhaustive exploration of configurations and call sequences vs reference model")

prop("P16", "Multi-threaded solving equals single-threaded solving on every schedule",
     "Solving with any number of worker threads terminates and yields the same trajectories, gains, cost and accepted line-search step as the single-threaded solver, whatever the "
     "interleaving of the threads. No thread is left waiting forever, workers never execute work of an outdated task, and "
     "shared solver data are never accessed without synchronisation.",
     ["schedules"], "all schedules at synchronisation operations with up to the stated number of deviations from the default schedule, for solves with 2..4 worker threads",
     "the schedule is chosen by the OS; failures need rare preemptions",
     [O + "nloc/NLOCBackendMP-impl.hpp", O + "nloc/NLOCBackendMP.hpp"],
     [("worker pool, task hand-over", O + "nloc/NLOCBackendMP-impl.hpp")],
     "controlled scheduler (interposed pthreads, compiler-instrumented atomics), deviation-bounded exhaustive; sequential consistency assumed, plain data races caught by vector clocks",
     "stateless model checking of the real threads under a controlled scheduler (deviation-bounded)")

prop("P17", "MPC time keeping and horizon follow the documented formulas for every history",
     "For every sequence of external-time stamps, resets and strategy settings, the remaining horizon, elapsed time, forward-integration time and policy start times are the documented functions of "
     "the time stamps, delays and horizon mode (constant receding, fixed final time with and without minimum, receding until fixed final time). The final-time flag is raised exactly when the final time is reached, "
     "the state handed to the solver is the measured state integrated forward over exactly that interval under the previous policy, and a reset restores the initial behaviour.",
     ["histories", "inputs"], "all call sequences of bounded length over small time tables x all horizon modes x delay settings",
     "tests run two scenarios with one step pattern",
     [O + "mpc/MpcTimeKeeper.h", O + "mpc/timehorizon/MpcTimeHorizon-impl.h", O + "mpc/MPC-impl.h"],
     [("time keeper", O + "mpc/MpcTimeKeeper.h"), ("horizon modes", O + "mpc/timehorizon/MpcTimeHorizon-impl.h")],
     "exhaustive call histories against a closed-form reference keeper", "bounded exhaustive exploration of call histories vs reference model")

prop("P18", "MPC warm starts are the previous policy shifted by whole steps and resized",
     "The warm-start policy has exactly the number of stages of the new horizon; its leading part is the previous policy shifted by a whole number of time steps not exceeding the elapsed time, "
     "the rest repeats the last stage, and the reported truncated time is that whole number times the step. State, feedforward and feedback trajectories stay aligned with each other and with the time grid, for every elapsed time and new horizon.",
     ["inputs", "histories"], "all policy lengths, elapsed times (on and off the grid), new horizons and sequences of 2 shifts from small tables",
     "tests exercise one shift pattern inside a full MPC run",
     [O + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h", O + "mpc/policyhandler/PolicyHandler-impl.h"],
     [("truncate/resize", O + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h")],
     "exhaustive shift/resize sequences against a list reference", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P19", "Multiple-shooting transcription matches the problem and its own derivatives",
     "The optimisation vector stores and returns every shot's state and control at disjoint positions and initial guesses fill it as documented; continuity defects vanish exactly for dynamically consistent trajectories. The cost and all constraint values of the "
     "transcribed problem are those of the trajectory, and the cost gradient and sparse constraint Jacobian are their true derivatives for every spline, integrator, cost-evaluation and shot configuration, "
     "after any sequence of iterate, initial-state and horizon updates; solving then yields a feasible, stationary trajectory of the current problem.",
     ["configurations", "inputs", "histories"], "all transcription settings x shots 1..3 x iterates from small tables, all update sequences of bounded length",
     "tests solve one oscillator problem end to end",
     [O + "dms"],
     [("shots", O + "dms/dms_core/ShotContainer.h"), ("continuity constraint", O + "dms/constraints/ContinuityConstraint.h"), ("cost evaluators", O + "dms/dms_core/cost_evaluator/CostEvaluatorFull.h")],
     "exhaustive settings enumeration; independent transcription with complex-step derivatives as oracle", "exhaustive enumeration of settings and update sequences vs reference model")

prop("P20", "NLP assembly keeps every constraint block, bound and sparsity entry in its place",
     "Stacked constraint values, bounds, Jacobian values and sparsity indices of a nonlinear program as presented to the NLP solver are exactly those of its constraint blocks in order, at disjoint row ranges, and remain so when blocks or variables are resized. "
     "The lower-triangular Hessian of the Lagrangian is assembled the same way. Optimisation variables, bounds, guesses and multipliers written are those read back, the update counter advances exactly with every new iterate handed in, and a solved program is at its optimum, also when solved again after reconfiguration or a warm start.",
     ["histories", "programs"], "all sequences of adding blocks of sizes 0..2, resizing and writing variables up to bounded length",
     "tests only use the assembly through one full solve",
     [O + "nlp/Nlp.h", O + "nlp/OptVector.h", O + "nlp/DiscreteConstraintContainerBase.h", O + "nlp/DiscreteConstraintBase.h"],
     [("block stacking", O + "nlp/DiscreteConstraintContainerBase.h"), ("variables", O + "nlp/OptVector.h")],
     "exhaustive block sequences against list concatenation", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P21", "State estimators realise the Kalman recursions for every measurement history",
     "For every sequence of predict, update, covariance, model and estimate changes, the extended Kalman filter's estimate and covariance equal the textbook recursion on the given (possibly nonlinear, time-varying) model, the unscented filter coincides with the Kalman filter on "
     "linear models and follows the unscented transform with its alpha, beta, kappa weights on nonlinear ones, and the steady-state filter applies the filter gain of the stationary Riccati solution of the last linearisation or refuses when it does not converge. Estimates never depend on anything but the model, the initial condition and the measurements given.",
     ["histories", "inputs"], "all predict/update sequences of bounded length over small input/measurement tables on several linear and nonlinear models",
     "tests are random simulations with loose thresholds",
     [O + "filter"],
     [("EKF", O + "filter/ExtendedKalmanFilter-impl.h"), ("UKF", O + "filter/UnscentedKalmanFilter-impl.h"), ("steady state", O + "filter/SteadyStateKalmanFilter-impl.h")],
     "exhaustive call sequences against a reference Kalman filter", "bounded exhaustive exploration of call histories vs reference model")

prop("P22", "Configuration files set exactly what they specify",
     "Loading solver, line-search, NLP, MPC, estimator or multiple-shooting settings, scalars or matrices from a configuration file yields, for every key present, its value and, for every absent optional key, the default (an absent mandatory key is refused with an exception), independent of which other keys are present. Enumerated names map to the algorithm, discretisation and solver they name, "
     "unknown ones are rejected or leave the default, and derived quantities (number of stages, validity check) follow the documented formulas.",
     ["configurations", "inputs"], "all presence/absence combinations of keys (pairs exhaustive) x value tables",
     "tests load complete files only",
     [O + "solver/NLOptConSettings.hpp", C + "common/InfoFileParser.h", O + "dms/dms_core/DmsSettings.h"],
     [("settings load", O + "solver/NLOptConSettings.hpp"), ("matrix load", C + "common/InfoFileParser.h")],
     "exhaustive key subsets against a key/value reference", "exhaustive enumeration of configuration files vs reference model")

prop("P23", "System models compute the dynamics they are parameterised with",
     "Linear, second-order, symplectic, discrete, controlled and disturbed system models and the estimators' process and measurement models return exactly the derivative or successor state defined by their "
     "parameters and the control law attached, at every state, time and control and after any parameter or controller change. Controllability and observability matrices and Gramians follow their "
     "definition and the checks agree with their rank.",
     ["inputs", "histories"], "all parameter/state/time tables, all set/compute sequences of bounded length",
     "tests use single parameterisations",
     [C + "systems/continuous_time", C + "systems/discrete_time", O + "filter"],
     [("LTI", C + "systems/continuous_time/linear/LTISystem.h"), ("second order", C + "systems/continuous_time/SecondOrderSystem.h")],
     "exhaustive tables against closed forms", "exhaustive enumeration of parameters and call sequences vs reference model")

prop("P24", "Joint states and utility maths return well-defined values for every input",
     "Joint states store positions and velocities at their documented places, wrapping maps every angle to the equivalent one in the principal interval, and limit tests accept exactly the points inside the limits. "
     "Quantisation, plane, ellipsoid, timer and linear-solve utilities return the documented values for every index, point and call order.",
     ["inputs", "histories"], "all values from tables around every boundary, all call sequences of bounded length",
     "boundary values and call orders are combinations",
     ["ct_rbd/include/ct/rbd/state/JointState.h", C + "common/QuantizationNoise.h", C + "geometry", C + "common/Timer.h", C + "common/ExternallyDrivenTimer.h", C + "math/Inverses.h"],
     [("joint wrapping", "ct_rbd/include/ct/rbd/state/JointState.h"), ("quantisation", C + "common/QuantizationNoise.h")],
     "exhaustive boundary tables against closed forms", "exhaustive enumeration of inputs and call sequences vs reference model")

Rb = "ct_rbd/include/ct/rbd/"
prop("P25", "Joint motion, control and actuation primitives obey their limits and laws",
     "Generated joint motions start and end at rest at the requested positions, take the minimum time the speed and acceleration limits allow, never exceed those limits nor overshoot, and sampled arm motions are "
     "equidistant samples of every joint's motion that end only when all joints have arrived. Joint position controllers act on each joint as an independent PID with its own set-point, gains and limits. "
     "Actuator models compute the stated dynamics, output and inverse output per joint. Jacobian measures equal the singular values, manipulability and minimum-norm velocities of the given matrix.",
     ["inputs", "histories"], "all motions, states and parameters from tables, all set-up / query sequences of bounded length",
     "the built tests do not touch these classes",
     [Rb + "common", Rb + "robot/actuator", Rb + "robot/control/JointPositionPIDController-impl.h"],
     [("motion profile", Rb + "common/SingleDOFTrajectoryGenerator.h"), ("sampling", Rb + "common/SimpleArmTrajectoryGenerator.h"), ("joint PID", Rb + "robot/control/JointPositionPIDController-impl.h"),
      ("actuators", Rb + "robot/actuator/SecondOrderActuatorDynamics-impl.h")],
     "exhaustive tables against closed forms; parts needing kindr/RobCoGen are not built here and not covered", "exhaustive enumeration of inputs and call sequences vs reference model")

prop("P26", "Threaded simulation follows clock, controller and plant on every schedule",
     "The threaded simulator runs plant and controller concurrently. On every interleaving of its threads, after k control steps the simulated state is the plant integrated over exactly k control periods from the initial state under the controllers in force during each of them: "
     "no drift, no step lost or repeated, never ahead of the clock. The controller thread sees only whole states, in the order they were reached. The simulation ends after the requested duration or at stop(), can be run again, copies are independent, and no run deadlocks or races on shared data.",
     ["schedules", "clock readings", "histories"], "all schedules of simulation, controller and main thread up to a bound on deviations, under a virtual clock, x time-step / duration tables",
     "no test runs the simulator; races show only under particular schedules",
     [C + "simulation/ControlSimulator.h"],
     [("simulation threads", C + "simulation/ControlSimulator.h")],
     "stateless exploration of the real threads under a controlled scheduler and virtual clock with vector-clock race detection", "stateless model checking of the implementation under a controlled scheduler (deviation-bounded) with happens-before race detection")

prop("P27", "Problem definitions hand a solver exactly the parts they were given",
     "An optimal control problem, continuous or discrete, holds after every sequence of construction, edits and copies exactly the dynamics, linearisation, cost, constraints, horizon and initial state given last, with a numerical linearisation of the given dynamics when none was given "
     "and a zero horizon and initial state when none were given. It is refused if and only if a mandatory part is missing or the horizon is negative. A solver given the problem works on all of its parts, and refuses constraints it does not support instead of dropping them.",
     ["histories", "configurations"], "all constructors x optional parts x all edit sequences of bounded length",
     "tests construct a problem one way and never edit it",
     [O + "problem/OptConProblemBase.h", O + "problem/OptConProblemBase-impl.h", O + "solver/OptConSolver.h"],
     [("problem", O + "problem/OptConProblemBase-impl.h"), ("hand-over", O + "solver/OptConSolver.h")],
     "exhaustive edit histories against a record of the parts", "bounded exhaustive exploration of operation sequences vs reference model")

prop("P28", "Spatial algebra obeys the laws of rigid-body mechanics for every operand",
     "Spatial inertias hold, after any sequence of fills, mass changes, transforms and copies, the inertia of the body described last; articulated-body updates and transforms preserve symmetry and equal the dense matrix products; "
     "spatial cross products, bias forces and the rotation and Euler-angle utilities equal their definitions for every vector, angle and matrix; state-dependent matrices follow the state they were given last.",
     ["inputs", "histories"], "all operands on grids that determine the polynomial identities involved, all operation sequences of bounded length",
     "no test touches the algebra; an error shows only for particular axes or operand combinations",
     ["ct_rbd/include/ct/iit/rbd/InertiaMatrix.h", "ct_rbd/include/ct/iit/rbd/robcogen_commons.h", "ct_rbd/include/ct/iit/rbd/utils.h", "ct_rbd/include/ct/iit/rbd/rbd.h", "ct_rbd/include/ct/iit/rbd/StateDependentMatrix.h"],
     [("spatial inertia", "ct_rbd/include/ct/iit/rbd/InertiaMatrix.h"), ("articulated bodies", "ct_rbd/include/ct/iit/rbd/robcogen_commons.h"), ("utilities", "ct_rbd/include/ct/iit/rbd/utils.h")],
     "exhaustive grids and operation sequences against dense 6x6 algebra", "exhaustive enumeration of operands and operation sequences vs reference model")

Mo = "ct_models/include/ct/models/"
prop("P29", "Robot models compute the kinematics and dynamics of the robot they describe",
     "For every configuration, velocity, acceleration, force and external wrench, and after any sequence of calls on engines sharing their transforms, the generated models of HyA, HyQ, both pendulums and the quadrotor with load return the link transforms (motion, force, homogeneous), "
     "Jacobians, forward dynamics, inverse dynamics with its gravity and Coriolis terms, joint-space inertia matrix, its factors and inverse of the rigid-body tree with the documented geometry and inertias. "
     "Forward and inverse dynamics are inverse to each other, and no result depends on earlier calls.",
     ["inputs", "histories"], "all configurations on grids that determine the trigonometric polynomials involved x velocity/force patterns, all call sequences of bounded length",
     "the model tests need kindr and are not built; errors show only in particular configurations or call orders",
     [Mo + "HyA/generated", Mo + "HyQ/generated", Mo + "InvertedPendulum/generated", Mo + "DoubleInvertedPendulum/generated", Mo + "QuadrotorWithLoad/generated"],
     [("forward dynamics", Mo + "HyA/generated/forward_dynamics.impl.h"), ("inverse dynamics", Mo + "HyQ/generated/inverse_dynamics.impl.h"), ("transforms", Mo + "HyA/generated/transforms.impl.h")],
     "exhaustive configuration grids and call sequences against a reference rigid-body tree", "exhaustive enumeration of configurations and call sequences vs reference model")
prop("P30", "Poses and robot states describe the same motion in every representation",
     "For every orientation, position and velocity, whichever constructor, setter or vector conversion supplied them and whichever storage type was requested, a rigid body pose returns the same rotation as matrix, quaternion and Euler angles, rotates vectors and gravity consistently, and composes and inverts as a rigid motion; "
     "robot states (with or without actuator states) convert to and from every vector layout without loss, their derivatives are the time derivatives of the coordinates they use, and copies, assignments and comparisons follow the represented motion over any sequence of edits.",
     ["inputs", "histories"], "all constructors x storages x edit sequences of bounded length x orientation grids",
     "these tests need kindr and are not built; a wrong frame or a lost representation shows only for particular histories and storages",
     [Rb + "state/RigidBodyPose.h", Rb + "state/RigidBodyState.h", Rb + "state/RBDState.h", Rb + "state/FloatingBaseRobotState.h", Rb + "state/FixBaseRobotState.h", Rb + "robot/control/SelectionMatrix-impl.h"],
     [("pose", Rb + "state/RigidBodyPose.h"), ("robot state", Rb + "state/RBDState.h"), ("derivative", Rb + "state/RigidBodyState.h")],
     "exhaustive constructor/edit histories against rotation matrices", "exhaustive enumeration of edit histories vs reference rigid motion")
prop("P31", "Generated and hand-derived model derivatives are those of the model dynamics",
     "At every state and input away from singularities of the Euler angles, the quadrotor model returns the Newton-Euler dynamics of its documented mass and inertia, its linear model the exact derivatives of these, and the generated linearisations, Jacobians, Hessians and forward evaluations shipped for HyA, HyQ (bare and with contact model) and the actuated pendulum equal "
     "the derivatives (or values) of the dynamics or kinematics of the robot they were generated from, in forward and reverse mode alike, independent of earlier evaluations, copies and clones.",
     ["inputs", "histories"], "all configurations on grids per joint and base pose x velocity patterns, fresh, used, copied and cloned objects",
     "tens of thousands of generated lines are exercised by no test; a wrong entry shows in one matrix element at some configurations",
     [Mo + "HyA/codegen", Mo + "HyQ/codegen", Mo + "InvertedPendulum/codegen", Mo + "Quadrotor", "ct_models/src/Quadrotor"],
     [("HyA", Mo + "HyA/codegen/HyALinearizedForward.cpp"), ("HyQ", Mo + "HyQ/codegen/HyQBareModelLinearizedForward.cpp"), ("quadrotor", "ct_models/src/Quadrotor/quadrotor_ode.cpp")],
     "exhaustive configuration grids against sixth-order differences of a reference rigid-body tree", "exhaustive enumeration of configurations vs differentiated reference model")
prop("P32", "Robot classes derive motion, contact forces and dynamics from state and inputs",
     "For every robot state and base pose, Kinematics returns the poses, velocities and Jacobians of the end-effectors in base and world and maps forces at them to the links; Dynamics solves the forward, inverse, fully actuated and contact-constrained equations of motion; the contact model returns the forces defined by its parameters, smoothing and active set (none for inactive feet). "
     "System classes with fixed or floating base, Euler or quaternion coordinates, actuators, end-effector inputs and contact model return the time derivative of their state, partial derivatives are taken at the positions and velocities given to them, and copies, clones and earlier calls change nothing.",
     ["inputs", "histories"], "all system variants x copies x configuration grids, call sequences of bounded length, all sequences of contact configurations",
     "these tests need kindr and are not built, and compare mostly at random states",
     [Rb + "robot/Kinematics.h", Rb + "robot/Dynamics.h", Rb + "robot/ProjectedDynamics.h", Rb + "physics/EEContactModel.h", Rb + "systems/FixBaseFDSystem.h", Rb + "systems/FixBaseFDSystemSymplectic.h", Rb + "systems/FloatingBaseFDSystem.h", Rb + "robot/jacobian/ConstraintJacobian.h"],
     [("forces on links", Rb + "robot/Kinematics.h"), ("contact", Rb + "physics/EEContactModel.h"), ("systems", Rb + "systems/FloatingBaseFDSystem.h")],
     "exhaustive system variants, states and contact-configuration histories against a reference rigid-body tree", "exhaustive enumeration of variants, states and call sequences vs reference model")
