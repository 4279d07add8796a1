# Semantics pinned while building the checks (what the code does and the checks accept), and what a property deliberately does not claim.
NOTES = {
"P05": "CT's own steppers do not report the starting point, the odeint based ones do; step limits count reported points; sub-step events of symplectic steppers are called at the start of the step; IntegratorSymplectic is not assignable.",
"P06": "backward Euler linearises at x_n and time (n+1)dt; timeVaryingDiscretization=false freezes A and B (checked for LTI only); switching useSensitivityIntegrator by configure is not supported; a discretiser for P != V second-order splits does not compile and is left out.",
"P07": "setIntegrationType needs initialize() afterwards; a switched container needs initialize and setCurrent after editing; ControllerDms shares its spliner by design; SystemDiscretizer clones its system.",
"P08": "sparse variants of DerivativesCppad return all entries row-major; CodeGen variants need CppADCodeGen (not installed).",
"P09": "barrier values are compared only where active; the periodic constructor has no end time.",
"P10": "final terms ignore activations; barrier derivatives may refuse; the simple quadratic cost takes symmetric weights only; t_shift takes effect with the next setCurrentStateAndControl.",
"P12": "contents after changeNumStages are unspecified until set or zeroed; nominal arrays handed to the bulk setters are assumed long enough.",
"P13": "the deviation of the initial state is zero; constrained problems are refused when handed over; after resizing a problem it is handed over again; fixedHessianCorrection means R + epsilon I; eigenvalue clamping only compared when inactive.",
"P14": "DARE and FHDTLQR regularise by 1e-5 (tolerance 1e-3); FHDTLQR ignores cross weights; its numerical checks reject negative entries; only stabilisable and detectable systems.",
"P15": "the guess defines the initial state until changeInitialState; changing the horizon or setProblem requires a new guess; configure keeps the number of stages when dt changes; a plain iteration after a multiple-shooting MPC iteration only after a reset; the cost reported after a multiple-shooting MPC iteration is that of the previous trajectory (not compared); Armijo rule as implemented; ties decided by rounding end the execution; solve() returns true if at least one iteration ran; constraints need HPIPM (not built).",
"P16": "deviation bounds are per suite (see above); scheduling points are mutex, condition, thread and atomic operations; results compared with the single-threaded solver.",
"P17": "time left = T0 - (time since first solve + forward integration stop); the final flag is not compared within 1e-5 of its boundary; switching the timing source in mid-run is out of scope.",
"P18": "shift = floor(t/dt), at most size - 1.",
"P19": "evaluation only after an iterate was handed in; horizon and initial-state changes take effect with the next iterate; the problem's horizon overrides settings.T_; DmsSolver::changeCostFunction/changeNonlinearSystem/changeLinearSystem/changeConstraints/configure after construction do not reach the transcription (their documentation announces it; not claimed); per-node switching of bounds and the exact Hessian are not offered.",
"P20": "setInitialGuess, setZero and finalize change the iterate without counting an update; SNOPT vectors are sized m+1.",
"P21": "the UKF takes dFdv and dHdw as noise covariances; the SSKF needs a prediction before an update; only detectable cases (closed-loop radius < 0.95) compared; the copy constructor of EstimatorBase does not compile (unused, left).",
"P22": "DMS/NLP/cppad/MPC keys are mandatory, NLOptCon and line-search keys optional; alpha_max follows alpha_0 unless given; mpc_mode is not read from file; filter settings namespaces include the trailing dot.",
"P23": "Gramians compared for at most 3 iterations or spectral radius < 0.9.",
"P24": "PlaneEstimator normalises d = 1; Ellipsoid::insideEllipsoid returns value - 1; LU/LDLT are unpivoted, so only matrices with non-zero leading minors; toUniquePosition returns a value in [l - tol, l + 2 pi + tol) and leaves values inside unchanged.",
"P25": "the gain of the two-argument SecondOrderActuatorDynamics constructors is not checked; JointPositionPIDController::clone refuses by design.",
"P26": "the duration may expire before the first step; the user calls finish() before simulating again and before destroying a derived class.",
"P27": "changing the nonlinear system leaves the linear system as it is; constraints given to constructors are not initialised (those given to setters are).",
"P28": "the optimised expressions are polynomials of low degree: a grid with more points per variable than the degree (and unit vectors for linear arguments) determines them; angles by trigonometric polynomials likewise.",
"P29": "entries of transforms are trigonometric polynomials of degree 1 in each joint (3 values per joint determine them), those of the inertia matrix and bias forces of degree 2 (5 values per joint; HyA quick uses 3, legs of HyQ are varied together); geometry and inertias are pinned in harness/robots_data.h; gravity of fixed-base models is the acceleration (0,0,9.81) of the base, floating-base forward dynamics return the base acceleration with gravity included; known finding: factors of the floating-base inertia matrix.",
"P30": "kindr is not installed; lib/kindr is a stand-in with its documented conventions (active Hamilton rotations, EulerAnglesXyz = Rx Ry Rz, local angular velocities), validated by building and passing ct_rbd's own state, kinematics, dynamics and contact tests with it.",
"P31": "the reference is the rigid-body tree of P29 in the coordinates of the state vector, differentiated by sixth-order central differences (error < 1e-9 relative); contact forces of the generated HyQ model are those of its generator (spring 5000 exp(-100 (z + 0.02)), damper 1000 scaled by sigmoid(-100 z)); the 29000-line reverse-mode HyQ model is compiled in the thorough tier only; known finding: the inverse dynamics Jacobians of HyQ ignore the base acceleration (cannot be regenerated without CppADCodeGen).",
"P32": "runs on HyA and HyQ with the kindr stand-in of P30 and the rigid-body tree of P29; contact model checked on ground height zero (with a height offset the spring uses the offset and the smoothing does not, which is left open); torques of the constrained inverse dynamics are checked for three or four feet in contact, where they exist for every admissible acceleration.",
}
SEEDS = {"P20-empty-block": "Missed at first (no block with rows but without entries in the alphabet); block kind added, caught."}
