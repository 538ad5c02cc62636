#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
O = 'ct_optcon/include/ct/optcon/'
C = 'ct_core/include/ct/core/'
R = 'ct_rbd/include/ct/rbd/'
M = 'ct_models/'

p('C01', 'Multi-threaded NLOC is race-free, terminates, and matches single-threaded',
  'For every thread schedule, solving a nonlinear optimal control problem with several worker threads terminates, '
  'contains no data race, and yields the same iterates (states, controls, feedback gains, cost, defects, accepted step '
  'sizes) as the same problem solved with one thread. This includes repeated solves, changes of problem data between '
  'solves, and destruction of the solver at any time.',
  ['schedules', 'configurations', 'histories'],
  'all interleavings of main thread and workers, all thread counts, algorithms and shooting lengths, all API histories',
  'The existing multi-thread tests run one schedule on one machine; the one that used 4 threads is excluded from the baseline as unrepeatable.',
  [O+'nloc/NLOCBackendMP-impl.hpp', O+'nloc/NLOCBackendMP.hpp', O+'nloc/NLOCBackendST-impl.hpp', O+'nloc/NLOCBackendBase-impl.hpp'],
  [('worker thread pool: task publication, wake-up, completion', O+'nloc/NLOCBackendMP-impl.hpp'),
   ('parallel line search candidate selection', O+'nloc/NLOCBackendMP-impl.hpp')],
  ['trajectories, gains, cost and defects after every iteration', 'thread sanitizer reports', 'process progress'],
  'yield/delay points in the thread pool (guarded by CT_VERIF_HOOKS)')

p('C02', 'NLOC returns dynamically consistent, truthfully reported solutions',
  'After any number of iterations and any history of problem changes, the returned state, input and feedback '
  'trajectories have consistent lengths and time stamps, start at the requested initial state, and simulating the '
  'controlled system with the returned policy reproduces the returned state trajectory up to the reported defects '
  '(exactly for single shooting). The reported cost equals the cost of the returned trajectories re-evaluated independently.',
  ['inputs', 'configurations', 'histories'],
  'all dynamics, costs, initial states, horizons, algorithms, integrators, shooting lengths, warm starts and change-of-problem histories',
  'Tests check one or two fixed problems and compare algorithms against each other, never against an independent simulation.',
  [O+'nloc/NLOCBackendBase-impl.hpp', O+'nloc/algorithms/', O+'solver/NLOptConSolver-impl.hpp', O+'system_interface/'],
  [('rollout and defect computation', O+'nloc/NLOCBackendBase-impl.hpp'), ('policy assembly', O+'nloc/NLOCBackendBase-impl.hpp')],
  ['getSolution, getStateTrajectory, getControlTrajectory, getTimeArray, getCost, defect norm'])

p('C03', 'NLOC line search never accepts a step that worsens the merit',
  'With the line search enabled, the merit (cost plus weighted defect norm) of the incumbent solution is non-increasing '
  'over iterations. When no step size is accepted the iteration leaves states, inputs and cost exactly as they were '
  'and reports that there is nothing left to improve; otherwise the accepted step is the largest one of the configured '
  'backtracking sequence that meets the configured acceptance rule (strict decrease, or sufficient decrease with non-increasing merit).',
  ['inputs', 'configurations', 'histories'],
  'all problems, initial guesses (including bad ones), line search settings, algorithms',
  'Existing tests start near the optimum where full steps are accepted; rejection and backtracking paths are not asserted.',
  [O+'nloc/NLOCBackendBase-impl.hpp', O+'nloc/NLOCBackendST-impl.hpp', O+'nloc/algorithms/MultipleShooting-impl.hpp', O+'nloc/algorithms/SingleShooting-impl.hpp'],
  [('line search over step sizes', O+'nloc/NLOCBackendBase-impl.hpp')],
  ['cost and trajectories before/after each iteration', 'iteration return value'])

p('C04', 'NLOC solves linear-quadratic problems exactly in one iteration',
  'For any linear time-varying or time-invariant system with convex quadratic cost, one iteration of every NLOC '
  'algorithm from any initial guess yields the unique minimiser of the discretised problem, with the feedback gains of '
  'the optimal policy. All algorithms, shooting lengths and warm starts agree on it.',
  ['inputs', 'configurations'],
  'all LQ problems (dimensions, horizon, weights, references, initial states), all algorithms and initial guesses',
  'One test checks a single oscillator; correctness for general systems needs an independent optimality oracle.',
  [O+'nloc/', O+'solver/lqp/GNRiccatiSolver-impl.hpp', O+'problem/LQOCProblem-impl.hpp'],
  [('LQ approximation', O+'nloc/NLOCBackendBase-impl.hpp'), ('Riccati backward pass', O+'solver/lqp/GNRiccatiSolver-impl.hpp')],
  ['solution after one iteration vs dense KKT solve'])

p('C05', 'The LQ optimal control solver returns the optimum and optimal feedback',
  'For every unconstrained time-varying linear-quadratic problem with affine dynamics and positive definite input '
  'weights, the Riccati solver returns state and input trajectories satisfying the affine dynamics and the first-order '
  'optimality conditions, and feedback gains that are optimal for every perturbed initial state. Solving again with '
  'the same or a different problem (other data, other horizon) gives the result of a fresh solver.',
  ['inputs', 'histories'],
  'all problem data, horizons, linearisation trajectories, solve/setProblem histories',
  'The existing tests are excluded or compare against one optimisation stage; optimality needs a global oracle.',
  [O+'solver/lqp/GNRiccatiSolver-impl.hpp', O+'solver/lqp/GNRiccatiSolver.hpp', O+'problem/LQOCProblem-impl.hpp'],
  [('backward Riccati recursion and forward pass', O+'solver/lqp/GNRiccatiSolver-impl.hpp'), ('problem assembly from costs/dynamics', O+'problem/LQOCProblem-impl.hpp')],
  ['getSolutionState/Control/Feedback vs dense KKT solve'])

p('C06', 'LQR and Riccati solvers return the stabilising Riccati solution',
  'For every stabilisable system with positive definite weights, the continuous and discrete Riccati solvers (direct and '
  'iterative) return a symmetric positive semidefinite solution with vanishing Riccati residual (up to the fixed numerical regularisation of the discrete recursion), '
  'and the returned gain is the optimal one in the documented sign convention and stabilises the closed loop. The finite-horizon LQR designer returns the dynamic-programming '
  'gains for the linearisation along the given trajectory.',
  ['inputs', 'configurations'],
  'all (A,B,Q,R[,N]) in the admissible class, all dimensions, direct and iterative methods',
  'Tests use one quadrotor matrix pair and only compare the two methods with each other.',
  [O+'lqr/'],
  [('Hamiltonian Schur decomposition', O+'lqr/riccati/CARE-impl.hpp'), ('Riccati iteration', O+'lqr/riccati/DARE-impl.hpp'), ('LQR gain', O+'lqr/LQR-impl.hpp'), ('finite horizon', O+'lqr/FHDTLQR-impl.hpp')],
  ['K, P outputs'])

p('C07', 'Cost function derivatives are the derivatives of the reported cost',
  'For every cost function composed of the toolbox terms, at every state, input and time, the reported first and second '
  'derivatives with respect to state and input (intermediate and terminal) are the true derivatives of the reported '
  'intermediate and terminal cost, with symmetric Hessians. Queries never change the outcome of later queries.',
  ['inputs', 'configurations', 'histories'],
  'all term types, weights, references, activations, points, and orders of queries',
  'Tests compare two implementations on a few random points of one composition with activations at their defaults.',
  [O+'costfunction/'],
  [('term value/gradient/Hessian code', O+'costfunction/term/'), ('summation over terms with activations', O+'costfunction/CostFunctionAnalytical-impl.hpp')],
  ['evaluateIntermediate/Terminal vs derivatives by differencing'])

p('C08', 'Cost functions compose, activate, track and load as specified',
  'The intermediate cost equals the sum of the individual term formulas, each scaled by its time activation at the query '
  'time, and the terminal cost equals the plain sum of the terminal terms, for the references currently set. Adding terms, updating weights or reference states/inputs, '
  'toggling time dependence, cloning, and loading the same terms from a configuration file all yield the cost obtained '
  'by direct computation.',
  ['inputs', 'configurations', 'histories'],
  'all term sets, activation windows, points, reference updates, and clone/load histories',
  'Only one configuration file and one activation path are exercised.',
  [O+'costfunction/', C+'math/'],
  [('term evaluation and activation', O+'costfunction/term/TermBase.hpp'), ('config loading', O+'costfunction/term/TermLoadMacros.hpp')],
  ['evaluateIntermediate, evaluateTerminal'])

p('C09', 'Constraint containers report values, bounds and Jacobians of their terms',
  'For any set of constraint terms, the intermediate and terminal constraint vectors, bounds, and violation '
  'measures are the concatenation of the individual terms in order of addition at the current state, input and time. '
  'Dense Jacobians are the true derivatives, and the sparse values with their row/column pattern reconstruct exactly '
  'the dense Jacobian.',
  ['inputs', 'configurations', 'histories'],
  'all constraint types and combinations, dense and sparse boxes, points, clones, and call orders',
  'Tests check a few hard-coded patterns; cross-consistency over all combinations is not covered.',
  [O+'constraint/'],
  [('concatenation and offsets', O+'constraint/ConstraintContainerAnalytical-impl.h'), ('sparsity patterns', O+'constraint/term/ConstraintBase-impl.h')],
  ['evaluate*, getLower/UpperBounds*, jacobian*, sparsityPattern*, violation queries'])

p('C10', 'Switched systems and constraints dispatch to the active phase',
  'For any phase sequence and any query time, the switched object behaves exactly as the phase-active element evaluated '
  'alone at the same time, including at switching instants and after arbitrary earlier queries. Phase sequences report '
  'start, end, total duration and active phase consistent with the phases added.',
  ['inputs', 'histories', 'configurations'],
  'all phase sequences (repeats, single phases), query times including the switch instants, and query histories',
  'Tests use one two- or three-phase sequence with interior query times.',
  [C+'switching/', C+'systems/continuous_time/SwitchedControlledSystem.h', C+'systems/discrete_time/SwitchedDiscreteControlledSystem.h', C+'systems/continuous_time/linear/SwitchedLinearSystem.h', O+'constraint/SwitchedLinearConstraintContainer-impl.h'],
  [('phase lookup', C+'switching/Switching.h'), ('dispatch', C+'systems/continuous_time/SwitchedControlledSystem.h')],
  ['dynamics, derivatives, controls, constraint values'])

p('C11', 'Kalman-type estimators compute the textbook posterior',
  'For every linear model the extended Kalman filter (and the unscented one, up to its use of the sigma points drawn at prediction) '
  'computes, step by step, the exact Kalman prediction and measurement update of estimate and covariance for the given noise settings, and the steady-state filter applies '
  'the steady-state gain of the same model at the given step and time. On nonlinear models the '
  'extended filter uses the linearisation at the current estimate; covariances stay symmetric and positive semidefinite.',
  ['inputs', 'histories'],
  'all models, noise covariances, initial conditions, measurement sequences, step sizes and times',
  'There is no stable test for the filters.',
  [O+'filter/'],
  [('predict/update', O+'filter/ExtendedKalmanFilter-impl.h'), ('unscented transform', O+'filter/UnscentedKalmanFilter-impl.h'), ('DARE gain', O+'filter/SteadyStateKalmanFilter-impl.h'), ('discretised model', O+'filter/CTSystemModel-impl.h')],
  ['getEstimate, getCovarianceMatrix'])

p('C12', 'MPC re-plans over the right horizon with correctly shifted policies',
  'At every cycle the MPC problem is solved over the horizon prescribed by its strategy (fixed final time never ends '
  'later than it, receding keeps the length, never below the minimum), up to rounding to the solver time step, from the state predicted at the '
  'policy start time, and the returned policy time stamp plus its grid cover that horizon. Warm starts '
  'are the previous policy shifted by the elapsed time and extended by holding its last value, never reading outside it.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of cycle times, delays, strategies, minimum horizons and policies',
  'The stable MPC test runs one scripted loop; horizon, delay and shift arithmetic over arbitrary histories is not checked.',
  [O+'mpc/'],
  [('time keeping', O+'mpc/timehorizon/MpcTimeHorizon-impl.h'), ('policy handling', O+'mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h'), ('cycle', O+'mpc/MPC-impl.h')],
  ['time horizon queries, policies, time stamps, initial states'])

p('C13', 'DMS transcribes the optimal control problem into a consistent NLP',
  'For every multiple-shooting transcription, the NLP objective and constraints equal the problem cost and defects '
  'of the decision variables, and the reported gradient and sparse Jacobian equal their true derivatives with a pattern that '
  'covers every nonzero. Results do not depend on the number of threads or on the order in which '
  'cost, gradient, constraints and Jacobian are queried.',
  ['inputs', 'configurations', 'histories', 'schedules'],
  'all decision vectors, spline types, integrators, cost evaluation types, shot counts, constraint sets, query orders and thread counts',
  'The solver tests only see converged solutions, where wrong derivatives merely slow convergence.',
  [O+'dms/', O+'nlp/'],
  [('shot integration and sensitivities', O+'dms/dms_core/ShotContainer.h'), ('sparse Jacobian assembly', O+'dms/constraints/'), ('cost gradients', O+'dms/dms_core/cost_evaluator/')],
  ['Nlp evaluate* interface'])

p('C14', 'Direct multiple shooting solutions are feasible and optimal for the problem',
  'When the multiple-shooting solver reports success, the returned trajectories start at the currently set initial state, '
  'satisfy the dynamics between nodes when integrated independently, respect all configured constraints and bounds, and lie on the '
  'configured time grid. This also holds after the initial state, horizon or initial guess has been changed and the '
  'problem is solved again.',
  ['inputs', 'configurations', 'histories'],
  'all problems, settings, and change/re-solve histories',
  'Tests solve one oscillator problem once and compare with loose bounds.',
  [O+'dms/dms_core/DmsSolver.h', O+'dms/dms_core/DmsProblem.h', O+'nlp/solver/'],
  [('NLP solve and extraction', O+'dms/dms_core/DmsSolver.h'), ('initial state constraint', O+'dms/constraints/InitStateConstraint.h')],
  ['DmsSolver::getSolution'])

p('C15', 'Integrators realise their scheme, reach the end time and report every step',
  'For every system, start time, step and step count the fixed-step integrators reproduce their Runge-Kutta/Euler scheme step by '
  'step, adaptive ones meet their tolerance, and each integration mode ends exactly at its nominal end time. Recorded state and '
  'time trajectories contain the initial point and every step in increasing time order, '
  'and event handlers see each step until one stops the integration.',
  ['inputs', 'configurations', 'histories'],
  'all systems, integration types, modes, steps, event handler sets and repeated use of one integrator',
  'Tests integrate a linear oscillator once per type and compare final values loosely.',
  [C+'integration/'],
  [('stepper selection and integrate_* loops', C+'integration/Integrator-impl.h'), ('own steppers', C+'integration/internal/'), ('observer', C+'integration/Observer-impl.h')],
  ['final states, recorded trajectories, event handler calls'])

p('C16', 'Discretisations and sensitivities are derivatives of the discrete map',
  'The sensitivity computed for a system over one discretisation interval equals the derivative of the '
  'discretised flow with respect to initial state and input (to the order of the chosen approximation, exactly where the '
  'scheme is exact), for controlled and symplectic systems and any substep count. The '
  'discretiser propagates exactly as the chosen integrator with the input held constant.',
  ['inputs', 'configurations'],
  'all systems, linearisation points, step sizes, substep numbers, approximation types and integrators',
  'Tests compare approximations on one oscillator with loose tolerances.',
  [C+'integration/sensitivity/', C+'systems/discrete_time/SystemDiscretizer-impl.h', C+'integration/EventHandlers/', C+'systems/continuous_time/linear/'],
  [('sensitivity integration', C+'integration/sensitivity/SensitivityIntegrator.h'), ('approximations', C+'integration/sensitivity/SensitivityApproximation.h'), ('discretisation', C+'systems/discrete_time/SystemDiscretizer-impl.h')],
  ['A,B matrices vs differencing the propagated state'])

p('C17', 'Symplectic integration follows its scheme and bounds energy drift',
  'Symplectic integrators advance position and velocity by the symplectic Euler / Runge-Kutta scheme with the control '
  'evaluated at the current state and time, preserving phase-space volume for separable systems and bounding '
  'energy error for conservative ones. Recorded trajectories contain every step with its own state and time.',
  ['inputs', 'configurations'],
  'all separable systems, controllers, step sizes and numbers',
  'The test integrates one oscillator for one setting.',
  [C+'integration/IntegratorSymplectic.h', C+'integration/IntegratorSymplectic-impl.h', C+'systems/continuous_time/SymplecticSystem.h'],
  [('symplectic stepping', C+'integration/IntegratorSymplectic-impl.h')],
  ['states and times per step'])

p('C18', 'Derivative engines and linearisers return true Jacobians',
  'Numerical and automatic differentiation of any function or system return its value, Jacobian and Hessian at the '
  'requested point to the accuracy of the method, independent of earlier evaluations. System linearisers (continuous and '
  'discrete, numerical and automatic) return the partial derivatives of the dynamics at the given state, input and time.',
  ['inputs', 'histories'],
  'all functions, dimensions, points, one- or two-sided differences, repeated evaluations and clones',
  'Most derivative tests need code generation and are not built; the others sample one system.',
  [C+'math/DerivativesNumDiff.h', C+'math/DerivativesCppad.h', C+'systems/linearizer/DynamicsLinearizerNumDiff.h', C+'systems/continuous_time/linear/SystemLinearizer.h', C+'systems/discrete_time/linear/DiscreteSystemLinearizer.h', C+'internal/autodiff/'],
  [('finite differencing', C+'systems/linearizer/DynamicsLinearizerNumDiff.h'), ('AD tapes', C+'math/DerivativesCppad.h')],
  ['jacobian(), hessian(), getDerivativeState/Control'])

p('C19', 'Trajectories, arrays and interpolation obey their definition for every history',
  'Evaluating a trajectory at any time gives the zero-order-hold or linear interpolant of its current samples (held '
  'constant outside), independent of previous evaluations and edits. Appending, erasing, resampling and '
  'element-wise arithmetic of arrays and trajectories change exactly the samples they name, leave operands intact, '
  'and keep time and data aligned.',
  ['inputs', 'histories'],
  'all sample grids, interpolation types, query sequences and edit sequences',
  'Tests query a monotone sequence of times on one uniform grid.',
  [C+'types/arrays/', C+'types/trajectories/', C+'common/Interpolation.h', C+'common/linspace.h'],
  [('index search with cached position', C+'common/Interpolation.h'), ('array arithmetic', C+'types/arrays/DiscreteArray.h'), ('trajectory editing', C+'types/trajectories/DiscreteTrajectoryBase.h')],
  ['eval, operator[], times, sizes'])

p('C20', 'Controllers compute their control law for every state, time and history',
  'State-feedback, constant, PID, step-input and trajectory-tracking controllers return exactly the value of their '
  'control law at the given state and time, within configured saturation limits, for the parameters currently set. Integral action '
  'accumulates the weighted error over the configured sampling time at each call, respects anti-windup limits, and restarts cleanly after reset.',
  ['inputs', 'histories', 'configurations'],
  'all parameters, set-points, call sequences, times and resets',
  'There are no stable tests for the controllers.',
  [C+'control/'],
  [('PID law', C+'control/continuous_time/siso/PIDController-impl.h'), ('state feedback', C+'control/StateFeedbackController-impl.h'), ('signals', C+'control/continuous_time/siso/')],
  ['computeControl'])

p('C21', 'Linear system models report the dynamics and analyses of their matrices',
  'Linear, time-invariant and second-order systems evaluate x\'=Ax+Bu, y=Cx+Du of the matrices currently set, in continuous and '
  'discrete time, and their controllability and observability answers agree with the rank of the standard Kalman matrices. Physical '
  'parametrisations (mass, spring, damper, gain) give the corresponding second-order equation of motion.',
  ['inputs', 'configurations'],
  'all system matrices, dimensions, parameters and points',
  'Only the second-order system has one test with one parametrisation.',
  [C+'systems/continuous_time/linear/LTISystem.h', C+'systems/discrete_time/linear/DiscreteLTISystem.h', C+'systems/continuous_time/SecondOrderSystem.h', C+'systems/continuous_time/linear/LinearSystem.h'],
  [('matrix assembly and rank', C+'systems/continuous_time/linear/LTISystem.h'), ('parameter conversion', C+'systems/continuous_time/SecondOrderSystem.h')],
  ['computeControlledDynamics, isControllable, isObservable'])

p('C22', 'Clones behave like the original and share no mutable state with it',
  'Cloning or copying any system, controller, cost function, constraint, phase sequence, linearizer or discretizer yields an '
  'object with identical outputs for all inputs at the time of cloning. Later changes to, or use or destruction of, either '
  'object never affect the other (constant objects handed in by the user may stay shared).',
  ['inputs', 'histories', 'schedules'],
  'all clonable objects, all operations applied to either side afterwards, any order of destruction',
  'Only cloning of two containers is asserted; solvers clone every ingredient per thread and per shot.',
  [C+'systems/', C+'control/', O+'costfunction/', O+'constraint/', C+'systems/discrete_time/SystemDiscretizer-impl.h'],
  [('copy constructors and clone()', C+'systems/continuous_time/ControlledSystem.h')],
  ['outputs of original and clone under interleaved operations', 'sanitizer reports'])

p('C23', 'Settings, cost parameters and matrices load from files as written',
  'Every settings structure (solver, line search, MPC, DMS, NLP, filter, activation, derivative settings) loaded from a configuration file takes exactly the values in the file, '
  'whatever the order of keys, and keeps its previous value where an optional key is absent. Matrices and scalars read from a file have the values and '
  'scaling written there, and settings are reported invalid exactly when one of their validity rules is broken.',
  ['inputs', 'configurations'],
  'all values of all settings fields and all matrix shapes and scalings',
  'Only one cost file and one solver file are loaded, and no field values are asserted.',
  [O+'solver/NLOptConSettings.hpp', O+'mpc/MpcSettings.h', O+'dms/dms_core/DmsSettings.h', O+'nlp/solver/NlpSolverSettings.h', C+'common/InfoFileParser.h', O+'filter/FilterSettings.h', C+'math/DerivativesCppadSettings.h'],
  [('load/save functions', O+'solver/NLOptConSettings.hpp'), ('matrix parser', C+'common/InfoFileParser.h')],
  ['fields after load'])

p('C24', 'The simulation thread integrates the loop correctly and shuts down cleanly',
  'For every schedule the closed-loop simulator runs simulation and control concurrently without data races or '
  'deadlock, ends after the requested duration or on request, and the simulated state evolves as the integrated controlled '
  'system over the elapsed simulation time under the controls issued.',
  ['schedules', 'inputs', 'configurations'],
  'all thread interleavings, start/stop/finish orders, time steps and durations',
  'There is no test of the simulator.',
  [C+'simulation/ControlSimulator.h', C+'integration/EventHandlers/KillIntegrationEventHandler.h'],
  [('simulation and control threads with shared state', C+'simulation/ControlSimulator.h')],
  ['state over time, thread sanitizer reports, progress'])

p('C25', 'Joint-space utilities: limits, wrapping, profiles and actuators are exact',
  'Joint-limit checks and angle wrapping are correct for every joint vector and tolerance. Point-to-point profiles '
  'start and end at rest at the requested positions within the velocity and acceleration limits, sampled on the requested grid. '
  'Actuator models, joint PID control and Jacobian singularity measures obey their defining equations.',
  ['inputs', 'configurations'],
  'all joint vectors, limits, tolerances, profiles, actuator parameters and Jacobians',
  'Seven hand-picked joint vectors are tested.',
  [R+'state/JointState.h', R+'common/SingleDOFTrajectoryGenerator.h', R+'common/SimpleArmTrajectoryGenerator.h', R+'robot/actuator/', R+'common/math/', R+'robot/control/'],
  [('limit/wrap logic', R+'state/JointState.h'), ('bang-coast-bang profile', R+'common/SingleDOFTrajectoryGenerator.h')],
  ['return values'])

p('C26', 'Shipped robot models, generated derivatives and kinematics are consistent',
  'For every shipped robot, transforms, Jacobians, forward and inverse dynamics and joint-space inertia are mutually consistent (inertia symmetric positive definite), '
  'the quadrotor obeys the Newton-Euler equations, and shipped linearisations and generated derivative code equal the derivatives of the dynamics. '
  'Every solution of the shipped analytic inverse kinematics reproduces the requested end-effector pose, and a pose generated by forward kinematics away from singular configurations has a solution equal to the generating joints up to wrapping.',
  ['inputs'],
  'all states, inputs and reachable poses',
  'No test of these parts is built here.',
  [M+'include/ct/models/', M+'src/Quadrotor/', M+'src/HyA/', M+'src/Irb4600/', 'ct_rbd/include/ct/external/', C+'internal/autodiff/CGHelpers.h'],
  [('generated code', M+'src/')],
  ['A,B matrices vs differencing', 'FK(IK(pose))'])

p('C27', 'Library code is free of memory errors and undefined behaviour',
  'For all valid use of the public interfaces, across all components, configurations and call orders, no out-of-bounds '
  'or use-after-free access, leak-inducing double free, null dereference, failed internal assertion or other undefined behaviour occurs, '
  'and no result depends on the contents of uninitialised memory. Invalid requests are rejected by an exception, not by corruption.',
  ['inputs', 'configurations', 'histories'],
  'all valid API uses, including boundary sizes (one step, one shot, one phase, empty sets)',
  'Tests run a release build without sanitizers on fixed inputs; silent overruns pass.',
  [C, O, R],
  [('indexing and ownership throughout', C)],
  ['AddressSanitizer / UndefinedBehaviorSanitizer / assertion reports, poisoned-memory NaN propagation'])

p('C28', 'Noise, signal and math helpers satisfy their defining relations',
  'Quantisation returns the nearest grid level within its resolution, Gaussian noise has the configured moments, and activation '
  'functions equal their defining formula with consistent derivatives and periodicity for every argument. Evenly spaced '
  'vectors, matrix inversion, plane and geometry helpers satisfy their defining equations.',
  ['inputs', 'configurations'],
  'all arguments and parameters',
  'Tests sample a handful of values.',
  [C+'common/', C+'common/activations/', C+'math/Inverses.h', C+'geometry/'],
  [('helper functions', C+'common/'), ('activations', C+'common/activations/')],
  ['return values'])
p('C29', 'User-defined nonlinear programs reach the NLP solver faithfully',
  'An Nlp assembled from user-written cost evaluators and discrete constraints reports the concatenated constraint values, bounds, sparse Jacobian and '
  'lower-triangular Hessian of the Lagrangian of those terms at the current variables, whatever the order of queries and updates. A solve reported successful '
  'leaves variables and multipliers that are feasible and satisfy the first-order optimality conditions to solver tolerance, also after the problem, bounds or start point changed '
  'or a warm start was prepared; when the iteration limit stops it early the solve is reported as failed.',
  ['inputs', 'histories', 'configurations'],
  'all problem sizes, sparsity patterns, multipliers, bounds and sequences of queries and re-solves',
  'Tests solve two fixed textbook programs and look at the solution only.',
  [O+'nlp/', O+'nlp/solver/IpoptSolver.h'],
  [('assembly of constraint terms', O+'nlp/DiscreteConstraintContainerBase.h'), ('NLP interface', O+'nlp/Nlp.h'), ('solver bridge', O+'nlp/solver/IpoptSolver.h')],
  ['getConstraintBounds/evaluateConstraintJacobian/getSparsityPatternHessian results', 'solution and multipliers'])
p('C30', 'Robot states, kinematics, dynamics and contact systems describe one rigid body',
  'For floating- and fixed-base robots, converting poses and states between Euler, quaternion, matrix and vector form never changes the motion they describe, whatever the storage type; '
  'end-effector positions, velocities, accelerations, Jacobians and force maps agree with differentiating the position along the motion; forward and inverse dynamics, external forces, '
  'contact-constrained projected dynamics, contact models and actuator models satisfy the equations of motion with constraint and force terms; the systems, linearizers, '
  'inverse-kinematics solvers, task-space costs and inverse-dynamics controllers built on them compute the same thing for every state, contact set, base pose, clone and call history.',
  ['inputs', 'histories', 'configurations'],
  'all base poses, joint states, velocities, contact sets and their switches, storage types, gains, external forces, clones',
  'Tests (not built here) compare a few random states between two code paths of the library.',
  ['ct_rbd/include/ct/rbd/state/', 'ct_rbd/include/ct/rbd/robot/', 'ct_rbd/include/ct/rbd/systems/', 'ct_rbd/include/ct/rbd/physics/'],
  [('poses and states', 'ct_rbd/include/ct/rbd/state/RigidBodyPose.h'), ('kinematics', 'ct_rbd/include/ct/rbd/robot/Kinematics.h'), ('dynamics', 'ct_rbd/include/ct/rbd/robot/Dynamics.h'),
   ('contact constraints', 'ct_rbd/include/ct/rbd/robot/ProjectedDynamics.h'), ('systems', 'ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h')],
  ['pose/state conversions', 'end-effector positions, velocities, forces', 'accelerations and torques', 'system derivatives and linearisations'])
for q in P:
    assert len(q['title'])<=80, (q['id'], len(q['title']))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
