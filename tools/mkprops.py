#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

S = "solver/src/solver/"; SI = "solver/include/solver/"
prop("C01", "The conic solver's verdict and returned data are truthful",
 "Whenever the interior-point solver reports an optimum of min c'x s.t. Ax=b, Gx+s=h, s in a product of a nonnegative orthant and second-order cones, the returned point satisfies every constraint to the solver's tolerance, and its objective value, as computed from x and as reported, is the true optimal value to that tolerance; the returned dual variables certify it. It reports primal (dual) infeasibility only for programs that are infeasible (unbounded), and a small well-posed program always gets the conclusive verdict that is true of it. This holds for every mix of equality, linear-inequality and cone blocks, with or without equilibration, on first and repeated solves, and inexact exit codes are never used for a point that violates the inexact tolerance.",
 ["inputs", "histories", "configurations"],
 "Every conic program (problem data, cone structure, scaling) and every sequence of solves on one solver object, with and without warm start.",
 "No running test touches the interior-point solver at all; the disabled test compares 18 recorded solutions only. Truthfulness of a verdict quantifies over all programs, including infeasible and unbounded ones.",
 [S+"optimizer/IPSolver.cpp", S+"optimizer/LinSolver.cpp", S+"optimizer/SparseCholesky.cpp", S+"optimizer/EqRoutine.cpp", S+"interface/Cone.cpp", SI+"interface/Cone.hpp"],
 [("convergence and infeasibility tests", S+"optimizer/IPSolver.cpp: convergenceCheck, computeResiduals, updateStatistics"),
  ("Nesterov-Todd scaling and cone line search", S+"interface/Cone.cpp; IPSolver::lineSearch"),
  ("equilibration and its inverse", S+"optimizer/EqRoutine.cpp"),
  ("KKT assembly and regularised LDL", S+"optimizer/LinSolver.cpp, SparseCholesky.cpp")],
 observe=["InteriorPointSolver::optimize exit code", "optimalVector x,y,z,s", "OptimizationInfo costs"])

prop("C02", "The modelling layer solves exactly the program that was written",
 "For every program written with the modelling interface (continuous variables with guesses; affine objective plus squared-term objectives; <=, =, >= affine constraints; convex quadratic <= constraints; second-order-cone constraints), an optimal exit returns values that satisfy every constraint as written and attain the minimum of the objective as written, readable through every variable handle; infeasible programs are reported infeasible. Affine and quadratic expressions built with the expression operators evaluate, at every assignment of their variables, to the algebraic value of the formula that built them. Adding the same constraints or terms in another order, splitting a coefficient over repeated terms or scaling a constraint by a positive factor does not change the answer.",
 ["programs", "inputs", "histories"],
 "Every finite sequence of modelling calls (variables, constraints, objectives, expression operations) and every re-optimisation of the resulting model.",
 "No running test builds a model through this interface; a handful of fixed models could not cover the row ordering and sign conventions over all mixes of constraint kinds.",
 [S+"interface/ConicProblem.cpp", S+"interface/Exprs.cpp", SI+"interface/Exprs.hpp", S+"interface/Var.cpp", S+"interface/Model.cpp", SI+"interface/Model.hpp"],
 [("translation to standard conic form, row bookkeeping", S+"interface/ConicProblem.cpp"),
  ("expression operators", S+"interface/Exprs.cpp"),
  ("variable state", S+"interface/Var.cpp")],
 observe=["Model::optimize exit code", "Var::get(SolverDoubleParam_X)", "LinExpr::getValue"])

prop("C03", "Programs with binary variables are solved to global optimality",
 "For every small convex program with binary variables, an optimal exit gives every binary variable the value 0 or 1 (to the integrality tolerance), satisfies all constraints, and has an objective value equal to the minimum over all 0/1 assignments up to the configured optimality gap. If no 0/1 assignment is feasible the exit code is not an optimal one.",
 ["inputs", "programs"],
 "Every mixed-binary program: binary variables, continuous variables, couplings, objectives.",
 "Branch and bound is exercised by no running test; global optimality is a statement over all 2^n assignments of every program.",
 [S+"optimizer/BnBSolver.cpp", S+"interface/ConicProblem.cpp", S+"optimizer/IPSolver.cpp"],
 [("branching, bounding, pruning, incumbent", S+"optimizer/BnBSolver.cpp"),
  ("binary rows of the standard form", S+"interface/ConicProblem.cpp")],
 observe=["exit code", "optimalVector x", "Var values"])

prop("C04", "L-BFGS returns a consistent, never-worse, truly stationary result",
 "For every objective, starting point and valid setting, the returned value is the objective at the returned point and is never above the objective at the starting point; every accepted iterate satisfies the sufficient-decrease (and, where chosen, curvature) conditions of the configured line search, and the progress reported to the user describes that iterate. A 'converged' code is returned only when the returned point meets the configured gradient or decrease criterion, and the run ends as soon as an accepted iterate meets one; invalid settings are rejected with their own error code and leave the point untouched, a user stop request ends the run at once, and the iteration and line-search limits are never exceeded. Minimisation of a smooth function that is bounded below terminates even without an iteration limit, smooth convex functions are minimised with the default settings, and the penalty form of a constrained program is reported with its own value.",
 ["inputs", "configurations", "histories"],
 "Every objective callback (smooth, piecewise, discontinuous and adversarial ones with finite values), start, memory size, line-search choice and iteration limit.",
 "Three tests minimise three smooth functions with default settings; line-search failure, limits, orthant-wise mode, error codes and stop requests are never reached.",
 [S+"optimizer/LbfgsSolver.cpp", SI+"optimizer/LbfgsSolver.hpp"],
 [("two-loop recursion and iteration", S+"optimizer/LbfgsSolver.cpp"),
  ("line searches", S+"optimizer/LbfgsSolver.cpp: MoreThuente, backtracking, OWL-QN"),
  ("parameter validation", S+"optimizer/LbfgsSolver.cpp")],
 observe=["evaluation and progress callbacks", "return code, x, fx"])

prop("C05", "The active-set QP solver returns the constrained minimiser",
 "For every strictly convex quadratic program with linear equalities and inequalities, the solver returns the unique minimiser and reports success when the program is feasible, and reports failure when it is infeasible. The answer depends only on the program: it does not depend on the order of the constraints, on redundant constraints, or on programs solved earlier with the same object.",
 ["inputs", "histories"],
 "Every strictly convex QP (Hessian, gradient, equality and inequality rows, including redundant, degenerate and infeasible sets) and every sequence of QPs on one solver object.",
 "The existing tests reach the QP solver only inside three fixed hierarchical problems with random data; degenerate, redundant and infeasible active sets are not sampled.",
 [SI+"rt_optimizer/RtQPSolver.hpp", SI+"rt_optimizer/RtQPSolverInterface.hpp"],
 [("Goldfarb-Idnani dual active set", SI+"rt_optimizer/RtQPSolver.hpp"),
  ("inequality set assembly and slack", SI+"rt_optimizer/RtQPSolverInterface.hpp")],
 observe=["optimize return value and x"])

prop("C06", "Hierarchical QP respects strict priorities",
 "For every stack of ranks of linear equalities and inequalities, the solution minimises the squared violation of the first rank, then of the second among all minimisers of the first, and so on: no later rank ever increases the optimal violation of an earlier one, and where feasible each rank is met exactly. The result does not depend on how the solver was used before (other problems, other sizes of ranks), within its configured maximum dimensions.",
 ["inputs", "histories"],
 "Every hierarchy (number of ranks, rows, conflicts between and within ranks, empty ranks) and every sequence of hierarchies solved with one object.",
 "Three tests compare five fixed-size random hierarchies; conflicting ranks, dependent rows, empty ranks and object reuse are not sampled.",
 [SI+"rt_optimizer/RtHQPSolver.hpp", SI+"rt_optimizer/RtHQPSolver.h", SI+"rt_optimizer/RtMatrix.hpp", SI+"rt_optimizer/RtQPSolverInterface.hpp"],
 [("null-space cascade", SI+"rt_optimizer/RtHQPSolver.hpp"), ("slack propagation of earlier inequalities", SI+"rt_optimizer/RtHQPSolver.hpp")],
 observe=["HQP solution vector", "per-rank violation"])

prop("C07", "The hierarchical solver's background decomposition hand-off is safe",
 "Under every interleaving of the solver thread and its background null-space thread, each rank is solved with the null space computed from exactly that rank's matrices (never a stale or half-written one), the two threads never deadlock or lose a wake-up, and destroying the solver joins the background thread whether or not a computation is pending.",
 ["schedules", "histories"],
 "Every interleaving of the two threads at lock, wait, notify and spurious wake-up points, over construction, repeated solves and destruction.",
 "The tests run whatever schedule the operating system happens to produce; lost wake-ups and stale reads need specific interleavings and spurious wake-ups.",
 [SI+"rt_optimizer/RtHQPSolver.hpp", SI+"rt_optimizer/RtHQPSolver.h", SI+"rt_optimizer/RtMutex.hpp"],
 [("mutex, two condition variables, computed flag", SI+"rt_optimizer/RtHQPSolver.hpp")],
 observe=["lock/wait/notify calls (through the thread library's headers)", "HQP result"])

prop("C08", "Decision-variable blocks are laid out without gaps or overlap",
 "Any sequence of variable-block declarations assigns every (block, row, column) element its own index, the indices of all blocks together are exactly 0..N-1 in declaration order, out-of-range addresses are resolved to the nearest element of the same block, and writing a guess for or reading the solution of a block touches exactly that block's elements.",
 ["programs", "inputs"],
 "Every sequence of declarations (shapes, types, bounds) and every address.",
 "No test covers it; a bijection claim quantifies over every shape and address.",
 [S+"interface/OptVar.cpp", SI+"interface/OptVar.hpp"],
 [("index arithmetic", S+"interface/OptVar.cpp")],
 observe=["OptimizationVariable::id, setGuessValue/getGuessValue"])

prop("C09", "Every configuration value is delivered unchanged to the code that uses it",
 "After loading a planner, conic-solver or trajectory-optimiser configuration, every parameter read through the settings interface equals the value written in the file (or the documented value derived from it, such as the number of time steps and mass times gravity), every parameter set through the interface reads back as set, and no other parameter changes. Asking for or setting a parameter that does not exist is rejected, and a file lacking a required entry is rejected or reported.",
 ["configurations", "histories"],
 "Every configuration file and every sequence of set and get operations over all parameters.",
 "No running test loads a configuration; about two hundred hand-written name/field/type mappings each need checking against all the others.",
 ["momentumopt/src/momentumopt/setting/PlannerSetting.cpp", "momentumopt/include/momentumopt/setting/PlannerSetting.hpp", S+"interface/SolverSetting.cpp", "solver_lqr/src/solver_lqr/SolverLqrSetting.cpp"],
 [("initialize / get / set switch statements", "the three Setting classes")],
 observe=["get/set of every enumerator"])

prop("C10", "The contact schedule activates exactly the planned feet at planned times",
 "For every contact plan and discretisation, a foot is active at a time step if and only if that step's time lies in one of the foot's planned [start, end) intervals, with that contact's identity, position, orientation, type and terrain; simultaneously nothing else is active, and activation numbers count the active (foot, step) pairs without gaps. Contacts, viapoints and terrain regions read from a plan file equal what the file says, and regions contain exactly the points on or inside their boundary, with a unit normal, a proper rotation whose third axis is normal to the region, and the orientation of that rotation.",
 ["configurations", "inputs"],
 "Every plan file (feet, intervals, touching and separated contacts), time step and horizon.",
 "No running test covers contact handling; interval boundaries and interleavings of feet need all combinations.",
 ["momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp", "momentumopt/src/momentumopt/cntopt/ContactPlanFromFile.cpp", "momentumopt/src/momentumopt/cntopt/ContactState.cpp", "momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp", "momentumopt/src/momentumopt/dynopt/DynamicsState.cpp"],
 [("activation test per step", "momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp: fillDynamicsSequence"),
  ("plan parsing", "momentumopt/src/momentumopt/cntopt/ContactState.cpp: loadFromFile")],
 observe=["DynamicsState endeffector fields"])

prop("C11", "Planner trajectories interpolate their via points smoothly and exactly",
 "The planner's C++ trajectory generator produces, for every set of via points, a curve that passes through each via point at its time, is continuous in position and velocity, starts and ends at rest, and stays at its end points outside its time span; swing-foot references built from a contact plan put an active foot exactly at its contact and move it between consecutive contacts within the flight phase only.",
 ["inputs", "configurations"],
 "Every number, spacing and value of via points, every evaluation time, every contact plan.",
 "No test evaluates a trajectory; boundary times and flight phases touching the ends of the horizon need systematic enumeration.",
 ["momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp", "momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp", "momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp"],
 [("polynomial interpolation", "momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp")],
 observe=["evaluated positions, velocities, accelerations", "endeffector references"])

prop("C12", "The planned centroidal motion obeys the Newton-Euler equations",
 "Every optimal plan satisfies, at every time step and within solver tolerance, the discretised centroidal dynamics it was built from: the centre of mass moves with linear momentum over mass, the momentum rate is gravity plus the sum of planned contact forces and external forces, and the angular momentum rate is the moment of the planned forces at their points of application (plus contact torques); the initial state and the commanded external forces enter at the right steps. The plan's stored states are the optimiser's solution, step by step, without shift or omission.",
 ["inputs", "configurations"],
 "Every initial state, contact schedule, weights, time step, heuristic and number of end effectors.",
 "No running test plans a motion; a discretisation slip is invisible in any test that only checks that the plan looks sensible.",
 ["momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp", "momentumopt/include/momentumopt/dynopt/DynamicsOptimizer.hpp", "momentumopt/src/momentumopt/dynopt/DynamicsState.cpp"],
 [("dynamics constraints", "momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp: internalOptimize"), ("storeSolution", "momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp")],
 observe=["DynamicsSequence after optimize"])

prop("C13", "Planned contact forces, centres of pressure and reach stay within limits",
 "In every optimal plan a foot exerts force and torque only while it is active, every active contact's force in its contact frame pushes and lies inside its friction cone, its centre of pressure lies inside the configured support region, its yaw torque within the configured range, and the centre of mass stays within the configured reach of every active foot. All limits hold to solver tolerance, in the frame of the contact surface for flat and inclined contacts.",
 ["inputs", "configurations"],
 "Every contact orientation and type, friction coefficient, support region, torque range, reach and initial state.",
 "No running test plans a motion; limits only bite in particular configurations.",
 ["momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp"],
 [("friction cone, cop, torque and length constraints", "momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp: internalOptimize")],
 observe=["DynamicsSequence endeffector forces, cops, torques"])

prop("C14", "The trajectory optimiser only accepts improving steps and reports honestly",
 "In every run of the iterative LQR solver on every problem, the cost never increases from one accepted iterate to the next, the returned cost is the cost of the returned trajectory, and the returned trajectory is the roll-out of the returned controls through the problem's own dynamics from the initial state, within the control limits when these are enabled. The regularisation rises after a rejected step or failed backward pass and falls after an accepted one (below its minimum it is switched off; beyond its maximum the run gives up), and the run stops within the iteration limit with a status that matches why it stopped. This holds for a solver used again for the same or another problem, and a stored solution is the returned one.",
 ["inputs", "configurations", "histories"],
 "Every dynamics and cost (linear, nonlinear, non-convex), initial guess, limits and setting.",
 "Not built by the test run at all; acceptance logic is a state machine whose branches depend on cost histories.",
 ["solver_lqr/src/solver_lqr/SolverLqr.cpp", "solver_lqr/src/solver_lqr/ForwardPass.cpp", "solver_lqr/src/solver_lqr/OcpDescription.cpp"],
 [("accept/reject and regularisation schedule", "solver_lqr/src/solver_lqr/SolverLqr.cpp"), ("roll-out", "solver_lqr/src/solver_lqr/ForwardPass.cpp")],
 observe=["user problem callbacks (dynamics, objective)", "trajectory and exit code"])

prop("C15", "On linear-quadratic problems the backward pass gives the optimal policy",
 "For every linear-quadratic problem the trajectory optimiser returns the optimal control sequence and the feedback gains of the discrete Riccati recursion with the configured regularisation, including time-varying dynamics and costs, cross terms and terminal cost; derivatives obtained by finite differences equal the true ones to discretisation accuracy, on nonlinear problems too. A step taken applies the (possibly shortened) feedforward and the feedback on the deviation of the new roll-out. With control limits the step solves the limited quadratic problem, the returned controls are inside the limits and feedback on a saturated control is zero.",
 ["inputs", "configurations"],
 "Every horizon, dimension, system and cost matrices, start state, limits.",
 "Not built by the test run; an index slip by one time step or a missing transpose only shows against an independent solution.",
 ["solver_lqr/src/solver_lqr/BackwardPass.cpp", "solver_lqr/src/solver_lqr/FiniteDifferences.cpp", "solver_lqr/src/solver_lqr/SolverLqr.cpp"],
 [("Riccati recursion", "solver_lqr/src/solver_lqr/BackwardPass.cpp"), ("finite differences", "solver_lqr/src/solver_lqr/FiniteDifferences.cpp")],
 observe=["feedforward, feedback, states, controls after optimize"])

prop("C16", "Rotation conversions and differences form a consistent algebra",
 "For every rotation, converting between quaternion, matrix and rotation vector and back gives the same rotation; composition, conjugation and inverse agree with rotation matrices; the difference of two orientations integrates the first exactly into the second and is the shortest one; integrating zero leaves an orientation unchanged; matrices of angular-velocity transforms agree with the rotations they are built from. This holds in the C++ planner utilities and in the Python controller utilities, for both signs of a quaternion, and near zero and half-turn rotations.",
 ["inputs"],
 "Every pair of orientations and angular velocities, including identical, opposite-sign, and half-turn pairs.",
 "The Python tests sample a few rotations; the C++ utilities have no test. Sign and branch errors appear only for particular octants and angles.",
 ["momentumopt/src/momentumopt/utilities/OrientationUtils.cpp", "momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py"],
 [("quaternion product/log/exp matrices", "momentumopt/src/momentumopt/utilities/OrientationUtils.cpp"), ("quaternion utilities", "momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py")],
 observe=["utility function results"])

prop("C17", "Kinematic and dynamic optimisation alternate in lockstep",
 "For every number of alternations, the planner runs contact planning and one dynamics optimisation first, and then each alternation runs kinematics on the latest dynamics plan followed by dynamics tracking the latest kinematic momenta, with iteration numbers and tracking flags that match; the plan handed out is that of the last dynamics optimisation, and the feedback controller is computed after it exactly when requested. Time stamps of the plan are the cumulative sums of the steps' durations.",
 ["configurations", "histories"],
 "Every iteration count, with and without feedback controller, every dt sequence.",
 "The planner driver is imported by no running test.",
 ["momentumopt/python/momentumopt/motion_planner.py", "momentumopt/python/momentumopt/kino_dyn_planner.py"],
 [("optimize_motion", "momentumopt/python/momentumopt/motion_planner.py")],
 observe=["order and arguments of optimiser calls", "returned sequences"])

prop("C18", "Python foot references follow the planned contacts",
 "For every contact schedule of the dynamics plan, each foot's reference equals the planned contact position with zero velocity at every step it is in contact, moves between consecutive contact positions during the flight phase between them passing the configured clearance above the ground at the middle, and its contact flag equals the plan's. This includes feet that never lift, feet that start in flight, and contacts lasting until the end of the horizon; polynomials meet all their position, velocity and acceleration conditions.",
 ["inputs", "configurations"],
 "Every per-foot activation pattern over the horizon, positions, clearance and time step.",
 "No running test covers the kinematics references; activation patterns at the horizon ends are the failing ones.",
 ["momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py", "momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py"],
 [("contact extraction and swing generation", "momentum_kinematics_optimizer.py: EndeffectorTrajectoryGenerator"), ("polynomials", "min_jerk_traj.py")],
 observe=["returned position, velocity and contact arrays"])

prop("C19", "Resampling and export of a plan preserve it",
 "Every desired state produced for execution equals the plan's value at plan times, lies on the segment between the two neighbouring plan values in between, and holds the end values outside the plan; exported files contain one row per control tick with time advancing by the tick, with each joint, contact flag, force and gain of the plan in its own column in the robot's leg order.",
 ["inputs", "configurations"],
 "Every plan, query time and export option.",
 "No running test covers it; off-by-one and column swaps need recognisable values in every field.",
 ["momentumopt/python/momentumopt/motion_execution.py", "momentumopt/python/momentumopt/kinoptpy/create_data_file.py"],
 [("interpolation", "motion_execution.py: desired_state, interpolate"), ("export", "create_data_file.py")],
 observe=["interpolated vectors", "written files"])

prop("C20", "Inverse kinematics returns the weighted least-squares velocity",
 "For every robot state, set of desired momentum, foot and posture velocities and weights, the inverse-kinematics step returns the joint velocity that minimises the weighted squared tracking error (with its small regularisation), using contact weights for feet in contact and swing weights otherwise, and in a flight phase it additionally achieves the desired centroidal momentum exactly. Each desired quantity is tracked by the rows of its own foot or joint. The second-order variant does the same for accelerations, with feedback on the current motion and the drift of the moving robot taken into account.",
 ["inputs", "configurations"],
 "Every configuration, contact pattern, weights and references.",
 "No running test calls it.",
 ["momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py", "momentumopt/python/momentumopt/kinoptpy/second_order_ik.py", "momentumopt/python/momentumopt/kinoptpy/qp.py"],
 [("Jacobian and reference stacking", "inverse_kinematics.py"), ("quadprog wrapper", "qp.py")],
 observe=["compute() result", "step() result"])

prop("C21", "The Python centroidal LQR differentiates and weighs its own dynamics correctly",
 "For every plan the centroidal LQR's state difference, roll-out, cost and their derivatives are mutually consistent: integrating a difference reproduces the state, dynamics derivatives equal the derivative of the roll-out it uses, cost derivatives equal those of the cost it uses, and the computed gains are those of the Riccati recursion for these derivatives, minimising the quadratic model. Each plan entry (com, momenta, base motion, forces) lands in its own slot of the reference vectors.",
 ["inputs"],
 "Every plan, horizon and weight.",
 "Tests compare a few entries at one random point and mostly check shapes; a sign error in the dynamics derivatives is compatible with them.",
 ["momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py"],
 [("integrate, diff, derivatives, compute_gains", "lqr_gain_manifold.py")],
 observe=["CentroidalLqr public methods"])

prop("C22", "The momentum feedback law is the Riccati solution for the planned contacts",
 "For every contact schedule and plan, the gains computed for the centroidal feedback controller are the finite-horizon discrete Riccati gains of the centroidal dynamics, linearised along the motion that the planned forces at the planned contact positions produce from the initial state, for the configured weights on forces and on deviations from the planned centre of mass and momenta; there is one gain per time step and none for feet without contact. Asking for a gain outside the horizon returns that of the nearest step, computing the law again for another plan does not depend on the earlier one, and a plan of another length than the problem is refused.",
 ["inputs", "configurations"],
 "Every contact schedule, plan, weights and requested time.",
 "Not built by the test run.",
 ["momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp", "momentumopt/include/momentumopt/dynopt/DynamicsFeedback.hpp"],
 [("centroidal dynamics and objective", "momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp")],
 observe=["forceGain"])

prop("C23", "The kinematic plan follows the dynamic plan step by step",
 "For every robot, dynamic plan, contact pattern and weights, the kinematic optimiser starts from its initial posture (which puts the centre of mass and the feet where the initial state has them), and every next velocity is the inverse-kinematics answer to the references of that very step: planned centre of mass, momenta (plus the base-orientation correction), foot references and contacts, and the pull towards the joint and base via points; in steps without contact the momentum follows free fall from the last step with contact, or from the initial state. The posture advances along that velocity for exactly one time step, also through the inner steps of the second-order variant. Every stored state (centre of mass, momenta, foot and hip positions and velocities, joints) describes its own posture and velocity, and the dynamic plan itself is left unchanged.",
 ["inputs", "configurations", "histories"],
 "Every robot, plan, contact and flight pattern, via points, weights and sequence of plans.",
 "No running test calls it (it needs robot models that are not part of the repository).",
 ["momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py", "momentumopt/python/momentumopt/kinoptpy/second_order_ik.py", "momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py"],
 [("optimize, optimize_initial_position, fill_kinematic_result", "momentum_kinematics_optimizer.py"), ("solve", "second_order_ik.py")],
 observe=["kinematics_sequence", "motion_eff"])

prop("C24", "Python names stand for the C++ quantities they name",
 "For every state, contact, sequence, setting and kinematics interface the Python modules expose, each Python name stands for the C++ quantity of that name: a value stored through the name is read back from it and is what C++ sees in that quantity, and no other quantity changes; what C++ stores is what Python reads. A state stored in a sequence is a copy; an element or part taken out of a sequence or state is the element itself and stays valid. Enumerations and setting names select the C++ parameter of the same name. A kinematics interface implemented in Python receives the arguments of the C++ call in their places, and what it writes reaches the C++ caller.",
 ["inputs", "histories"],
 "Every quantity, value and order of reads and writes from both languages.",
 "No running test imports the planner's Python module (it was not even importable).",
 ["momentumopt/srcpy/momentumopt/setting/PySetting.cpp", "momentumopt/srcpy/momentumopt/setting/PyParams.cpp", "momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp", "momentumopt/srcpy/momentumopt/cntopt/PyTerrain.cpp", "momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp", "momentumopt/srcpy/momentumopt/kinopt/PyKinematics.cpp"],
 [("init_dynamics", "PyDynamics.cpp"), ("trampoline of KinematicsInterface", "PyKinematics.cpp")],
 observe=["pymomentum"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
