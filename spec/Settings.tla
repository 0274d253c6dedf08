------------------------------ MODULE Settings ------------------------------
(* The three configuration classes as one state machine.  A class is a table  *)
(* of parameters: the name it is asked for, the entry of the file it comes    *)
(* from, its type, and the condition under which the entry is required and    *)
(* read.  The state maps every parameter to the value that a read must        *)
(* return: "?" while nothing is known of it, "!" where the request must be    *)
(* rejected.  Real numbers are in thousandths.                                *)
EXTENDS Integers, Sequences, TLC

\* rows  <<name, file entry, type, condition>>
PlannerRows == <<
  <<"int:NumDofs", "num_dofs", "int", "kin">>,
  <<"int:KinDynIterations", "kd_iterations", "int", "kin">>,
  <<"int:NumSubsamples", "num_subsamples", "int", "kin">>,
  <<"int:MaxKinTrajectoryIterations", "max_trajectory_iters", "int", "kin">>,
  <<"int:MaxKinConvergenceIterations", "max_convergence_iters", "int", "kin">>,
  <<"int:NumViapoints", "num_com_viapoints", "int", "">>,
  <<"int:NumActiveEndeffectors", "n_act_eefs", "int", "">>,
  <<"int:MaxNumTimeIterations", "max_time_iterations", "int", "time">>,
  <<"int:NumJointViapoints", "num_joint_viapoints", "int", "ik1">>,
  <<"int:NumBaseViapoints", "num_base_viapoints", "int", "ik1">>,
  <<"int:NumJointViapoints_Second", "num_joint_viapoints_second", "int", "ik2">>,
  <<"int:NumBaseViapoints_Second", "num_base_viapoints_second", "int", "ik2">>,
  <<"bool:IsTimeHorizonFixed", "is_time_horizon_fixed", "bool", "time">>,
  <<"bool:DisplayMotion", "display_motion", "bool", "kin">>,
  <<"bool:LoadKinematics", "load_kinematics", "bool", "">>,
  <<"bool:StoreData", "store_data", "bool", "">>,
  <<"bool:UseDefaultSolverSetting", "use_default_solver_setting", "bool", "">>,
  <<"bool:UseSecondOrderInverseKinematics", "use_second_order_inv_kin", "bool", "kin">>,
  <<"dbl:Gravity", "gravity", "dbl", "">>,
  <<"dbl:TimeStep", "time_step", "dbl", "">>,
  <<"dbl:RobotMass", "robot_mass", "dbl", "">>,
  <<"dbl:TimeHorizon", "time_horizon", "dbl", "">>,
  <<"dbl:MinRelHeight", "min_rel_height", "dbl", "">>,
  <<"dbl:FrictionCoefficient", "friction_coeff", "dbl", "">>,
  <<"dbl:MaxTimeResidualTolerance", "max_time_residual_tolerance", "dbl", "time">>,
  <<"dbl:MinTimeResidualImprovement", "min_time_residual_improvement", "dbl", "time">>,
  <<"dbl:WeightArmTorque", "w_trq_arm", "dbl", "">>,
  <<"dbl:WeightLegTorque", "w_trq_leg", "dbl", "">>,
  <<"dbl:WeightTimePenalty", "w_time_penalty", "dbl", "time">>,
  <<"dbl:WeightTimeRegularization", "w_time", "dbl", "time">>,
  <<"dbl:FloorHeight", "floor_height", "dbl", "">>,
  <<"dbl:KinSlacksPenalty", "slacks_penalty", "dbl", "kin">>,
  <<"dbl:KinIntegrationStep", "integration_step", "dbl", "kin">>,
  <<"dbl:LambdaRegularization", "lambda_regularization", "dbl", "kin">>,
  <<"dbl:KinConvergenceTolerance", "convergence_tolerance", "dbl", "kin">>,
  <<"dbl:SwingTrajViaZ", "swing_traj_via_z", "dbl", "ik1">>,
  <<"dbl:WeightLinMomentumTracking", "w_lin_mom_tracking", "dbl", "ik1">>,
  <<"dbl:WeightAngMomentumTracking", "w_ang_mom_tracking", "dbl", "ik1">>,
  <<"dbl:WeightEndEffContact", "w_endeff_contact", "dbl", "ik1">>,
  <<"dbl:WeightEndEffTracking", "w_endeff_tracking", "dbl", "ik1">>,
  <<"dbl:PGainEndEffTracking", "p_endeff_tracking", "dbl", "ik1">>,
  <<"dbl:PGainComTracking", "p_com_tracking", "dbl", "ik1">>,
  <<"dbl:WeightJointReg", "w_joint_regularization", "dbl", "ik1">>,
  <<"dbl:PGainOrientationTracking", "reg_orientation", "dbl", "ik1">>,
  <<"dbl:PGainPositionTracking", "reg_joint_position", "dbl", "ik1">>,
  <<"dbl:SwingTrajViaZ_Second", "swing_traj_via_z_second", "dbl", "ik2">>,
  <<"dbl:WeightLinMomentumTracking_Second", "w_lin_mom_tracking_second", "dbl", "ik2">>,
  <<"dbl:WeightAngMomentumTracking_Second", "w_ang_mom_tracking_second", "dbl", "ik2">>,
  <<"dbl:WeightEndEffContact_Second", "w_endeff_contact_second", "dbl", "ik2">>,
  <<"dbl:WeightEndEffTracking_Second", "w_endeff_tracking_second", "dbl", "ik2">>,
  <<"dbl:PGainEndEffTracking_Second", "p_endeff_tracking_second", "dbl", "ik2">>,
  <<"dbl:PGainComTracking_Second", "p_com_tracking_second", "dbl", "ik2">>,
  <<"dbl:WeightJointReg_Second", "w_joint_regularization_second", "dbl", "ik2">>,
  <<"dbl:DGainEndEffTracking_Second", "d_endeff_tracking_second", "dbl", "ik2">>,
  <<"dbl:PGainBaseOrientationTracking_Second", "p_orient_tracking_second", "dbl", "ik2">>,
  <<"dbl:DGainBaseOrientationTracking_Second", "d_orient_tracking_second", "dbl", "ik2">>,
  <<"dbl:PGainJointRegularization_Second", "p_joint_regularization_second", "dbl", "ik2">>,
  <<"dbl:DGainJointRegularization_Second", "d_joint_regularization_second", "dbl", "ik2">>,
  <<"ivec:ActiveDofs", "active_dofs", "ivec", "kin">>,
  <<"vec:TimeRange", "time_range", "v2", "time">>,
  <<"vec:TorqueRange", "torque_range", "v2", "">>,
  <<"vec:ExternalForce", "external_force", "v3", "">>,
  <<"vec:CenterOfMassMotion", "com_displacement", "v3", "">>,
  <<"vec:MaxEndeffectorLengths", "max_eef_lengths", "v4", "">>,
  <<"vec:WeightArmForce", "w_frc_arm", "v3", "">>,
  <<"vec:WeightLegForce", "w_frc_leg", "v3", "">>,
  <<"vec:WeightArmForceRate", "w_dfrc_arm", "v3", "">>,
  <<"vec:WeightLegForceRate", "w_dfrc_leg", "v3", "">>,
  <<"vec:WeightCenterOfMass", "w_com", "v3", "">>,
  <<"vec:WeightLinearMomentum", "w_lmom", "v3", "">>,
  <<"vec:WeightAngularMomentum", "w_amom", "v3", "">>,
  <<"vec:WeightLinearMomentumRate", "w_lmomd", "v3", "">>,
  <<"vec:WeightAngularMomentumRate", "w_amomd", "v3", "">>,
  <<"vec:WeightFinalLinearMomentum", "w_lmom_final", "v3", "">>,
  <<"vec:WeightCenterOfMassViapoint", "w_com_via", "v3", "">>,
  <<"vec:WeightFinalAngularMomentum", "w_amom_final", "v3", "">>,
  <<"vec:WeightDynamicTrackingCenterOfMass", "w_com_track", "v3", "">>,
  <<"vec:WeightDynamicTrackingLinearMomentum", "w_lmom_track", "v3", "">>,
  <<"vec:WeightDynamicTrackingAngularMomentum", "w_amom_track", "v3", "">>,
  <<"vec:MinJointAngles", "min_joint_limits", "vn", "kin">>,
  <<"vec:MaxJointAngles", "max_joint_limits", "vn", "kin">>,
  <<"vec:KinematicDefaultJointPositions", "default_joint_positions", "vn", "kin">>,
  <<"vec:WeightJointVelocity", "w_kin_joint_vel", "vn", "kin">>,
  <<"vec:WeightJointAcceleration", "w_kin_joint_acc", "vn", "kin">>,
  <<"vec:WeightKinematicTrackingCenterOfMass", "w_kin_com", "v3", "kin">>,
  <<"vec:WeightKinematicDefaultJointPositions", "w_kin_default_joints", "vn", "kin">>,
  <<"vec:WeightKinematicTrackingLinearMomentum", "w_kin_lmom", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingAngularMomentum", "w_kin_amom", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingBaseOrientation", "w_kin_base_ori", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingLinearMomentumRate", "w_kin_lmomd", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingAngularMomentumRate", "w_kin_amomd", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingEndeffectorPosition", "w_kin_eff_pos", "v3", "kin">>,
  <<"vec:WeightKinematicTrackingNonActiveEndeffectorPosition", "w_kin_eff_pos_nonact", "v3", "kin">>,
  <<"vec:PGainMomentumTracking_Second", "p_mom_tracking_second", "vn", "ik2">>,
  <<"arr:EndeffectorOffset", "eff_offset", "a3", "">>,
  <<"arr:CenterOfPressureRange", "cop_range", "a4", "">>,
  <<"cvec:Viapoints", "com_viapoints", "via4", "">>,
  <<"cvec:JointViapoints", "joint_viapoints", "viaj", "ik1">>,
  <<"cvec:BaseViapoints", "base_viapoints", "viab", "ik1">>,
  <<"cvec:JointViapoints_Second", "joint_viapoints_second", "viaj", "ik2">>,
  <<"cvec:BaseViapoints_Second", "base_viapoints_second", "viab", "ik2">>,
  <<"", "heuristic", "str", "">>,
  <<"", "friction_cone", "str", "">> >>

\* derived, or without an entry of their own
PlannerDerived == << "int:NumTimesteps", "int:NumActiveDofs", "int:NumExtendedActiveDofs", "bool:IsFrictionConeLinear",
  "dbl:RobotWeight", "dbl:MassTimesGravity", "vec:GravityVector", "ivec:ExtendedActiveDofs", "heur",
  "str:ConfigFile", "str:SaveDynamicsFile", "str:SaveKinematicsFile", "str:DefaultSolverSettingFile" >>

SolverRows == <<
  <<"bool:BnBVerbose", "BnB_verbose", "bool", "">>,
  <<"bool:Verbose", "verbose", "bool", "">>,
  <<"int:BnBMaxIters", "BnB_max_iterations", "int", "">>,
  <<"int:EquilibrationIters", "equil_iterations", "int", "">>,
  <<"int:NumIterRefinementsLinSolve", "num_iter_ref_lin_solve", "int", "">>,
  <<"int:MaxIters", "max_iters", "int", "">>,
  <<"int:SolverMaxIters", "ipsolver_max_iters", "int", "">>,
  <<"int:WarmStartIters", "ipsolver_warm_iters", "int", "">>,
  <<"int:NumberRefinementsTrustRegion", "num_itrefs_trustregion", "int", "">>,
  <<"dbl:BnBIntegerTol", "BnB_integer_tolerance", "dbl", "">>,
  <<"dbl:BnBAbsSubOptGap", "BnB_absolute_suboptimality_gap", "dbl", "">>,
  <<"dbl:BnBRelSubOptGap", "BnB_relative_suboptimality_gap", "dbl", "">>,
  <<"dbl:FeasibilityTol", "feasibility_tolerance", "dbl", "">>,
  <<"dbl:DualityGapAbsTol", "absolute_suboptimality_gap", "dbl", "">>,
  <<"dbl:DualityGapRelTol", "relative_suboptimality_gap", "dbl", "">>,
  <<"dbl:FeasibilityTolInacc", "feasibility_tolerance_inaccurate", "dbl", "">>,
  <<"dbl:DualityGapAbsTolInacc", "absolute_suboptimality_gap_inaccurate", "dbl", "">>,
  <<"dbl:DualityGapRelTolInacc", "relative_suboptimality_gap_inaccurate", "dbl", "">>,
  <<"dbl:LinearSystemAccuracy", "lin_sys_accuracy", "dbl", "">>,
  <<"dbl:ErrorReductionFactor", "err_reduction_factor", "dbl", "">>,
  <<"dbl:StaticRegularization", "static_regularization", "dbl", "">>,
  <<"dbl:DynamicRegularization", "dynamic_regularization", "dbl", "">>,
  <<"dbl:DynamicRegularizationThresh", "dyn_reg_thresh", "dbl", "">>,
  <<"dbl:SafeGuard", "safeguard", "dbl", "">>,
  <<"dbl:MinimumStepLength", "min_step_length", "dbl", "">>,
  <<"dbl:MaximumStepLength", "max_step_length", "dbl", "">>,
  <<"dbl:StepLengthScaling", "step_length_scaling", "dbl", "">>,
  <<"dbl:MinimumCenteringStep", "min_centering_step", "dbl", "">>,
  <<"dbl:MaximumCenteringStep", "max_centering_step", "dbl", "">>,
  <<"dbl:TrustRegionThreshold", "trust_region_threshold", "dbl", "">>,
  <<"dbl:SoftConstraintWeightFull", "soft_constraint_weight_full", "dbl", "">>,
  <<"dbl:SoftConstraintWeightReduced", "soft_constraint_weight_reduced", "dbl", "">> >>
\* names of other things (of variables, of an optimisation's outcome)
SolverForeign == << "int:ColNum", "int:NumIter", "int:NumRefsLinSolve", "int:NumRefsLinSolveAffine", "int:NumRefsLinSolveCorrector",
  "dbl:X", "dbl:LB", "dbl:UB", "dbl:Guess", "dbl:Tau", "dbl:Kappa", "dbl:DualCost", "dbl:PrimalCost", "dbl:DualityGap",
  "dbl:KappaOverTau", "dbl:DualResidual", "dbl:MeritFunction", "dbl:PrimalResidual", "dbl:DualInfeasibility",
  "dbl:RelativeDualityGap", "dbl:PrimalInfeasibility", "dbl:StepLength", "dbl:AffineStepLength", "dbl:CorrectionStepLength" >>

LqrRows == <<
  <<"int:Verbosity", "verbosity", "int", "">>,
  <<"int:PrecisionDigits", "decimal_digits", "int", "">>,
  <<"int:LqrMaxIterations", "lqr_max_iters", "int", "">>,
  <<"int:BackPassRegulatizationType", "bpass_regularization_type", "int", "">>,
  <<"int:StateDimension", "state_dimension", "int", "">>,
  <<"int:ControlDimension", "control_dimension", "int", "">>,
  <<"bool:StoreData", "store_data", "bool", "">>,
  <<"bool:HasControlLimits", "has_control_limits", "bool", "">>,
  <<"dbl:CostChangeTolerance", "cost_change_tolerance", "dbl", "">>,
  <<"dbl:DivergenceLimitCheck", "divergence_limit_check", "dbl", "">>,
  <<"dbl:ControlGradientTolerance", "control_gradient_tolerance", "dbl", "">>,
  <<"dbl:BackPassMinRegularization", "bpass_min_regularization", "dbl", "">>,
  <<"dbl:BackPassMaxRegularization", "bpass_max_regularization", "dbl", "">>,
  <<"dbl:MinExpectedCostImprovement", "min_expected_cost_improvement", "dbl", "">>,
  <<"dbl:BackPassInitialRegularization", "bpass_initial_regularization", "dbl", "">>,
  <<"dbl:BackPassMultRegularizationIncr", "bpass_mult_regularization_incr", "dbl", "">>,
  <<"dbl:BackPassInitialMultRegularizationIncr", "bpass_initial_mult_regularization_incr", "dbl", "">>,
  <<"dbl:TimeStep", "time_step", "dbl", "">>,
  <<"dbl:TimeHorizon", "time_horizon", "dbl", "">>,
  <<"vec:InitialState", "initial_state", "vn", "">>,
  <<"vec:MinControlLimits", "min_control_limits", "vn", "lim">>,
  <<"vec:MaxControlLimits", "max_control_limits", "vn", "lim">>,
  <<"", "linesearch_coeff", "dbl", "">>,
  <<"", "linesearch_num_coeffs", "int", "">>,
  <<"yaml:UserParameters", "user_parameters", "user", "none">> >>
LqrDerived == << "int:TimeDimension", "vec:LineSearchCoeffs", "bool:UseRungeKuttaIntegration", "str:ConfigFile", "str:SaveLqrFile" >>
LqrForeign == << "int:CurrentIteration", "int:BackpassDivergeIteration", "dbl:Cost", "dbl:CostChange", "dbl:ExpectedCost",
  "dbl:ControlGradient", "dbl:CurrentRegularization" >>

Classes == {"planner", "solver", "lqr"}
Rows(c) == CASE c = "planner" -> PlannerRows [] c = "solver" -> SolverRows [] c = "lqr" -> LqrRows
Derived(c) == CASE c = "planner" -> PlannerDerived [] c = "solver" -> <<>> [] c = "lqr" -> LqrDerived
Foreign(c) == CASE c = "planner" -> <<>> [] c = "solver" -> SolverForeign [] c = "lqr" -> LqrForeign
Range(s) == {s[i] : i \in 1..Len(s)}
Names(c) == ({Rows(c)[i][1] : i \in 1..Len(Rows(c))} \ {""}) \cup Range(Derived(c)) \cup Range(Foreign(c))
Keys(c) == {Rows(c)[i][2] : i \in 1..Len(Rows(c))}

\* a file: function from its entries to values; which conditions it satisfies
Cond(c, F, cond) ==
  LET is(k, v) == k \in DOMAIN F /\ F[k] = v IN
  CASE cond = ""     -> TRUE
    [] cond = "kin"  -> is("load_kinematics", 1)
    [] cond = "ik1"  -> is("load_kinematics", 1) /\ is("use_second_order_inv_kin", 0)
    [] cond = "ik2"  -> is("load_kinematics", 1) /\ is("use_second_order_inv_kin", 1)
    [] cond = "time" -> is("heuristic", "TimeOptimization")
    [] cond = "lim"  -> is("has_control_limits", 1)
    [] cond = "none" -> TRUE
Required(c, F) == {Rows(c)[i][2] : i \in {j \in 1..Len(Rows(c)) : Cond(c, F, Rows(c)[j][4]) /\ Rows(c)[j][4] # "none"}}
\* an empty list of via points needs no entry
NumKey(k) == CASE k = "com_viapoints" -> "num_com_viapoints" [] k = "joint_viapoints" -> "num_joint_viapoints"
               [] k = "base_viapoints" -> "num_base_viapoints" [] k = "joint_viapoints_second" -> "num_joint_viapoints_second"
               [] k = "base_viapoints_second" -> "num_base_viapoints_second" [] OTHER -> ""
Complete(c, F) == \A k \in Required(c, F) : k \in DOMAIN F \/ (NumKey(k) # "" /\ NumKey(k) \in DOMAIN F /\ F[NumKey(k)] = 0)
At(F, k) == IF k \in DOMAIN F THEN F[k] ELSE <<>>

Steps(F) == F["time_horizon"] \div F["time_step"]
\* the back-tracking factors coeff^-(i^2), as reciprocals in 1/10000
Recips(F) == LET p == F["linesearch_coeff"] \div 100
                 n == F["linesearch_num_coeffs"]
                 RECURSIVE P(_, _)
                 P(b, m) == IF m = 0 THEN 1 ELSE b * P(b, m - 1)
             IN [i \in 1..n |-> CASE i = 1 -> 10000 [] i = 2 -> 1000 * p [] i = 3 -> P(p, 4)]

DerivedValue(c, e, F, name) ==
  CASE e = "int:NumTimesteps" -> ToString(Steps(F))
    [] e = "int:TimeDimension" -> ToString(Steps(F))
    [] e = "bool:IsFrictionConeLinear" -> IF F["friction_cone"] = "LinearCone" THEN "1" ELSE "0"
    [] e \in {"dbl:RobotWeight", "dbl:MassTimesGravity"} -> ToString((F["robot_mass"] \div 1000) * F["gravity"])
    [] e = "vec:GravityVector" -> ToString(<<0, 0, 0 - F["gravity"]>>)
    [] e = "int:NumActiveDofs" -> ToString(Len(F["active_dofs"]))
    [] e = "int:NumExtendedActiveDofs" -> ToString(6 + Len(F["active_dofs"]))
    [] e = "ivec:ExtendedActiveDofs" -> ToString([i \in 1..(6 + Len(F["active_dofs"])) |-> IF i <= 6 THEN i - 1 ELSE 6 + F["active_dofs"][i - 6]])
    [] e = "heur" -> IF F["heuristic"] \in {"TrustRegion", "TimeOptimization"} THEN F["heuristic"] ELSE "SoftConstraint"
    [] e = "str:ConfigFile" -> name \o ".yaml"
    [] e = "str:SaveKinematicsFile" -> name \o "_kin_results.yaml"
    [] e = "str:SaveLqrFile" -> name \o "_lqr_results.yaml"
    [] e = "vec:LineSearchCoeffs" -> ToString(Recips(F))
    [] e = "bool:UseRungeKuttaIntegration" -> "0"
    [] OTHER -> "?"
NeedsKin == {"int:NumActiveDofs", "int:NumExtendedActiveDofs", "ivec:ExtendedActiveDofs"}

\* ------------------------------------------------------------- transitions
Blank(c) == [e \in Names(c) |-> IF e \in Range(Foreign(c)) THEN "!" ELSE "?"]
Load(c, val, F, name) ==
  [e \in Names(c) |->
     IF e \in Range(Foreign(c)) THEN "!"
     ELSE IF e \in Range(Derived(c))
          THEN IF e \in NeedsKin /\ ~Cond(c, F, "kin") THEN val[e]
               ELSE IF e \in {"str:SaveDynamicsFile", "str:DefaultSolverSettingFile"} THEN val[e]
               ELSE DerivedValue(c, e, F, name)
     ELSE LET i == CHOOSE j \in 1..Len(Rows(c)) : Rows(c)[j][1] = e
          IN IF Cond(c, F, Rows(c)[i][4]) THEN ToString(At(F, Rows(c)[i][2])) ELSE val[e]]
Reject(c, val) == [e \in Names(c) |-> IF e \in Range(Foreign(c)) THEN "!" ELSE "?"]
Alias(e) == IF e \in {"dbl:RobotWeight", "dbl:MassTimesGravity"} THEN {"dbl:RobotWeight", "dbl:MassTimesGravity"} ELSE {e}
Put(c, val, e, v) == IF e \in Range(Foreign(c)) THEN val ELSE [x \in Names(c) |-> IF x \in Alias(e) THEN v ELSE val[x]]
=============================================================================
