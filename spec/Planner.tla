------------------------------ MODULE Planner ------------------------------
(* The kino-dynamic planner: set-up in any order that respects what each step  *)
(* reads, one dynamics optimisation, then n alternations of kinematics on the  *)
(* latest dynamic plan and dynamics that tracks the latest kinematic plan, and *)
(* the feedback law of the last plan when asked for.  Plans are numbered by    *)
(* the optimisation that made them.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Parts == {"settings", "lqrsettings", "ini", "terrain", "plan_init", "plan", "dyn_init", "kin_init"}
Needs(a) == CASE a = "terrain" -> {"settings"} [] a = "plan_init" -> {"settings"} [] a = "plan" -> {"ini", "terrain", "plan_init"}
              [] a \in {"dyn_init", "kin_init"} -> {"settings"} [] OTHER -> {}
New == [up |-> {}, busy |-> FALSE, k |-> 0, dyn |-> 0, kin |-> 0, fb |-> 0, turn |-> "dyn"]
\* what is next in a run with n alternations and feedback f
Setup(st, a) == a \in Parts \ st.up /\ Needs(a) \subseteq st.up
CanDyn(st, n) == st.up = Parts /\ (IF st.busy THEN st.turn = "dyn" /\ st.k <= n ELSE TRUE)
CanKin(st, n) == st.busy /\ st.turn = "kin" /\ st.k < n
CanFb(st, n, f) == f /\ st.busy /\ st.k = n /\ st.turn = "kin"
CanDone(st, n, f) == st.busy /\ st.k = n /\ st.turn = (IF f THEN "end" ELSE "kin")
Track(st) == st.busy            \* the first dynamics of a run follows no kinematic plan
DoSetup(st, a) == [st EXCEPT !.up = @ \cup {a}]
DoDyn(st) == [st EXCEPT !.dyn = @ + 1, !.turn = "kin", !.busy = TRUE, !.k = IF st.busy THEN st.k ELSE 0]
DoKin(st) == [st EXCEPT !.kin = @ + 1, !.turn = "dyn", !.k = @ + 1]
DoFb(st) == [st EXCEPT !.fb = st.dyn, !.turn = "end"]
DoDone(st) == [st EXCEPT !.busy = FALSE, !.turn = "dyn", !.k = 0]
\* time stamps of steps with the given durations
Stamps(d) == LET RECURSIVE T(_) T(i) == IF i = 1 THEN <<0>> ELSE LET s == T(i - 1) IN Append(s, s[i - 1] + d[i - 1]) IN T(Len(d))
\* what each component is configured with
First == [gen |-> << <<"z_offset", "PlannerDoubleParam_SwingTrajViaZ">> >>,
  inv |-> << <<"w_lin_mom_tracking", "PlannerDoubleParam_WeightLinMomentumTracking">>, <<"w_ang_mom_tracking", "PlannerDoubleParam_WeightAngMomentumTracking">>,
             <<"w_endeff_contact", "PlannerDoubleParam_WeightEndEffContact">>, <<"w_endeff_tracking", "PlannerDoubleParam_WeightEndEffTracking">>,
             <<"w_joint_regularization", "PlannerDoubleParam_WeightJointReg">>, <<"p_endeff_tracking", "PlannerDoubleParam_PGainEndEffTracking">>,
             <<"p_com_tracking", "PlannerDoubleParam_PGainComTracking">> >>,
  snd |-> <<>>,
  opt |-> << <<"reg_orientation", "PlannerDoubleParam_PGainOrientationTracking">>, <<"reg_joint_position", "PlannerDoubleParam_PGainPositionTracking">>,
             <<"n_via_joint", "PlannerIntParam_NumJointViapoints">>, <<"via_joint", "PlannerCVectorParam_JointViapoints">>,
             <<"n_via_base", "PlannerIntParam_NumBaseViapoints">>, <<"via_base", "PlannerCVectorParam_BaseViapoints">> >>]
Second == [gen |-> << <<"z_offset", "PlannerDoubleParam_SwingTrajViaZ_Second">> >>,
  inv |-> <<>>,
  snd |-> << <<"w_lin_mom_tracking", "PlannerDoubleParam_WeightLinMomentumTracking_Second">>, <<"w_ang_mom_tracking", "PlannerDoubleParam_WeightAngMomentumTracking_Second">>,
             <<"w_endeff_contact", "PlannerDoubleParam_WeightEndEffContact_Second">>, <<"w_endeff_tracking", "PlannerDoubleParam_WeightEndEffTracking_Second">>,
             <<"w_joint_regularization", "PlannerDoubleParam_WeightJointReg_Second">>, <<"p_endeff_tracking", "PlannerDoubleParam_PGainEndEffTracking_Second">>,
             <<"p_com_tracking", "PlannerDoubleParam_PGainComTracking_Second">>, <<"d_endeff_tracking", "PlannerDoubleParam_DGainEndEffTracking_Second">>,
             <<"p_orient_tracking", "PlannerDoubleParam_PGainBaseOrientationTracking_Second">>, <<"d_orient_tracking", "PlannerDoubleParam_DGainBaseOrientationTracking_Second">>,
             <<"p_joint_regularization", "PlannerDoubleParam_PGainJointRegularization_Second">>, <<"d_joint_regularization", "PlannerDoubleParam_DGainJointRegularization_Second">>,
             <<"p_mom_tracking", "PlannerVectorParam_PGainMomentumTracking_Second">> >>,
  opt |-> << <<"n_via_joint", "PlannerIntParam_NumJointViapoints_Second">>, <<"via_joint", "PlannerCVectorParam_JointViapoints_Second">>,
             <<"n_via_base", "PlannerIntParam_NumBaseViapoints_Second">>, <<"via_base", "PlannerCVectorParam_BaseViapoints_Second">> >>]
=============================================================================
