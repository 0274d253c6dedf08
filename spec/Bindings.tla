------------------------------ MODULE Bindings ------------------------------
(* The Python modules as a store.  A C++ object is a function from cells (one *)
(* per quantity the C++ interface knows) to values; a Python name stands for  *)
(* one or several cells, in order.  Writing through a name changes its cells  *)
(* and nothing else; reading yields what they hold, whoever wrote it.  A      *)
(* sequence owns its elements: storing a state copies it, an element taken    *)
(* out of a sequence, or a part taken out of a state, is the element itself.  *)
(* Numbers are in millionths.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

E4 == <<"0", "1", "2", "3">>                \* the four endeffectors
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
ForE(f(_)) == Cat([i \in 1..4 |-> f(E4[i])])

\* rows  <<Python name, cells, "r" | "w" | "rw">>
Own(names) == [i \in 1..Len(names) |-> <<names[i], <<names[i]>>, "rw">>]
DynRows ==
  Own(<<"dt", "com", "lmom", "amom", "lmomd", "amomd">>) \o
  ForE(LAMBDA e : <<
    <<"eff(" \o e, <<"pos" \o e>>, "r">>, <<"effPosition(" \o e, <<"pos" \o e>>, "r">>, <<"setEffPosition(" \o e, <<"pos" \o e>>, "w">>,
    <<"effVelocity(" \o e, <<"vel" \o e>>, "r">>, <<"effAcceleration(" \o e, <<"acc" \o e>>, "r">>,
    <<"effCoP(" \o e, <<"cop" \o e>>, "r">>,
    <<"effForce(" \o e, <<"frc" \o e>>, "r">>, <<"setEffForce(" \o e, <<"frc" \o e>>, "w">>,
    <<"effTorque(" \o e, <<"trq" \o e>>, "r">>, <<"setEffTorque(" \o e, <<"trq" \o e>>, "w">>,
    <<"effActivation(" \o e, <<"act" \o e>>, "r">>, <<"setEffActivation(" \o e, <<"act" \o e>>, "w">> >>)
CntRows == << <<"start_time", <<"ini">>, "rw">>, <<"end_time", <<"end">>, "rw">>, <<"position", <<"pos">>, "rw">>,
              <<"placement", <<"pos", "ori">>, "rw">>, <<"contactType", <<"type">>, "rw">>, <<"active", <<"sel">>, "rw">> >>
PosRows(p) == << <<p \o "base_position", <<"bp">>, "rw">>, <<p \o "base_orientation", <<"bq">>, "rw">>, <<p \o "joint_positions", <<"q">>, "rw">>,
                 <<p \o "generalized_joint_positions", <<"bp", "bq", "q">>, "r">> >>
VelRows(p) == << <<p \o "base_linear_velocity", <<"vl">>, "rw">>, <<p \o "base_angular_velocity", <<"va">>, "rw">>, <<p \o "joint_velocities", <<"dq">>, "rw">>,
                 <<p \o "generalized_joint_velocities", <<"vl", "va", "dq">>, "rw">> >>
AccRows(p) == << <<p \o "base_linear_acceleration", <<"al">>, "rw">>, <<p \o "base_angular_acceleration", <<"aa">>, "rw">>, <<p \o "joint_accelerations", <<"ddq">>, "rw">>,
                 <<p \o "generalized_joint_accelerations", <<"al", "aa", "ddq">>, "rw">> >>
KinRows == Own(<<"com", "lmom", "amom">>) \o PosRows("robot_posture.") \o VelRows("robot_velocity.") \o AccRows("robot_acceleration.") \o
  << <<"endeffector_positions", <<"pos0", "pos1", "pos2", "pos3">>, "rw">> >> \o
  ForE(LAMBDA e : << <<"endeffector_positions[" \o e, <<"pos" \o e>>, "rw">> >>)
IfcRows == << <<"constraints_vector", <<"cvec">>, "rw">>, <<"constraints_matrix", <<"cmat">>, "rw">>, <<"center_of_mass_jacobian", <<"jcom">>, "rw">>,
              <<"centroidal_momentum_matrix", <<"cmm">>, "rw">>, <<"centroidal_momentum_matrix_variation", <<"cmmv">>, "rw">>,
              <<"endeffector_jacobians", <<"jac0", "jac1", "jac2", "jac3">>, "rw">> >> \o
  ForE(LAMBDA e : << <<"endeffector_jacobians[" \o e, <<"jac" \o e>>, "rw">> >>)

SetInts == <<"NumDofs", "NumTimesteps", "NumViapoints", "NumJointViapoints", "NumBaseViapoints", "NumJointViapoints_Second", "NumBaseViapoints_Second", "NumActiveDofs",
  "MaxNumTimeIterations", "NumExtendedActiveDofs", "NumActiveEndeffectors", "MaxKinConvergenceIterations", "NumSubsamples", "KinDynIterations">>
SetBools == <<"IsTimeHorizonFixed", "IsFrictionConeLinear", "DisplayMotion", "LoadKinematics", "StoreData", "UseDefaultSolverSetting", "UseSecondOrderInverseKinematics">>
SetDoubles == <<"Gravity", "TimeStep", "RobotMass", "RobotWeight", "TimeHorizon", "MinRelHeight", "FrictionCoefficient", "MaxTimeResidualTolerance",
  "MinTimeResidualImprovement", "WeightArmTorque", "WeightLegTorque", "WeightTimePenalty", "WeightTimeRegularization", "FloorHeight",
  "KinConvergenceTolerance", "SwingTrajViaZ", "WeightLinMomentumTracking", "WeightAngMomentumTracking", "WeightEndEffContact", "WeightEndEffTracking",
  "PGainEndEffTracking", "PGainComTracking", "WeightJointReg", "PGainOrientationTracking", "PGainPositionTracking", "SwingTrajViaZ_Second",
  "WeightLinMomentumTracking_Second", "WeightAngMomentumTracking_Second", "WeightEndEffContact_Second", "WeightEndEffTracking_Second",
  "PGainEndEffTracking_Second", "PGainComTracking_Second", "WeightJointReg_Second", "DGainEndEffTracking_Second", "PGainBaseOrientationTracking_Second",
  "DGainBaseOrientationTracking_Second", "PGainJointRegularization_Second", "DGainJointRegularization_Second">>
SetStrings == <<"ConfigFile", "SaveDynamicsFile", "SaveKinematicsFile", "DefaultSolverSettingFile">>
SetVec2 == <<"TimeRange", "TorqueRange">>
SetVec3 == <<"ExternalForce", "GravityVector", "CenterOfMassMotion", "WeightArmForce", "WeightLegForce", "WeightArmForceRate", "WeightLegForceRate",
  "WeightCenterOfMass", "WeightLinearMomentum", "WeightAngularMomentum", "WeightLinearMomentumRate", "WeightAngularMomentumRate", "WeightFinalLinearMomentum",
  "WeightCenterOfMassViapoint", "WeightFinalAngularMomentum", "WeightDynamicTrackingLinearMomentum", "WeightDynamicTrackingAngularMomentum",
  "WeightKinematicTrackingCenterOfMass", "WeightKinematicTrackingLinearMomentum", "WeightKinematicTrackingAngularMomentum",
  "WeightKinematicTrackingBaseOrientation", "WeightKinematicTrackingLinearMomentumRate", "WeightKinematicTrackingAngularMomentumRate",
  "WeightKinematicTrackingEndeffectorPosition">>
SetVec4 == <<"MaxEndeffectorLengths">>
\* sized by the file that was loaded; empty in a new object
SetVecN == <<"MinJointAngles", "MaxJointAngles", "KinematicDefaultJointPositions", "WeightJointVelocity", "WeightJointAcceleration",
  "WeightKinematicDefaultJointPositions", "PGainMomentumTracking_Second">>
SetCVecs == <<"Viapoints", "JointViapoints", "BaseViapoints", "JointViapoints_Second", "BaseViapoints_Second">>
Pre(p, s) == [i \in 1..Len(s) |-> p \o s[i]]
SetRows == Own(Pre("Int_", SetInts) \o Pre("Bool_", SetBools) \o Pre("Double_", SetDoubles) \o Pre("String_", SetStrings) \o
               Pre("Vector_", SetVec2) \o Pre("Vector_", SetVec3) \o Pre("Vector_", SetVec4) \o Pre("CVector_", SetCVecs)) \o
           [i \in 1..Len(SetVecN) |-> <<"Vector_" \o SetVecN[i], <<"Vector_" \o SetVecN[i]>>, "r">>] \o
           << <<"Double_MassTimesGravity", <<"Double_RobotWeight">>, "rw">> >>     \* the robot's weight has two names

Kinds == {"dyn", "cnt", "kin", "posture", "velocity", "acceleration", "iface", "setting"}
\* bound once, at start-up
RowTab == [k \in Kinds |-> CASE k = "dyn" -> DynRows [] k = "cnt" -> CntRows [] k = "kin" -> KinRows [] k = "posture" -> PosRows("") [] k = "velocity" -> VelRows("")
                             [] k = "acceleration" -> AccRows("") [] k = "iface" -> IfcRows [] k = "setting" -> SetRows]

\* cells: <<name, type>>;   d number, b truth value, i integer, c contact type, q quaternion, 2 3 4 vectors, n joint vector, m matrix, v free vector, s text, C list of vectors
Ty(t, names) == [i \in 1..Len(names) |-> <<names[i], t>>]
CellTab ==
  [ dyn |-> << <<"dt", "d">> >> \o Ty("3", <<"com", "lmom", "amom", "lmomd", "amomd">>) \o
       ForE(LAMBDA e : << <<"pos" \o e, "3">>, <<"vel" \o e, "3">>, <<"acc" \o e, "3">>, <<"cop" \o e, "3">>, <<"frc" \o e, "3">>, <<"trq" \o e, "3">>,
                          <<"tcp" \o e, "3">>, <<"ori" \o e, "q">>, <<"act" \o e, "b">>, <<"aid" \o e, "i">>, <<"cid" \o e, "i">> >>),
    cnt |-> << <<"ini", "d">>, <<"end", "d">>, <<"pos", "3">>, <<"ori", "q">>, <<"type", "c">>, <<"sel", "b">>, <<"ter", "i">>, <<"opt", "i">> >>,
    posture |-> << <<"bp", "3">>, <<"bq", "q">>, <<"q", "n">> >>,
    velocity |-> << <<"vl", "3">>, <<"va", "3">>, <<"dq", "n">> >>,
    acceleration |-> << <<"al", "3">>, <<"aa", "3">>, <<"ddq", "n">> >>,
    kin |-> << <<"bp", "3">>, <<"bq", "q">>, <<"q", "n">>, <<"vl", "3">>, <<"va", "3">>, <<"dq", "n">>, <<"al", "3">>, <<"aa", "3">>, <<"ddq", "n">> >> \o
            Ty("3", <<"com", "lmom", "amom">>) \o
            ForE(LAMBDA e : << <<"pos" \o e, "3">>, <<"vel" \o e, "3">>, <<"acc" \o e, "3">>, <<"ori" \o e, "q">> >>),
    iface |-> << <<"cvec", "v">> >> \o Ty("m", <<"cmat", "jcom", "cmm", "cmmv", "jac0", "jac1", "jac2", "jac3">>),
    setting |-> Ty("i", Pre("Int_", SetInts)) \o Ty("b", Pre("Bool_", SetBools)) \o Ty("d", Pre("Double_", SetDoubles)) \o Ty("s", Pre("String_", SetStrings)) \o
            Ty("2", Pre("Vector_", SetVec2)) \o Ty("3", Pre("Vector_", SetVec3)) \o Ty("4", Pre("Vector_", SetVec4)) \o Ty("C", Pre("CVector_", SetCVecs)) ]

Row(k, n) == CHOOSE r \in { RowTab[k][i] : i \in 1..Len(RowTab[k]) } : r[1] = n
Sub == [posture |-> <<"bp", "bq", "q">>, velocity |-> <<"vl", "va", "dq">>, acceleration |-> <<"al", "aa", "ddq">>]

\* ---- values of names ----
Fun(names, vals) == [c \in { names[i] : i \in 1..Len(names) } |-> vals[CHOOSE i \in 1..Len(names) : names[i] = c]]
\* rotation matrix of a quaternion <<x, y, z, w>> whose components are whole thousandths
RotOf(qq) ==
  LET x == qq[1] \div 1000  y == qq[2] \div 1000  z == qq[3] \div 1000  w == qq[4] \div 1000  U == 1000000
  IN << <<U - 2*(y*y + z*z), 2*(x*y - w*z), 2*(x*z + w*y)>>,
        <<2*(x*y + w*z), U - 2*(x*x + z*z), 2*(y*z - w*x)>>,
        <<2*(x*z - w*y), 2*(y*z + w*x), U - 2*(x*x + y*y)>> >>
Placement(p, qq) == LET R == RotOf(qq) IN R[1] \o <<p[1]>> \o R[2] \o <<p[2]>> \o R[3] \o <<p[3]>> \o <<0, 0, 0, 1000000>>
Read(k, m, n) == LET r == Row(k, n) IN
  IF n = "placement" THEN Placement(m["pos"], m["ori"])
  ELSE Cat([i \in 1..Len(r[2]) |-> m[r[2][i]]])
\* vals: one value per cell of the name
Write(k, m, n, vals) == LET r == Row(k, n)
                            f == Fun(r[2], vals) IN
  [c \in DOMAIN m |-> IF c \in DOMAIN f THEN f[c] ELSE m[c]]

\* ---- the store: free objects, two sequences of states, one element held by reference ----
VARIABLES kind, free, seqs, held
vars == <<kind, free, seqs, held>>
FreeKind(o) == CASE o \in {"a", "b"} -> kind [] o = "p" -> "posture" [] o = "v" -> "velocity" [] o = "w" -> "acceleration" [] o = "k" -> "iface"
KindAt(at) == IF at \in {"s", "t", "h"} THEN kind ELSE FreeKind(at)
Mem(at, i) == IF at \in {"s", "t"} THEN seqs[at][i] ELSE IF at = "h" THEN seqs["s"][held] ELSE free[at]
Store(at, i, m) ==
  IF at \in {"s", "t"} THEN seqs' = [seqs EXCEPT ![at][i] = m] /\ UNCHANGED free
  ELSE IF at = "h" THEN seqs' = [seqs EXCEPT !["s"][held] = m] /\ UNCHANGED free
  ELSE free' = [free EXCEPT ![at] = m] /\ UNCHANGED seqs

PySet(at, i, n, vals) == Store(at, i, Write(KindAt(at), Mem(at, i), n, vals)) /\ UNCHANGED <<kind, held>>
CppSet(at, i, c, v) == Store(at, i, [Mem(at, i) EXCEPT ![c] = v]) /\ UNCHANGED <<kind, held>>
\* s[i] = object        (a copy)
Assign(at, i, src) == seqs' = [seqs EXCEPT ![at][i] = free[src]] /\ UNCHANGED <<kind, free, held>>
Append1(at, src) == seqs' = [seqs EXCEPT ![at] = Append(@, free[src])] /\ held' = (IF at = "s" THEN 0 ELSE held) /\ UNCHANGED <<kind, free>>
DropLast(at) == seqs' = [seqs EXCEPT ![at] = SubSeq(@, 1, Len(@) - 1)] /\ held' = (IF at = "s" THEN 0 ELSE held) /\ UNCHANGED <<kind, free>>
\* whole sequence stored from the other one
CopySeq(dst, src) == seqs' = [seqs EXCEPT ![dst] = seqs[src]] /\ held' = (IF dst = "s" THEN 0 ELSE held) /\ UNCHANGED <<kind, free>>
Clean(at) == seqs' = [seqs EXCEPT ![at] = <<>>] /\ held' = (IF at = "s" THEN 0 ELSE held) /\ UNCHANGED <<kind, free>>
\* n fresh states, given contents m
Resize(at, n, m) == seqs' = [seqs EXCEPT ![at] = [j \in 1..n |-> m[j]]] /\ held' = (IF at = "s" THEN 0 ELSE held) /\ UNCHANGED <<kind, free>>
Hold(i) == held' = i /\ UNCHANGED <<kind, free, seqs>>
\* state.robot_posture = posture   (a copy of the part)
SetPart(at, i, part) ==
  LET cs == Sub[FreeKind(part)]
      m == Mem(at, i) IN
  Store(at, i, [c \in DOMAIN m |-> IF \E j \in 1..3 : cs[j] = c THEN free[part][c] ELSE m[c]]) /\ UNCHANGED <<kind, held>>
=============================================================================
