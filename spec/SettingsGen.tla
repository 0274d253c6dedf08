----------------------------- MODULE SettingsGen -----------------------------
(* Histories of load / set operations on one settings object.                 *)
(*  kind 1  every combination of the options that decide what is read         *)
(*  kind 2  every parameter set once                                          *)
(*  kind 3  every entry missing once                                          *)
(*  kind 4  random histories over several files                               *)
EXTENDS Settings, Rand, TraceIO, FiniteSets
CONSTANTS Walks, MaxOps

Heurs == <<"TrustRegion", "SoftConstraint", "TimeOptimization", "Unknown">>
StepsMs == <<100, 50, 25, 20, 10, 200, 30, 70, 125, 300, 1000, 150, 5>>
\* value of a given type, drawn at (w, d)
Dbl(w, s, d) == RI(w, s, d, 1, 30000) * (IF RN(w, s, d + 3, 4) = 0 THEN -1 ELSE 1)
Vec(w, s, d, n) == [i \in 1..n |-> Dbl(w, s, d * 31 + i * 7)]
\* the length of joint vectors: fixed along a history that sets values, as the
\* interface hands out references that cannot be resized
Sz(w, s) == IF w % 7 = 0 THEN RN(w, s, 99, 6) ELSE w % 6
Value(t, w, s, d, o) ==
  CASE t = "int"  -> RI(w, s, d, 1, 9999)
    [] t = "bool" -> RN(w, s, d, 2)
    [] t = "dbl"  -> Dbl(w, s, d)
    [] t = "v2" -> Vec(w, s, d, 2) [] t = "v3" -> Vec(w, s, d, 3) [] t = "v4" -> Vec(w, s, d, 4)
    [] t = "vn" -> Vec(w, s, d, 1 + Sz(w, s))
    [] t = "ivec" -> [i \in 1..Sz(w, s) |-> RN(w, s, d * 31 + i * 7, 40)]
    [] t = "xvec" -> [i \in 1..(6 + Sz(w, s)) |-> RN(w, s, d * 31 + i * 7, 40)]
    [] t = "a3" -> [e \in 1..4 |-> Vec(w, s, d + e * 1000, 3)]
    [] t = "a4" -> [e \in 1..4 |-> Vec(w, s, d + e * 1000, 4)]
    [] t = "via4" -> [e \in 1..o.nvia |-> Vec(w, s, d + e * 1000, 4)]
    [] t = "viab" -> [e \in 1..o.nvia |-> Vec(w, s, d + e * 1000, 4)]
    [] t = "viaj" -> [e \in 1..o.nvia |-> Vec(w, s, d + e * 1000, 5)]
    [] t = "user" -> [i \in 1..2 |-> RI(w, s, d + i, 0, 9999)]
    [] t = "str" -> "none"

Entry(c, i, w, s, o) ==
  LET r == Rows(c)[i] k == r[2] IN
  CASE k = "load_kinematics" -> o.kin
    [] k = "use_second_order_inv_kin" -> o.second
    [] k = "has_control_limits" -> o.lim
    [] k = "heuristic" -> o.heur
    [] k = "friction_cone" -> RS(w, s, i, <<"LinearCone", "SocpCone">>)
    [] k \in {"num_com_viapoints", "num_joint_viapoints", "num_base_viapoints", "num_joint_viapoints_second", "num_base_viapoints_second"} -> o.nvia
    [] k = "robot_mass" -> 1000 * RI(w, s, i, 1, 60)
    [] k = "gravity" -> RI(w, s, i, 1, 20000)
    [] k = "time_step" -> RS(w, s, 7, StepsMs)
    [] k = "time_horizon" -> RS(w, s, 7, StepsMs) * RI(w, s, 8, 0, 200) + RN(w, s, 9, 2) * RN(w, s, 10, RS(w, s, 7, StepsMs))
    [] k = "linesearch_coeff" -> 100 * RI(w, s, i, 10, 30)
    [] k = "linesearch_num_coeffs" -> RN(w, s, i, 4)
    [] OTHER -> Value(r[3], w, s, i, o)

FileOf(c, w, s, o) == [k \in Keys(c) |-> Entry(c, CHOOSE i \in 1..Len(Rows(c)) : Rows(c)[i][2] = k, w, s, o)]
TypeOf(c, k) == Rows(c)[CHOOSE i \in 1..Len(Rows(c)) : Rows(c)[i][2] = k][3]
Opts(w, s) == [kin |-> IF RN(w, s, 1, 3) = 0 THEN 0 ELSE 1, second |-> RN(w, s, 2, 2), lim |-> RN(w, s, 3, 2), heur |-> RS(w, s, 4, Heurs), nvia |-> RN(w, s, 5, 4)]

\* a new value of the type of a parameter
NewValue(c, e, w, s) ==
  LET rows == {i \in 1..Len(Rows(c)) : Rows(c)[i][1] = e}
      t == IF rows # {} THEN Rows(c)[CHOOSE i \in rows : TRUE][3]
           ELSE CASE e = "heur" -> "heur"
                  [] e \in {"int:NumTimesteps", "int:NumActiveDofs", "int:NumExtendedActiveDofs", "int:TimeDimension"} -> "int"
                  [] e \in {"bool:IsFrictionConeLinear", "bool:UseRungeKuttaIntegration"} -> "bool"
                  [] e \in {"dbl:RobotWeight", "dbl:MassTimesGravity"} -> "dbl"
                  [] e = "vec:GravityVector" -> "v3"
                  [] e = "ivec:ExtendedActiveDofs" -> "xvec"
                  [] e = "vec:LineSearchCoeffs" -> "recips"
                  [] e \in Range(Foreign(c)) -> "foreign"
                  [] OTHER -> "str"
  IN [t |-> t, v |-> CASE t = "heur" -> RS(w, s, 3, <<"TrustRegion", "SoftConstraint", "TimeOptimization">>)
                       [] t = "recips" -> [i \in 1..3 |-> 10000 * i]
                       [] t = "str" -> "name" \o ToString(RN(w, s, 3, 1000))
                       [] t = "foreign" -> 1
                       [] OTHER -> Value(t, w, IF w % 7 = 0 THEN 1 ELSE s, 3, [nvia |-> RN(w, s, 5, 3)])]

LoadOp(c, F, name) == [op |-> "load", name |-> name, F |-> [k \in DOMAIN F |-> F[k]], types |-> [k \in DOMAIN F |-> TypeOf(c, k)]]
SetOp(c, e, nv) == [op |-> "set", e |-> e, t |-> nv.t, v |-> nv.v]

\* enumerations of the names and entries of a class
NameSeq(c) == [i \in 1..Len(Rows(c)) |-> Rows(c)[i][1]] \o Derived(c) \o Foreign(c)
PlannerSet == SelectSeq(NameSeq("planner"), LAMBDA e : e # "")
SolverSet == SelectSeq(NameSeq("solver"), LAMBDA e : e # "")
LqrSet == SelectSeq(NameSeq("lqr"), LAMBDA e : e \notin {"", "yaml:UserParameters"})
SetSeq(c) == CASE c = "planner" -> PlannerSet [] c = "solver" -> SolverSet [] c = "lqr" -> LqrSet
Nth(c, n) == Rows(c)[1 + n][2]

VARIABLES sc
ClsSeq == <<"planner", "solver", "lqr">>
RECURSIVE Ops(_, _, _, _)
Ops(c, w, s, n) == IF s > n THEN <<>>
   ELSE LET x == IF s = 1 THEN 0 ELSE IF w % 7 = 0 THEN RN(w, s, 11, 6) \div 5 ELSE RN(w, s, 11, 5)
            e == RS(w, s, 12, SetSeq(c))
            F == FileOf(c, w, s, Opts(w, s))
            gone == Nth(c, RN(w, s, 13, Cardinality(Keys(c))))
            op == CASE x = 0 -> LoadOp(c, F, "file" \o ToString(s))
                    [] x = 1 -> LoadOp(c, [k \in DOMAIN F \ {gone} |-> F[k]], "file" \o ToString(s))
                    [] OTHER -> SetOp(c, e, NewValue(c, e, w, s))
        IN <<op>> \o Ops(c, w, s + 1, n)

Scenario(c, ops) == [cls |-> c, ops |-> ops]
Init == \/ \E kin \in 0..1, second \in 0..1, lim \in 0..1, h \in 1..4, nv \in 0..3, c \in Classes :
             /\ c = "planner" => lim = 0
             /\ c = "lqr" => (kin = 0 /\ second = 0 /\ h = 1)
             /\ c = "solver" => (kin = 0 /\ second = 0 /\ h = 1 /\ lim = 0)
             /\ sc = [k |-> 1, c |-> c, o |-> [kin |-> kin, second |-> second, lim |-> lim, heur |-> Heurs[h], nvia |-> nv], w |-> 50 + nv * 8 + h]
        \/ \E c \in Classes : \E i \in 1..Len(SetSeq(c)), r \in 0..1 : sc = [k |-> 2, c |-> c, i |-> i, w |-> 1000 + 500 * r + i]
        \/ \E c \in Classes : \E i \in 1..Len(Rows(c)), r \in 0..3 : sc = [k |-> 3, c |-> c, i |-> i, w |-> 3000 + 500 * r + i, r |-> r]
        \/ \E w \in 1..Walks, c \in Classes : sc = [k |-> 4, c |-> c, w |-> 5000 + w]
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc

All == [kin |-> 1, second |-> 0, lim |-> 1, heur |-> "TimeOptimization", nvia |-> 2]
Build ==
  CASE sc.k = 1 -> Scenario(sc.c, <<LoadOp(sc.c, FileOf(sc.c, sc.w, 1, sc.o), "cfg")>>)
    [] sc.k = 2 -> Scenario(sc.c, <<LoadOp(sc.c, FileOf(sc.c, sc.w, 1, [All EXCEPT !.second = sc.w % 2]), "cfg"),
                                    SetOp(sc.c, SetSeq(sc.c)[sc.i], NewValue(sc.c, SetSeq(sc.c)[sc.i], sc.w, 2))>>)
    [] sc.k = 3 -> LET F == FileOf(sc.c, sc.w, 1, [All EXCEPT !.second = sc.r % 2, !.heur = IF sc.r < 2 THEN @ ELSE "TrustRegion", !.kin = IF sc.r = 3 THEN 0 ELSE 1, !.lim = sc.r % 2, !.nvia = sc.r])
                       gone == Rows(sc.c)[sc.i][2]
                   IN Scenario(sc.c, <<LoadOp(sc.c, [k \in DOMAIN F \ {gone} |-> F[k]], "cfg")>>)
    [] sc.k = 4 -> Scenario(sc.c, Ops(sc.c, sc.w, 1, RI(sc.w, 0, 1, 2, MaxOps)))
EmitInv == Emit(Build)
=============================================================================
