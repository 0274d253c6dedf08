------------------------------ MODULE KinPlanMC ------------------------------
(* The momentum asked for along every contact schedule, carried from step to   *)
(* step, against its closed form; and the functions of angles of KinPlan       *)
(* against exact half-angle values and axis rotations.                         *)
EXTENDS KinPlan
CONSTANTS N, Drops
VARIABLES fly, lz, z, from, w, t
vars == <<fly, lz, z, from, w, t>>
Z0 == 7
Init == fly = <<>> /\ lz = <<>> /\ z = Z0 /\ from = 0 /\ w \in Drops /\ t \in {<<0, 1>>, <<1, 9>>, <<1, 3>>, <<-2, 5>>, <<3, 4>>, <<-5, 2>>, <<9, 1>>, <<-8, 9>>}
\* a step with contact asks for its own momentum, a flight step for one drop less than the step before
Stance == Len(fly) < N /\ \E v \in {-3, 0, 5} : lz' = Append(lz, v) /\ z' = v /\ fly' = Append(fly, 0) /\ from' = Len(fly) + 1 /\ UNCHANGED <<w, t>>
Flight == Len(fly) < N /\ \E v \in {-3, 0, 5} : lz' = Append(lz, v) /\ z' = z - w /\ fly' = Append(fly, 1) /\ UNCHANGED <<w, t, from>>
Next == Stance \/ Flight
Spec == Init /\ [][Next]_vars
K == Len(fly)
ClosedForm == K > 0 => LET s == LastStance(fly, K) IN
  IF fly[K] = 1 THEN z = Drop(IF s = 0 THEN Z0 ELSE lz[s], K, s, w) /\ s = from ELSE z = lz[K]
\* leaving the ground and coming down: over a whole flight the momentum changes by its length times the drop
Ballistic == \A a, b \in 1..K : (a < b /\ fly[a] = 0 /\ \A i \in (a + 1)..b : fly[i] = 1) =>
  LET s == LastStance(fly, b) IN s = a /\ Drop(lz[s], b, s, w) = lz[a] - (b - a) * w
\* ---- angles
Cl(a, b, tol) == \A i \in 1..Len(a) : FxAbs(a[i] - b[i]) <= tol
Ang == 2 * (IF t[1] < 0 THEN -AtanFx(-t[1], t[2]) ELSE AtanFx(t[1], t[2]))
E3(k) == [i \in 1..3 |-> IF i = k THEN One ELSE 0]
Angles == K = 0 =>
  /\ Cl(CosSinFx(Ang), CosSin(t[1], t[2]), 40)
  /\ \A k \in 1..3 :
       LET r == [i \in 1..3 |-> IF i = k THEN Ang ELSE 0]  q == RpyQ(r)  M == AxisRot(k, CosSin(t[1], t[2])) IN
       /\ \A j \in 1..3 : Cl(RotU(q)[j], M[j], 80)
       /\ (LogOk(q) => Cl(LogQ(q), r, 120))
       /\ \A j \in 1..3 : Cl(ExpVec(r, E3(j)), ColOf(M, j), 60)
       \* a screw along its own axis goes straight on; across it, it bends: (sin a / a, (1 - cos a) / a)
       /\ Cl(ExpTerms(r, E3(k)), E3(k), 20)
       /\ (FxAbs(Ang) > 1000000 => LET j == (k % 3) + 1  m == (j % 3) + 1  e == ExpTerms(r, E3(j)) IN
             FxAbs(FxMul(e[j], Ang) - CosSin(t[1], t[2])[2]) <= 60 /\ FxAbs(FxMul(e[m], Ang) - (One - CosSin(t[1], t[2])[1])) <= 60)
=============================================================================
