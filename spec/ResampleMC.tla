----------------------------- MODULE ResampleMC -----------------------------
(* The interval search of the code (nearest plan time, then its neighbour on   *)
(* the side of t) as a state machine over all small plans and times: it finds  *)
(* the interval of Locate, so the value lies on its segment.                   *)
EXTENDS Resample, Sequences
CONSTANTS MaxT
VARIABLES T, t, pc, near, i1, i2
vars == <<T, t, pc, near, i1, i2>>
Incr(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Init == /\ T \in UNION { { s \in [1..n -> 0..MaxT] : Incr(s) } : n \in 1..4 } /\ t \in -1..(MaxT + 1)
        /\ pc = "near" /\ near = 0 /\ i1 = 0 /\ i2 = 0
D(k) == IF T[k] > t THEN T[k] - t ELSE t - T[k]
Nearest == pc = "near" /\ pc' = "side" /\ near' = (CHOOSE k \in 1..Len(T) : (\A j \in 1..Len(T) : D(k) <= D(j)) /\ \A j \in 1..(k - 1) : D(j) > D(k)) /\ UNCHANGED <<T, t, i1, i2>>
Side == pc = "side" /\ pc' = "done"
        /\ i1' = (IF T[near] > t THEN (IF near = 1 THEN 1 ELSE near - 1) ELSE near)
        /\ i2' = (IF T[near] > t THEN near ELSE (IF near = Len(T) THEN near ELSE near + 1))
        /\ UNCHANGED <<T, t, near>>
Next == Nearest \/ Side
Spec == Init /\ [][Next]_vars
Frac == IF i1 = i2 THEN 0 ELSE FxDiv(t - T[i1], T[i2] - T[i1])
Agrees == pc = "done" => LET loc == Locate(T, t) IN
            /\ Frac \in 0..One
            /\ \A v \in [1..Len(T) -> {-3, 4}] : v[i1] * One + Frac * (v[i2] - v[i1]) = v[loc.k] * One + (IF loc.f = 0 THEN 0 ELSE loc.f * (v[loc.k + 1] - v[loc.k]))
AtPlanTimes == pc = "done" => \A k \in 1..Len(T) : T[k] = t => i1 = k /\ Frac = 0
Holds == pc = "done" => (t < T[1] => i1 = 1 /\ Frac = 0) /\ (t > T[Len(T)] => i1 = Len(T) /\ Frac = 0)
=============================================================================
