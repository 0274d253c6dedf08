----------------------------- MODULE ScheduleMC -----------------------------
(* One foot's plan executed step by step: the discrete machine (touch down,    *)
(* stand, lift off, swing) visits exactly the planned contacts, numbers its    *)
(* active steps without gaps, and its flights join consecutive contacts.       *)
EXTENDS Schedule, FiniteSets, TLC
CONSTANTS N, Dt, Tmax
VARIABLES plan, k, cur, cnt, last, flight
vars == <<plan, k, cur, cnt, last, flight>>
Ivals == { [s |-> a, e |-> b] : a \in 0..Tmax, b \in 1..Tmax }
Plans == { p \in UNION { [1..n -> Ivals] : n \in 0..2 } : Disjoint(p) /\ \A i \in 1..Len(p) : p[i].s < p[i].e }
Init == plan \in Plans /\ k = 0 /\ cur = 0 /\ cnt = 0 /\ last = 0 /\ flight = 0
Step(c) == k < N /\ k' = k + 1 /\ c = ContactAt(plan, Dt, k + 1) /\ cur' = c /\ cnt' = (IF c = 0 THEN cnt ELSE cnt + 1) /\ UNCHANGED plan
Swing == Step(0) /\ cur = 0 /\ flight' = flight + 1 /\ last' = last
LiftOff == Step(0) /\ cur # 0 /\ flight' = 1 /\ last' = cur
Stand == \E c \in 1..Len(plan) : c = cur /\ Step(c) /\ UNCHANGED <<last, flight>>
TouchDown == \E c \in 1..Len(plan) : c # cur /\ Step(c) /\ flight' = 0 /\ last' = (IF cur = 0 THEN last ELSE cur)
Next == Swing \/ LiftOff \/ Stand \/ TouchDown
Spec == Init /\ [][Next]_vars
R == Row(plan, Dt, N)
Faithful == (k > 0) => cur = R[k]
Dense == cnt = Cardinality({ j \in ActiveSteps(R) : j <= k })
Runs == (k > 0 /\ cur = 0) => (RunStart(R, k) = k - flight + 1 /\ (RunStart(R, k) > 1 => R[RunStart(R, k) - 1] = last))
NoOverlap == \A j \in 1..N : Cardinality({ c \in 1..Len(plan) : plan[c].s <= j * Dt /\ j * Dt < plan[c].e }) <= 1
\* ends and middle of the reference
Ends == \A p0 \in {0, 7, -13}, p1 \in {0, 9, 20}, pv \in {0, 5} :
  /\ At(0, p0, p1, pv) = 10000 * p0 /\ FxAbs(At(One, p0, p1, pv) - 10000 * p1) <= 3 /\ FxAbs(At(One \div 2, p0, p1, pv) - 10000 * pv) <= 3
  /\ FxAbs(VelAt(0, p0, p1, pv)) <= 3 /\ FxAbs(VelAt(One, p0, p1, pv)) <= 3 /\ FxAbs(AccAt(0, p0, p1, pv)) <= 3 /\ FxAbs(AccAt(One, p0, p1, pv)) <= 3
ASSUME Ends
=============================================================================
