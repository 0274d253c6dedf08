------------------------------ MODULE Resample ------------------------------
(* A plan is a value per plan time; in between its motion is the segment       *)
(* joining neighbours, outside it stays at its ends.  Times are integers,      *)
(* T[1] < T[2] < ...; the value at time t is W*v[k] + part of W*(v[k+1]-v[k]). *)
EXTENDS FixPoint, TLC
\* last plan index not after t (0 before the plan)
Before(T, t) == LET S == { k \in 1..Len(T) : T[k] <= t } IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
\* [k, fraction]: between plan steps k and k+1
Locate(T, t) ==
  LET k == Before(T, t) IN
  IF k = 0 THEN [k |-> 1, f |-> 0] ELSE IF k = Len(T) THEN [k |-> k, f |-> 0]
  ELSE [k |-> k, f |-> FxDiv(t - T[k], T[k + 1] - T[k])]
\* v(k) in units such that |v| < 20*One
Val(loc, v(_)) == IF loc.f = 0 THEN v(loc.k) ELSE v(loc.k) + FxMul(loc.f, v(loc.k + 1) - v(loc.k))
\* ticks of a plan lasting T milliseconds, rounded up to whole seconds (one ms of slack)
WholeSeconds(T) == IF T % 1000 > 1 THEN 1000 * (T \div 1000 + 1) ELSE 1000 * (T \div 1000)
=============================================================================
