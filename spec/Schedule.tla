------------------------------ MODULE Schedule ------------------------------
(* Contact schedules on a time grid.  Times are integers (milliseconds); step  *)
(* k = 1..N of the plan is at time k*dt.  A plan gives each foot a sequence of *)
(* contacts [s, e, ...] meant for the half-open interval [s, e).               *)
EXTENDS Integers, Sequences, FixPoint
\* the contact of a foot at step k, 0 if none
ContactAt(cs, dt, k) ==
  LET C == { c \in 1..Len(cs) : cs[c].s <= k * dt /\ k * dt < cs[c].e } IN IF C = {} THEN 0 ELSE CHOOSE c \in C : TRUE
\* contacts that were not selected take no part
Live(cs) == [c \in 1..Len(cs) |-> IF cs[c].sel = 1 THEN cs[c] ELSE [cs[c] EXCEPT !.e = cs[c].s]]
Disjoint(cs) == \A c, d \in 1..Len(cs) : c # d => (cs[c].e <= cs[d].s \/ cs[d].e <= cs[c].s)
Row(cs, dt, n) == [k \in 1..n |-> ContactAt(cs, dt, k)]
ActiveSteps(row) == { k \in 1..Len(row) : row[k] # 0 }
\* a flight: a maximal run [a, b] of steps without contact
RECURSIVE RunStart(_, _)
RunStart(row, k) == IF k = 1 \/ row[k - 1] # 0 THEN k ELSE RunStart(row, k - 1)
RECURSIVE RunEnd(_, _)
RunEnd(row, k) == IF k = Len(row) \/ row[k + 1] # 0 THEN k ELSE RunEnd(row, k + 1)
\* fixed-point values, at the fraction s (times One) of the span, of the polynomial of degree 6
\* that starts and ends at rest and whose middle is a given point: from + J*(to-from) + B*(via-(from+to)/2)
JerkPos(s) == LET s2 == FxMul(s, s) s3 == FxMul(s2, s) IN FxMul(s3, 10 * One - 15 * s + 6 * s2)
JerkVel(s) == LET u == FxMul(s, One - s) IN 30 * FxMul(u, u)
JerkAcc(s) == LET u == FxMul(s, One - s) IN 60 * FxMul(u, One - 2 * s)
BumpPos(s) == LET u == FxMul(s, One - s) IN 64 * FxMul(u, FxMul(u, u))
BumpVel(s) == LET u == FxMul(s, One - s) IN 192 * FxMul(One - 2 * s, FxMul(u, u))
BumpAcc(s) == LET u == FxMul(s, One - s) IN 384 * FxMul(u, One - 5 * s + 5 * FxMul(s, s))
\* one coordinate in 10^-6 units for points given in units of 10^-2 (or any 10^4 of the result)
At(s, p0, p1, pv) == 10000 * p0 + FxMul(JerkPos(s), 10000 * (p1 - p0)) + FxMul(BumpPos(s), 10000 * pv - 5000 * (p0 + p1))
\* coefficient functions may exceed 2*One: multiply in two halves
FxMulB(a, b) == LET h == TDiv(a, 16) IN 16 * FxMul(h, b) + FxMul(a - 16 * h, b)
\* derivative with respect to the fraction, in 10^-4 units
VelAt(s, p0, p1, pv) == FxMulB(JerkVel(s), 100 * (p1 - p0)) + FxMulB(BumpVel(s), 100 * pv - 50 * (p0 + p1))
AccAt(s, p0, p1, pv) == FxMulB(JerkAcc(s), 100 * (p1 - p0)) + FxMulB(BumpAcc(s), 100 * pv - 50 * (p0 + p1))
=============================================================================
