------------------------------- MODULE Curves -------------------------------
(* Observed points of curves against the closed forms of Schedule, and values  *)
(* of integer polynomials at half-integer points.                              *)
EXTENDS TraceIO, Schedule
Cm(v) == [i \in 1..Len(v) |-> 10000 * v[i]]
Mi(v) == [i \in 1..Len(v) |-> 1000 * v[i]]
Near3(o, F(_), t) == Len(o) = 3 /\ \A i \in 1..3 : Near(o[i], F(i), t)
\* points in units of half a centimetre, so that midpoints are exact
PosH(s, a, b, v) == TDiv(At(s, a, b, v), 2)
VelH(s, a, b, v) == TDiv(VelAt(s, a, b, v), 2)
AccH(s, a, b, v) == TDiv(AccAt(s, a, b, v), 2)
OnCurve(w, s, a, b, v) == /\ Near3(w.p, LAMBDA i : PosH(s, a[i], b[i], v[i]), 12)
                          /\ Near3(w.v, LAMBDA i : VelH(s, a[i], b[i], v[i]), 60) /\ Near3(w.a, LAMBDA i : AccH(s, a[i], b[i], v[i]), 300)
Dbl(v) == [i \in 1..3 |-> 2 * v[i]]
Mid(a, b) == [i \in 1..3 |-> a[i] + b[i]]
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN 1 ELSE x * PowN(x, n - 1)
Fal(i, d) == IF d = 0 THEN 1 ELSE IF d = 1 THEN i ELSE i * (i - 1)
\* 64 * d-th derivative at x/2
Der(co, x, d) == SeqSum([j \in 1..(Len(co) - d) |-> LET i == j + d - 1 IN co[i + 1] * Fal(i, d) * PowN(x, i - d) * PowN(2, 6 - (i - d))])
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m
=============================================================================
