-------------------------------- MODULE Conic -------------------------------
(* Conic programs   min c'x  s.t.  A x = b,  G x + s = h,  s in K,            *)
(* K = R+^l x SOC(q1) x ... , over the integers, with certificates:           *)
(*   optimal    : x, s in K, z in K, y with c + A'y + G'z = 0 and s'z = 0     *)
(*   infeasible : z in K, y with A'y + G'z = 0 and b'y + h'z < 0              *)
(*   unbounded  : feasible x and a ray d, A d = 0, -G d in K, c'd < 0         *)
EXTENDS LinAlg, FiniteSets

SumQ(q, k) == VSum(Sub(q, 1, k))
\* position of the first row of cone k among the rows of G
SocStart(l, q, k) == l + SumQ(q, k - 1) + 1
ConeRows(l, q) == l + VSum(q)
Block(v, l, q, k) == Sub(v, SocStart(l, q, k), SocStart(l, q, k) + q[k] - 1)

TailSq(v) == VDot(Sub(v, 2, Len(v)), Sub(v, 2, Len(v)))
InSoc(v) == v[1] >= 0 /\ v[1] * v[1] >= TailSq(v)
IntSoc(v) == v[1] > 0 /\ v[1] * v[1] > TailSq(v)
InK(v, l, q) == (\A i \in 1..l : v[i] >= 0) /\ \A k \in 1..Len(q) : InSoc(Block(v, l, q, k))
IntK(v, l, q) == (\A i \in 1..l : v[i] > 0) /\ \A k \in 1..Len(q) : IntSoc(Block(v, l, q, k))

Feasible(P, x) == MatVec(P.A, x) = P.b /\ InK(VSub(P.h, MatVec(P.G, x)), P.l, P.q)

OptCert(P, x, s, y, z) ==
  /\ MatVec(P.A, x) = P.b /\ VAdd(MatVec(P.G, x), s) = P.h
  /\ InK(s, P.l, P.q) /\ InK(z, P.l, P.q)
  /\ VAdd(P.c, VAdd(TMatVec(P.A, y, P.n), TMatVec(P.G, z, P.n))) = VZero(P.n)
  /\ VDot(s, z) = 0
InfCert(P, y, z) ==
  /\ InK(z, P.l, P.q)
  /\ VAdd(TMatVec(P.A, y, P.n), TMatVec(P.G, z, P.n)) = VZero(P.n)
  /\ VDot(P.b, y) + VDot(P.h, z) < 0
UnbCert(P, x, d) ==
  /\ Feasible(P, x) /\ MatVec(P.A, d) = VZero(Len(P.A))
  /\ InK(VNeg(MatVec(P.G, d)), P.l, P.q) /\ VDot(P.c, d) < 0

\* d enters the interior of K from s (first-order), so s + t (-G d) is interior for small t
Enters(P, s, d) ==
  LET g == VNeg(MatVec(P.G, d)) IN
  /\ MatVec(P.A, d) = VZero(Len(P.A))
  /\ \A i \in 1..P.l : s[i] = 0 => g[i] > 0
  /\ \A k \in 1..Len(P.q) :
       LET sb == Block(s, P.l, P.q, k)
           gb == Block(g, P.l, P.q, k) IN
       IF IntSoc(sb) THEN TRUE
       ELSE IF sb = VZero(P.q[k]) THEN IntSoc(gb)
       ELSE sb[1] * gb[1] > VDot(Sub(sb, 2, Len(sb)), Sub(gb, 2, Len(gb)))
Slater(P, s) == \E d \in [1..P.n -> -1..1] : Enters(P, s, d)
=============================================================================
