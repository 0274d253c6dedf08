-------------------------------- MODULE Hqp ---------------------------------
(* Hierarchies of least squares problems with strict priorities. A rank holds *)
(* equalities B x + b = 0 and inequalities A x + a <= 0; its cost at x is the *)
(* squared norm of the violations. The answer of a hierarchy minimises the    *)
(* cost of the first rank, then that of the second among those minimisers...  *)
EXTENDS LinAlg
Pos(v) == [i \in 1..Len(v) |-> IF v[i] > 0 THEN v[i] ELSE 0]
EqRes(r, x) == VAdd(MatVec(r.B, x), r.b)
InRes(r, x) == VAdd(MatVec(r.A, x), r.a)
Viol(r, x) == Pos(InRes(r, x))
Cost(r, x) == VDot(EqRes(r, x), EqRes(r, x)) + VDot(Viol(r, x), Viol(r, x))
\* lexicographic order of the costs of the ranks h[1], h[2], ... of two points
RECURSIVE LexLess(_, _, _, _)
LexLess(h, k, x, y) == k <= Len(h) /\ (Cost(h[k], x) < Cost(h[k], y) \/ (Cost(h[k], x) = Cost(h[k], y) /\ LexLess(h, k + 1, x, y)))

(* Certificate of rank k at x: the gradient of its cost is balanced by the    *)
(* constraints the earlier ranks impose - their residuals are fixed, their    *)
(* satisfied inequalities stay satisfied (multipliers >= 0, only where tight), *)
(* their violated ones keep their violation (any multiplier).                 *)
RankGrad(r, x, n) == VAdd(TMatVec(r.B, EqRes(r, x), n), TMatVec(r.A, Viol(r, x), n))
RECURSIVE PrevForce(_, _, _, _)
PrevForce(h, j, c, n) == IF j = 0 THEN VZero(n)
   ELSE VAdd(PrevForce(h, j - 1, c, n), VAdd(TMatVec(h[j].B, c[j].nu, n), TMatVec(h[j].A, c[j].lam, n)))
RankCert(h, k, x, c, n) ==
  /\ VAdd(RankGrad(h[k], x, n), PrevForce(h, k - 1, c, n)) = VZero(n)
  /\ \A j \in 1..(k - 1) : \A i \in 1..Len(h[j].A) : c[j].lam[i] # 0 => (InRes(h[j], x)[i] > 0 \/ (InRes(h[j], x)[i] = 0 /\ c[j].lam[i] > 0))
Cert(h, x, cs, n) == \A k \in 1..Len(h) : RankCert(h, k, x, cs[k], n)
=============================================================================
