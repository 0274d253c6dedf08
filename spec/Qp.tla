--------------------------------- MODULE Qp ---------------------------------
(* Strictly convex quadratic programs and what certifies their answer.        *)
(*   minimise x'Hx/2 + g'x   subject to   E x + e = 0,   A x + a <= 0         *)
(* A point with multipliers satisfying KKT is the only minimiser, and a       *)
(* non-negative combination of the constraints that reads 0 < 0 proves there  *)
(* is no feasible point.                                                      *)
EXTENDS LinAlg
Resid(M, x, c) == VAdd(MatVec(M, x), c)
Feasible(p, x) == Resid(p.E, x, p.e) = VZero(Len(p.E)) /\ \A i \in 1..Len(p.A) : Resid(p.A, x, p.a)[i] <= 0
\* twice the objective
Val2(p, x) == VDot(x, MatVec(p.H, x)) + 2 * VDot(p.g, x)
Grad(p, x, nu, lam) == VAdd(VAdd(VAdd(MatVec(p.H, x), p.g), TMatVec(p.E, nu, p.n)), TMatVec(p.A, lam, p.n))
IsKkt(p, x, nu, lam) ==
  /\ Feasible(p, x) /\ Grad(p, x, nu, lam) = VZero(p.n)
  /\ \A i \in 1..Len(p.A) : lam[i] >= 0 /\ (lam[i] = 0 \/ Resid(p.A, x, p.a)[i] = 0)
IsFarkas(p, mu, y) ==
  /\ \A i \in 1..Len(p.A) : y[i] >= 0
  /\ VAdd(TMatVec(p.E, mu, p.n), TMatVec(p.A, y, p.n)) = VZero(p.n)
  /\ VDot(p.e, mu) + VDot(p.a, y) > 0
Permute(s, pi) == [i \in 1..Len(s) |-> s[pi[i]]]
Permuted(p, pi) == [p EXCEPT !.A = Permute(p.A, pi), !.a = Permute(p.a, pi)]
WithRows(p, rows, consts) == [p EXCEPT !.A = p.A \o rows, !.a = p.a \o consts]
=============================================================================
