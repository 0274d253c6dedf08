------------------------------- MODULE LqrGen -------------------------------
(* Optimal control problems, solver settings and histories of use of the       *)
(* iterative LQR solver.                                                       *)
EXTENDS Rand, TraceIO
CONSTANTS Walks, Kind
VARIABLES w
R(s, d, a, b) == RI(w, s, d, a, b)
Ch(s, d, q) == RS(w, s, d, q)
Off == -9999
NP == IF R(0, 1, 0, 4) = 0 THEN 2 ELSE 1
Pb(k) == 1000 * k
T(k) == R(Pb(k), 1, 1, IF Kind = "poly" THEN 4 ELSE 6)
NX(k) == R(Pb(k), 2, 1, 3)
NU(k) == R(Pb(k), 3, 1, 2)
NZ(k) == NX(k) + NU(k)
\* one matrix for all steps, or one each
Varies(k) == R(Pb(k), 4, 0, 2) > 0
St(k, t) == Pb(k) + IF Varies(k) THEN 20 * t ELSE 20
Odd(k) == IF Kind = "poly" THEN R(Pb(k), 5, 0, 2) ELSE 0       \* 0: convex, 1: concave in a state, 2: concave in a control
Dyn(k, t) == LET s == St(k, t) IN
  [A |-> [i \in 1..NX(k) |-> [j \in 1..NZ(k) |-> IF i = j THEN R(s, 10 + i, -90, -10) ELSE IF j > NX(k) THEN R(s, 20 + 6 * i + j, -60, 60) ELSE R(s, 20 + 6 * i + j, -30, 30)]],
   c |-> [i \in 1..NX(k) |-> IF R(s, 50, 0, 1) = 0 THEN 0 ELSE R(s, 50 + i, -20, 20)],
   n |-> IF Kind = "poly" THEN [q \in 1..R(s, 60, 0, 2) |-> [i |-> R(s, 60 + q, 1, NX(k)), k |-> R(s, 62 + q, -15, 15), p |-> R(s, 64 + q, 1, NZ(k)), q |-> R(s, 66 + q, 1, NZ(k))]] ELSE <<>>]
\* diagonally dominant
Sym(s, d, i, j, m) == IF i < j THEN R(s, d + 6 * i + j, -m, m) ELSE R(s, d + 6 * j + i, -m, m)
Cost(k, t) == LET s == St(k, t) + 5  n == NZ(k) IN
  [W |-> [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN Sym(s, 10, i, j, 8)
          ELSE IF Odd(k) = 1 /\ i = 1 THEN R(s, 40, -60, -10) ELSE IF Odd(k) = 2 /\ i = n THEN R(s, 41, -60, 10) ELSE R(s, 41 + i, 40, 90)]],
   w |-> [i \in 1..n |-> R(s, 50 + i, -30, 30)],
   f |-> [i \in 1..n |-> IF Odd(k) = 2 /\ i = n THEN R(s, 60, 10, 40) ELSE IF Kind = "poly" THEN R(s, 60 + i, 0, 5) ELSE 0]]
End(k) == LET s == Pb(k) + 9  n == NX(k) IN
  [W |-> [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN Sym(s, 10, i, j, 8) ELSE IF Odd(k) = 1 /\ i = 1 THEN R(s, 40, -60, -10) ELSE R(s, 41 + i, 20, 120)]],
   w |-> [i \in 1..n |-> R(s, 50 + i, -30, 30)], f |-> [i \in 1..n |-> IF Kind = "poly" THEN R(s, 60 + i, 0, 5) ELSE 0]]
Lim(k) == Kind = "lim"
\* limits that never matter, on both sides, or one side of zero only
Lo(k, i) == CASE R(Pb(k), 70, 0, 4) = 0 -> -3000 [] R(Pb(k), 70 + i, 0, 5) = 0 -> R(Pb(k), 75 + i, 5, 20) [] OTHER -> -R(Pb(k), 75 + i, 5, 60)
Hi(k, i) == CASE R(Pb(k), 70, 0, 4) = 0 -> 3000 [] OTHER -> IF Lo(k, i) > 0 THEN Lo(k, i) + R(Pb(k), 80 + i, 10, 50) ELSE R(Pb(k), 80 + i, 5, 60)
Set(k) == LET s == Pb(k) + 3 IN
  [iters |-> Ch(s, 1, <<30, 30, 30, 60, 1, 1, 2, 3, 0>>), alphas |-> Ch(s, 2, <<5, 4, 3, 2, 1>>), tolc |-> Ch(s, 3, <<9, 9, 6, 3, 2>>), tolg |-> Ch(s, 4, <<6, 6, 5, 4, 2>>),
   diverge |-> IF Kind = "poly" THEN Ch(s, 5, IF Odd(k) = 1 THEN <<2, 2, 2, 3>> ELSE <<3, 3, 3, 2>>) ELSE Ch(s, 5, <<4, 4, 4, 3>>), min |-> R(s, 6, -6, -3), max |-> R(s, 7, 0, 4), ini |-> Ch(s, 8, <<Off, Off, -5, -3, -2, 0>>), inc |-> R(s, 9, 1, 2), mul |-> R(s, 10, -1, 1),
   dt |-> Ch(s, 11, <<1000, 100, 10, 50, 3>>), lim |-> Lim(k), lo |-> [i \in 1..NU(k) |-> Lo(k, i)], hi |-> [i \in 1..NU(k) |-> Hi(k, i)], store |-> R(s, 12, 0, 2) = 0]
Prob(k) == [mark |-> 100 + k, T |-> T(k), nx |-> NX(k), nu |-> NU(k), rk |-> R(Pb(k), 6, 0, 2) = 0,
            x0 |-> [i \in 1..NX(k) |-> R(Pb(k), 90 + i, -150, 150)], u0 |-> [t \in 1..T(k) |-> [i \in 1..NU(k) |-> IF R(Pb(k), 95, 0, 2) = 0 THEN 0 ELSE R(Pb(k) + t, 95 + i, -80, 80)]],
            dyn |-> [t \in 1..T(k) |-> Dyn(k, t)], cost |-> [t \in 1..T(k) |-> Cost(k, t)], end |-> End(k), set |-> Set(k)]
Run(p, i) == [p |-> p, init |-> i]
Runs == IF NP = 2 THEN << Run(1, TRUE), Run(2, TRUE) >> ELSE CASE R(0, 2, 0, 4) = 0 -> << Run(1, TRUE), Run(1, FALSE) >> [] R(0, 2, 0, 4) = 1 -> << Run(1, TRUE), Run(1, TRUE) >> [] OTHER -> << Run(1, TRUE) >>
Rec == [probs |-> [k \in 1..NP |-> Prob(k)], runs |-> Runs]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
