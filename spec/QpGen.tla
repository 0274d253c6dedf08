------------------------------- MODULE QpGen -------------------------------
(* Histories of quadratic programs on one solver object; every program is     *)
(* built around a minimiser with multipliers, or a certificate that it has no *)
(* feasible point, and both are checked exactly (CertInv).                    *)
EXTENDS Qp, Rand, TraceIO, FiniteSets
CONSTANTS Walks, MaxN
VARIABLES w, st, D, H       \* walk, step, programs with certificates, history of calls
gv == <<w, st, D, H>>
R(d, a, b) == RI(w, st, d, a, b)
Vec(d, n, m) == [i \in 1..n |-> R(d + i, -m, m)]
\* sparse-ish row
Row(d, n) == [i \in 1..n |-> IF R(d + 20 + i, 0, 3) = 0 THEN 0 ELSE R(d + i, -3, 3)]
Hess(n) == LET M == [i \in 1..n |-> Vec(100 * i, n, 2)] k == R(1, 1, 3) IN
  [i \in 1..n |-> [j \in 1..n |-> SumTo([q \in 1..n |-> M[q][i] * M[q][j]], n) + (IF i = j THEN k ELSE 0)]]
Perm(d, m) == LET key(i) == R(d + i, 0, 997) * 32 + i
              IN [r \in 1..m |-> CHOOSE i \in 1..m : Cardinality({ j \in 1..m : key(j) < key(i) }) = r - 1]
\* equality rows through x, possibly one implied by the others
EqRows(n, x) ==
  LET k == IF R(2, 0, 2) = 0 THEN 0 ELSE R(3, 1, IF n > 2 THEN 2 ELSE 1)
      base == [i \in 1..k |-> Row(3000 + 50 * i, n)]
      dep == IF k > 0 /\ R(4, 0, 4) = 0 THEN << IF k = 2 /\ R(5, 0, 1) = 0 THEN VAdd(base[1], base[2]) ELSE VScale(R(6, 1, 2), base[1]) >> ELSE <<>>
  IN IF R(7, 0, 1) = 0 THEN base \o dep ELSE dep \o base
\* inequality rows: kind "s" strictly active (multiplier > 0), "w" weakly active, "i" inactive
IneqRows(n, x) ==
  LET m == R(8, 0, 6)
      RECURSIVE B(_)
      B(i) == IF i = 0 THEN <<>>
        ELSE LET prev == B(i - 1) k == R(4000 + i, 0, 9)
                 row == IF i > 1 /\ k = 0 THEN prev[R(4100 + i, 1, i - 1)].r
                        ELSE IF i > 1 /\ k = 1 THEN VScale(R(4100 + i, 1, 3), prev[R(4200 + i, 1, i - 1)].r)
                        ELSE IF i > 2 /\ k = 2 THEN VAdd(prev[i - 1].r, prev[i - 2].r)
                        ELSE IF i > 1 /\ k = 3 THEN VNeg(prev[i - 1].r)
                        ELSE IF k = 4 THEN VScale(IF R(4300 + i, 0, 1) = 0 THEN 1 ELSE -1, VUnit(n, R(4200 + i, 1, n)))
                        ELSE Row(5000 + 50 * i, n)
                 c == RS(w, st, 4400 + i, <<"s", "s", "w", "i", "i">>)
             IN Append(prev, [r |-> row, c |-> c, slack |-> IF c = "i" THEN R(4500 + i, 1, 6) ELSE 0, lam |-> IF c = "s" THEN R(4600 + i, 1, 4) ELSE 0])
  IN B(m)
Planted ==
  LET n == R(9, 1, MaxN) x == Vec(10, n, 4) h == Hess(n) E == EqRows(n, x) I == IneqRows(n, x)
      A == [i \in 1..Len(I) |-> I[i].r]
      a == [i \in 1..Len(I) |-> -VDot(A[i], x) - I[i].slack]
      lam == [i \in 1..Len(I) |-> I[i].lam] nu == Vec(30, Len(E), 3)
      g == VNeg(VAdd(MatVec(h, x), VAdd(TMatVec(E, nu, n), TMatVec(A, lam, n))))
  IN [p |-> [n |-> n, H |-> h, g |-> g, E |-> E, e |-> VNeg(MatVec(E, x)), A |-> A, a |-> a], feas |-> TRUE, x |-> x, nu |-> nu, lam |-> lam]
\* the constraints of q together with one more that contradicts a combination of them
Contradict(q, d) ==
  LET p == q.p
      mu == [i \in 1..Len(p.E) |-> R(d + i, -1, 1)]
      y == [i \in 1..Len(p.A) |-> RS(w, st, d + 20 + i, <<0, 0, 1, 1, 2>>)]
      row == VNeg(VAdd(TMatVec(p.E, mu, p.n), TMatVec(p.A, y, p.n)))
      k == -(VDot(p.e, mu) + VDot(p.a, y)) + R(d + 50, 1, 3)
  IN [q EXCEPT !.p = WithRows(p, <<row>>, <<k>>), !.feas = FALSE, !.nu = mu, !.lam = Append(y, 1)]
\* one more constraint that the others imply
Implied(q, d) ==
  LET p == q.p m == Len(p.A) t == R(d, 0, 2) i == R(d + 1, 1, m) j == R(d + 2, 1, m)
      row == IF m = 0 \/ t = 0 THEN VZero(p.n) ELSE IF t = 1 THEN p.A[i] ELSE VAdd(p.A[i], p.A[j])
      k == (IF m = 0 \/ t = 0 THEN 0 ELSE IF t = 1 THEN p.a[i] ELSE p.a[i] + p.a[j]) - R(d + 3, 0, 1)
  IN [q EXCEPT !.p = WithRows(p, <<row>>, <<k>>), !.lam = Append(q.lam, 0)]
Shuffled(q, d) == LET pi == Perm(d, Len(q.p.A)) IN [q EXCEPT !.p = Permuted(q.p, pi), !.lam = Permute(q.lam, pi)]
Scales(q, d) == [h |-> RS(w, st, d, <<0, 0, 0, 5, -5, 12, -12, 25>>), rows |-> [i \in 1..(Len(q.p.A) + 1) |-> RS(w, st, d + i, <<0, 0, 0, 0, 3, -3, 8, -8>>)]]
Call(q, how, d) == [how |-> how, n |-> q.p.n, H |-> q.p.H, g |-> q.p.g, E |-> q.p.E, e |-> q.p.e, A |-> q.p.A, a |-> q.p.a,
                    style |-> R(d + 40, 0, 3), sc |-> Scales(q, d), feas |-> q.feas, x |-> IF q.feas THEN q.x ELSE <<>>]
cur == D[1]
Init == w \in 1..Walks /\ st = 0 /\ D = <<>> /\ H = <<>>
First == /\ st = 0 /\ st' = 1 /\ UNCHANGED <<w, H>>
         /\ LET q == Planted IN D' = << IF R(60, 0, 4) = 0 THEN Contradict(q, 7000) ELSE q >>
Solve0 == st = 1 /\ st' = 2 /\ H' = <<Call(cur, "set", 8000)>> /\ UNCHANGED <<w, D>>
More == st > 1 /\ st < 2 + (w % 4)
\* what happens next to the object
Again == More /\ R(70, 0, 5) = 0 /\ st' = st + 1 /\ H' = Append(H, [Call(cur, "again", 8000) EXCEPT !.sc = H[Len(H)].sc]) /\ UNCHANGED <<w, D>>
Reorder == More /\ R(70, 0, 5) = 1 /\ st' = st + 1 /\ LET q == Shuffled(cur, 7100) IN D' = <<q>> /\ H' = Append(H, Call(q, "set", 8000)) /\ UNCHANGED w
AppendImplied == /\ More /\ R(70, 0, 5) = 2 /\ cur.feas /\ st' = st + 1
                 /\ LET q == Implied(cur, 7200) IN D' = <<q>> /\ H' = Append(H, [Call(q, "append", 8000) EXCEPT !.sc = H[Len(H)].sc]) /\ UNCHANGED w
AppendContra == /\ More /\ R(70, 0, 5) = 3 /\ cur.feas /\ st' = st + 1
                /\ LET q == Contradict(cur, 7300) IN D' = <<q>> /\ H' = Append(H, [Call(q, "append", 8000) EXCEPT !.sc = H[Len(H)].sc]) /\ UNCHANGED w
Other == /\ More /\ (R(70, 0, 5) \in {4, 5} \/ (R(70, 0, 5) \in {2, 3} /\ ~cur.feas)) /\ st' = st + 1
         /\ LET q0 == Planted q == IF R(60, 0, 4) = 0 THEN Contradict(q0, 7000) ELSE q0 IN D' = <<q>> /\ H' = Append(H, Call(q, "set", 8000)) /\ UNCHANGED w
Next == First \/ Solve0 \/ Again \/ Reorder \/ AppendImplied \/ AppendContra \/ Other
Spec == Init /\ [][Next]_gv
CertInv == D # <<>> => IF cur.feas THEN IsKkt(cur.p, cur.x, cur.nu, cur.lam) ELSE IsFarkas(cur.p, cur.nu, cur.lam)
EmitInv == (st = 2 + (w % 4)) => Emit([w |-> w, calls |-> H, inst |-> R(90, 0, 3)])
=============================================================================
