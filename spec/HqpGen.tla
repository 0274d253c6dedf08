------------------------------- MODULE HqpGen -------------------------------
(* Histories of hierarchies on one solver object. Every rank is conflict free *)
(* at the planted point, or gets one more row that balances its conflicts, so *)
(* that the optimal violations of all ranks are known exactly.                *)
EXTENDS Hqp, Rand, TraceIO, FiniteSets
CONSTANTS Walks, MaxN, MaxRanks, MaxProblems
VARIABLES w, st, D, H          \* walk, step, hierarchy under construction, finished problems
gv == <<w, st, D, H>>
R(d, a, b) == RI(w, st, d, a, b)
Row(d, n) == [i \in 1..n |-> IF R(d + 20 + i, 0, 2) = 0 THEN 0 ELSE R(d + i, -2, 2)]
cur == D[1]
AllRows(h) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o h[k].B \o h[k].A IN F(Len(h))
\* a new row: random, or one that depends on the rows of the rank or of earlier ranks
NewRow(d, n, pool) ==
  LET t == R(d, 0, 9) m == Len(pool) IN
  IF m > 0 /\ t = 0 THEN pool[R(d + 1, 1, m)]
  ELSE IF m > 0 /\ t = 1 THEN VScale(RS(w, st, d + 2, <<-1, 2, -2>>), pool[R(d + 1, 1, m)])
  ELSE IF m > 1 /\ t = 2 THEN VAdd(pool[R(d + 1, 1, m)], pool[R(d + 3, 1, m)])
  ELSE IF t = 3 THEN VUnit(n, R(d + 1, 1, n))
  ELSE Row(d + 5, n)
NewRows(d, n, k, pool) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE LET p == F(i - 1) IN Append(p, NewRow(d + 60 * i, n, pool \o p)) IN F(k)
Small(v) == VMaxAbs(v) <= 12
\* the k-th rank of a hierarchy with planted point x
MkRank(h, x, n) ==
  LET kind == R(1, 0, 11)          \* 0 empty, 1..4 equalities, 5..7 inequalities, else both
      pool == AllRows(h)
      ne == IF kind = 0 \/ kind \in 5..7 THEN 0 ELSE R(2, 1, 2)
      ni == IF kind \in 0..4 THEN 0 ELSE R(3, 1, 2)
      B == NewRows(1000, n, ne, pool)
      A == NewRows(3000, n, ni, pool \o B)
      conf == R(4, 0, 2) = 0
      r == [i \in 1..ne |-> IF conf THEN R(10 + i, -1, 1) ELSE 0]
      \* violation (> 0), tight (0) or slack (< 0)
      v == [i \in 1..ni |-> IF conf /\ R(20 + i, 0, 2) = 0 THEN R(30 + i, 1, 2) ELSE RS(w, st, 40 + i, <<0, 0, -1, -2, -5>>)]
      need == r # VZero(ne) \/ \E i \in 1..ni : v[i] > 0 \/ R(5, 0, 11) = 0
      cert == [j \in 1..Len(h) |->
                 [nu |-> [i \in 1..Len(h[j].B) |-> IF R(6, 0, 2) = 0 THEN 0 ELSE RS(w, st, 5000 + 50 * j + i, <<0, 0, 1, -1>>)],
                  lam |-> [i \in 1..Len(h[j].A) |-> LET q == InRes(h[j], x)[i] IN
                              IF q < 0 \/ R(6, 0, 2) = 0 THEN 0 ELSE IF q = 0 THEN RS(w, st, 6000 + 50 * j + i, <<0, 0, 1>>) ELSE RS(w, st, 6000 + 50 * j + i, <<0, 0, 1, -1>>)]]]
      none == [j \in 1..Len(h) |-> [nu |-> VZero(Len(h[j].B)), lam |-> VZero(Len(h[j].A))]]
      bal == VNeg(VAdd(VAdd(TMatVec(B, r, n), TMatVec(A, Pos(v), n)), PrevForce(h, Len(h), cert, n)))
      asEq == R(7, 0, 1) = 0
      B2 == IF need /\ asEq THEN Append(B, bal) ELSE B
      r2 == IF need /\ asEq THEN Append(r, 1) ELSE r
      A2 == IF need /\ ~asEq THEN Append(A, bal) ELSE A
      v2 == IF need /\ ~asEq THEN Append(v, 1) ELSE v
  IN [rank |-> [B |-> B2, b |-> VSub(r2, MatVec(B2, x)), A |-> A2, a |-> VSub(v2, MatVec(A2, x))],
      cert |-> IF need THEN cert ELSE none, ok |-> Small(bal)]
Fits(h, r) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE Len(h[k].A) + F(k - 1) IN F(Len(h)) + Len(r.A) <= 16
Probs == 1 + (w % MaxProblems)
Init == w \in 1..Walks /\ st = 0 /\ D = <<>> /\ H = <<>>
Start == /\ D = <<>> /\ Len(H) < Probs /\ st' = st + 1 /\ UNCHANGED <<w, H>>
         /\ LET n == R(1, 1, MaxN) IN D' = << [n |-> n, x |-> [i \in 1..n |-> R(10 + i, -3, 3)], h |-> <<>>, cs |-> <<>>, len |-> R(2, 1, MaxRanks)] >>
AddRank == /\ D # <<>> /\ Len(cur.h) < cur.len /\ st' = st + 1 /\ UNCHANGED <<w, H>>
           /\ LET m == MkRank(cur.h, cur.x, cur.n) IN
              D' = << IF m.ok /\ Fits(cur.h, m.rank) THEN [cur EXCEPT !.h = Append(@, m.rank), !.cs = Append(@, m.cert)] ELSE [cur EXCEPT !.len = @ - 1] >>
EqRows(k) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o cur.h[i].B IN F(k)
\* dimension of the null space left after the first k ranks
Nul(k) == cur.n - RankOf(EqRows(k), cur.n)
Kind(k) == IF cur.h[k].B = <<>> /\ cur.h[k].A = <<>> THEN "none" ELSE IF cur.h[k].A = <<>> /\ Nul(k - 1) = 0 THEN "skip" ELSE IF cur.h[k].B = <<>> THEN "in" ELSE "eq"
Finish == /\ D # <<>> /\ Len(cur.h) = cur.len /\ st' = st + 1 /\ UNCHANGED w /\ D' = <<>>
          /\ H' = Append(H, [n |-> cur.n, ranks |-> [k \in 1..Len(cur.h) |-> [B |-> cur.h[k].B, b |-> cur.h[k].b, A |-> cur.h[k].A, a |-> cur.h[k].a,
                                                     r |-> EqRes(cur.h[k], cur.x), v |-> Viol(cur.h[k], cur.x),
                                                     nul |-> Nul(k), kind |-> Kind(k)]],
                             init |-> R(3, 0, 3) = 0, style |-> R(4, 0, 3), cols |-> R(5, 0, 119), drop |-> R(6, 0, 1) = 0])
Next == Start \/ AddRank \/ Finish
Spec == Init /\ [][Next]_gv
CertInv == D # <<>> => Cert(cur.h, cur.x, cur.cs, cur.n)
EmitInv == (D = <<>> /\ Len(H) = Probs) => Emit([w |-> w, inst |-> R(90, 0, 3), probs |-> H])
=============================================================================
