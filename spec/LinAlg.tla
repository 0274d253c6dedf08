------------------------------- MODULE LinAlg -------------------------------
(* Small exact integer linear algebra; matrices are sequences of rows.        *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
VSum(v) == SumTo(v, Len(v))
VDotDef(u, v) == SumTo([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
VDot(u, v) == VDotDef(u, v)
VAddDef(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VAdd(u, v) == VAddDef(u, v)
VSubDef(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
VSub(u, v) == VSubDef(u, v)
VScaleDef(k, v) == [i \in 1..Len(v) |-> k * v[i]]
VScale(k, v) == VScaleDef(k, v)
VNeg(v) == VScale(-1, v)
VAbs(v) == [i \in 1..Len(v) |-> IF v[i] < 0 THEN -v[i] ELSE v[i]]
VZero(n) == [i \in 1..n |-> 0]
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
MatVec(M, x) == [i \in 1..Len(M) |-> VDot(M[i], x)]
\* M' y for a matrix with n columns (n is needed when M has no rows)
TMatVec(M, y, n) == [j \in 1..n |-> SumTo([i \in 1..Len(M) |-> M[i][j] * y[i]], Len(M))]
MatMul(A, B, n) == [i \in 1..Len(A) |-> [j \in 1..n |-> SumTo([k \in 1..Len(B) |-> A[i][k] * B[k][j]], Len(B))]]
Transpose(M, n) == [j \in 1..n |-> [i \in 1..Len(M) |-> M[i][j]]]
\* matrices with at least one row
MTransDef(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
MTrans(M) == MTransDef(M)
MAddDef(P, Q) == [i \in 1..Len(P) |-> [j \in 1..Len(P[i]) |-> P[i][j] + Q[i][j]]]
MAdd(P, Q) == MAddDef(P, Q)
MBlockDef(M, a, b, c, d) == [i \in 1..(b - a + 1) |-> [j \in 1..(d - c + 1) |-> M[a + i - 1][c + j - 1]]]
MBlock(M, a, b, c, d) == MBlockDef(M, a, b, c, d)
Ident(n) == [i \in 1..n |-> VUnit(n, i)]
VMaxAbs(v) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE LET a == IF v[i] < 0 THEN -v[i] ELSE v[i] m == F(i - 1) IN IF a > m THEN a ELSE m IN F(Len(v))
RECURSIVE VGcd(_, _)
VGcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE VGcd(b, a % (IF b < 0 THEN -b ELSE b))
Reduced(v) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE VGcd(G(i - 1), v[i]) g == G(Len(v)) IN IF g = 0 THEN v ELSE [i \in 1..Len(v) |-> IF v[i] < 0 THEN -((-v[i]) \div g) ELSE v[i] \div g]
\* rank of a matrix with n columns by exact elimination
RECURSIVE RankFrom(_, _, _)
RankFrom(M, j, n) ==
  IF j > n \/ Len(M) = 0 THEN 0
  ELSE LET P == { i \in 1..Len(M) : M[i][j] # 0 } IN
       IF P = {} THEN RankFrom(M, j + 1, n)
       ELSE LET p == CHOOSE i \in P : TRUE
                rest == SelectSeq([i \in 1..Len(M) |-> IF i = p THEN <<>> ELSE Reduced(VSub(VScale(M[p][j], M[i]), VScale(M[i][j], M[p])))], LAMBDA v : v # <<>>)
            IN 1 + RankFrom(rest, j + 1, n)
RankOf(M, n) == RankFrom([i \in 1..Len(M) |-> Reduced(M[i])], 1, n)
Sub(v, a, b) == [i \in 1..(b - a + 1) |-> v[a + i - 1]]
=============================================================================
