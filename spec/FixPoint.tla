------------------------------ MODULE FixPoint ------------------------------
(* Fixed-point reals with 7 decimals in 32-bit integers (x stands for x/10^7). *)
EXTENDS Integers, Sequences, TLC
One == 10000000
PiFx == 31415927
FxAbs(x) == IF x < 0 THEN -x ELSE x
FxSgn(x) == IF x < 0 THEN -1 ELSE 1
\* quotient rounded towards zero, d > 0
TDiv(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d
\* TLC evaluates the operators below natively (java/vf/FxOverrides.java, nearest integer, any size that
\* fits); the definitions are the reference, FixPointMC compares both.
\* a*b for |a| <= 2*One and |a*b| <= 20*One (TLC stops on overflow): base-100 digits of |b|
FxMulDef(a, b) ==
  LET s == FxSgn(a) * FxSgn(b)
      x == FxAbs(a)  y == FxAbs(b)
      d0 == y % 100  d1 == (y \div 100) % 100  d2 == (y \div 10000) % 100  d3 == y \div 1000000
      r0 == (x * d0) \div 100
      r1 == (r0 + x * d1) \div 100
      r2 == (r1 + x * d2 + 50) \div 100
  IN s * ((r2 + x * d3 + 5) \div 10)
FxMul(a, b) == FxMulDef(a, b)
\* n/d for 0 < d <= 2*10^8 and |n/d| < 200
FxDivDef(n, d) ==
  LET s == FxSgn(n)  a == FxAbs(n)
      RECURSIVE F(_, _, _)
      F(q, r, k) == IF k = 0 THEN (IF 2 * r >= d THEN q + 1 ELSE q) ELSE F(q * 10 + ((r * 10) \div d), (r * 10) % d, k - 1)
  IN s * F(a \div d, a % d, 7)
FxDiv(n, d) == FxDivDef(n, d)
FxDotDef(u, v) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE F(i - 1) + FxMulDef(u[i], v[i]) IN F(Len(u))
FxDot(u, v) == FxDotDef(u, v)
FxMatVecDef(M, v) == LET A == TLCEval(M) u == TLCEval(v) IN TLCEval([i \in 1..Len(A) |-> FxDotDef(A[i], u)])
FxMatVec(M, v) == FxMatVecDef(M, v)
FxMatMulDef(P, Q) == LET A == TLCEval(P) B == TLCEval(Q) IN TLCEval([i \in 1..3 |-> [j \in 1..3 |-> FxDotDef(A[i], <<B[1][j], B[2][j], B[3][j]>>)]])
FxMatMul(P, Q) == FxMatMulDef(P, Q)
FxMMDef(P, Q) == LET A == TLCEval(P) B == TLCEval(Q) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> FxDotDef(A[i], [k \in 1..Len(B) |-> B[k][j]])]])
FxMM(P, Q) == FxMMDef(P, Q)
FxCrossDef(a0, b0) == LET a == TLCEval(a0) b == TLCEval(b0) IN << FxMulDef(a[2], b[3]) - FxMulDef(a[3], b[2]), FxMulDef(a[3], b[1]) - FxMulDef(a[1], b[3]), FxMulDef(a[1], b[2]) - FxMulDef(a[2], b[1]) >>
FxCross(a, b) == FxCrossDef(a, b)
FxScaleDef(k, v) == TLCEval([i \in 1..Len(v) |-> FxMulDef(k, v[i])])
FxScale(k, v) == FxScaleDef(k, v)
\* Taylor series of atan(t), |t| <= 1/4
AtanSmall(t) ==
  LET t2 == FxMul(t, t)  t3 == FxMul(t2, t)  t5 == FxMul(t3, t2)  t7 == FxMul(t5, t2)  t9 == FxMul(t7, t2)
  IN t - TDiv(t3, 3) + TDiv(t5, 5) - TDiv(t7, 7) + TDiv(t9, 9)
\* angle of the point (x, y), x >= 0, y >= 0, not both zero; |x|, |y| <= 20000
RECURSIVE AtanFx(_, _)
AtanFx(y, x) ==
  IF y > x THEN 15707963 - AtanFx(x, y)
  ELSE IF 12 * y > 5 * x THEN 7853982 - AtanFx(x - y, x + y)
  ELSE IF 5 * y > x THEN 2449787 + (IF 4 * y >= x THEN AtanFx(4 * y - x, 4 * x + y) ELSE -AtanFx(x - 4 * y, 4 * x + y))
  ELSE AtanSmall(FxDiv(y, x))
=============================================================================
