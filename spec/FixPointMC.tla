----------------------------- MODULE FixPointMC -----------------------------
(* The native versions of the fixed-point and vector operators agree with      *)
(* their definitions (to two units of the last decimal).                       *)
EXTENDS Rotation
CONSTANT M
VARIABLES a, b, c
vars == <<a, b, c>>
G == {0, 1, -1, 49, -50, 1234567, -9999999, 10000000, 14142136, -20000000}
H == G \cup {5, -123456, 33333333, -99999999}
Init == a \in G /\ b \in H /\ c = 0
Next == c < M /\ c' = c + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Near2(x, y, t) == FxAbs(x - y) <= t
V == << a, b \div 8, (a + c * 1234567) \div 4 >>
W == << (b + c) \div 9, a, c * 777777 - a >>
A == << V, W, << c * 31, a \div 2, -b \div 8 >> >>
Same(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near2(u[i], v[i], t)
Agree ==
  /\ Near2(FxMul(a, b), FxMulDef(a, b), 2)
  /\ LET d == FxAbs(b) \div 3 + 1 IN FxAbs(a) \div d < 200 => Near2(FxDiv(a, d), FxDivDef(a, d), 1)
  /\ Near2(FxDot(V, W), FxDotDef(V, W), 4)
  /\ Same(FxMatVec(A, W), FxMatVecDef(A, W), 4)
  /\ LET P == FxMatMul(A, A) Q == FxMatMulDef(A, A) IN \A i \in 1..3 : Same(P[i], Q[i], 4)
  /\ LET B == SubSeq(A, 1, 2) P == FxMM(B, A) Q == FxMMDef(B, A) IN Len(P) = 2 /\ \A i \in 1..2 : Same(P[i], Q[i], 4)
  /\ LET B == MBlock(A, 1, 2, 1, 3) IN B = MBlockDef(A, 1, 2, 1, 3) /\ MTrans(B) = MTransDef(B) /\ MBlock(A, 2, 3, 3, 3) = << <<A[2][3]>>, <<A[3][3]>> >>
  /\ MAdd(A, A) = MAddDef(A, A)
  /\ Same(FxCross(V, W), FxCrossDef(V, W), 4)
  /\ Same(FxScale(a, W), FxScaleDef(a, W), 2)
  /\ VAdd(V, W) = VAddDef(V, W) /\ VSub(V, W) = VSubDef(V, W) /\ VScale(7, V) = VScaleDef(7, V)
  /\ VDot(<<a \div 10000, b \div 10000, c>>, <<b \div 10000, c, a \div 1000>>) = VDotDef(<<a \div 10000, b \div 10000, c>>, <<b \div 10000, c, a \div 1000>>)
=============================================================================
