----------------------------- MODULE RotationMC -----------------------------
(* The algebra itself, checked exhaustively on small integer quaternions: the *)
(* matrices are rotations, composition and inverse agree, the double cover,   *)
(* the shortest difference recovers its target, the fixed-point logarithm is  *)
(* additive on a common axis.                                                 *)
EXTENDS Rotation, TLC
CONSTANTS K
VARIABLES a, b
Qs == { <<w, x, y, z>> : w \in -K..K, x \in -K..K, y \in -K..K, z \in -K..K } \ { <<0, 0, 0, 0>> }
Rs == { [ax |-> i, p |-> p, q |-> q] : i \in 1..Len(Axes), p \in -2..2, q \in 1..3 }
Init == a \in Qs /\ b = <<1, 0, 0, 0>>
Compose == b = <<1, 0, 0, 0>> /\ b' \in Qs /\ a' = a
Next == Compose
Spec == Init /\ [][Next]_<<a, b>>
M3(A, B) == MatMul(A, B, 3)
Hom == RotN(QMul(a, b)) = M3(RotN(a), RotN(b))
Norm == QN2(QMul(a, b)) = QN2(a) * QN2(b)
Rot == M3(RotN(a), Transpose(RotN(a), 3)) = [i \in 1..3 |-> VScale(QN2(a) * QN2(a), VUnit(3, i))]
Inv == QMul(a, QConj(a)) = <<QN2(a), 0, 0, 0>> /\ RotN(QConj(a)) = Transpose(RotN(a), 3)
Cover == RotN(VNeg(a)) = RotN(a)
\* the relative rotation of b with respect to a, in the world, carries a into b
Diff == QMul(QMul(b, QConj(a)), a) = VScale(QN2(a), b)
SkewCross == MatVec(Skew(QVec(a)), QVec(b)) = Cross(QVec(a), QVec(b))
Orth == \A i \in 1..Len(Axes) : VDot(Axes[i].a, Axes[i].a) = Axes[i].l * Axes[i].l /\ VDot(Axes[i].a, Axes[i].e) = 0
Tan == \A i \in 1..2, p \in 0..5, q \in 1..5 : FxAbs(AtanFx(p, q) + AtanFx(q, p) - 15707963) <= 4
AddLog == \A r1 \in Rs : FxAbs(2 * Half(r1) - (IF r1.p < 0 THEN -1 ELSE 1) * AtanFx(2 * FxAbs(r1.p) * r1.q, FxAbs(r1.q * r1.q - r1.p * r1.p))) <= 10 \/ r1.q * r1.q <= r1.p * r1.p
ASSUME Orth /\ Tan /\ AddLog
=============================================================================
