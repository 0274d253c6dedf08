----------------------------- MODULE Centroidal -----------------------------
(* Centroidal dynamics of one rigid body driven by a force and a moment:       *)
(*   c' = c + dt v,  v' = v + dt (f/m - g),  q' = exp(dt w/2) q,               *)
(*   w' = w + dt I(q)^-1 (moment - w x I(q) w),   I(q) = R diag(J) R'.         *)
(* Fixed point.  Units: angular velocity 8 rad/s, angular acceleration         *)
(* 64 rad/s2, moment 64 mNm; inertia J in 1e-8 kg m2.                          *)
EXTENDS Rotation, TLC
Tr(M) == TransFx(M)
MM(A, B) == TLCEval(FxMatMul(A, B))
MNeg(A) == [i \in 1..3 |-> [j \in 1..3 |-> -A[i][j]]]
MScale(k, A) == [i \in 1..3 |-> [j \in 1..3 |-> FxMul(k, A[i][j])]]
Id3 == << <<One, 0, 0>>, <<0, One, 0>>, <<0, 0, One>> >>
Zero3 == << <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >>
\* gyroscopic coefficients
Gyr(J) == << FxDiv(J[3] - J[2], J[1]), FxDiv(J[1] - J[3], J[2]), FxDiv(J[2] - J[1], J[3]) >>
\* angular acceleration in body coordinates for body rates w and body moment t
BodyAcc(J, w, t) ==
  LET r == Gyr(J) IN
  << FxMul(FxDiv(100000, J[1]), t[1]) - FxMul(r[1], FxMul(w[2], w[3])),
     FxMul(FxDiv(100000, J[2]), t[2]) - FxMul(r[2], FxMul(w[3], w[1])),
     FxMul(FxDiv(100000, J[3]), t[3]) - FxMul(r[3], FxMul(w[1], w[2])) >>
AngAcc(J, R, w, t) == FxMatVec(R, BodyAcc(J, FxMatVec(Tr(R), w), FxMatVec(Tr(R), t)))
\* derivative of the angular acceleration with respect to the rates (unit 8/s)
AccByRate(J, R, w) ==
  LET r == Gyr(J)  b == TLCEval(FxMatVec(Tr(R), w))
      M == << << 0, -FxMul(r[1], b[3]), -FxMul(r[1], b[2]) >>, << -FxMul(r[2], b[3]), 0, -FxMul(r[2], b[1]) >>, << -FxMul(r[3], b[2]), -FxMul(r[3], b[1]), 0 >> >>
  IN MM(R, MM(M, Tr(R)))
\* ... to the moment (unit 256 /(kg m2))
AccByMoment(J, R) ==
  LET D == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN FxDiv(390625, J[i]) ELSE 0]] IN MM(R, MM(D, Tr(R)))
\* ... to a small turn of the body, in world coordinates (unit 64)
AccByTurn(J, R, w, t) ==
  LET g == TLCEval(AngAcc(J, R, w, t))
      N == MM(AccByMoment(J, R), Skew(t))
  IN MAdd(MNeg(Skew(g)), MAdd(MM(AccByRate(J, R, w), Skew(w)),
          [i \in 1..3 |-> [j \in 1..3 |-> TDiv(32 * N[i][j], 125)]]))
=============================================================================
