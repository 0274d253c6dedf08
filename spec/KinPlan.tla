------------------------------ MODULE KinPlan ------------------------------
(* Following a dynamic plan step by step: stored state k is the pose reached   *)
(* so far, the velocity of the next one is the least-squares answer to the     *)
(* references of step k, and the pose moves along it for one time step.        *)
(* Momentum asked for in a step without any contact: that of free fall from    *)
(* the last step with contact (or from the initial state).                     *)
EXTENDS Kinematics
\* ---- cosine and sine of any angle (fixed point): series at an eighth, doubled three times
CosSinFx(a) ==
  LET b == TDiv(a, 8)  b2 == FxMul(b, b)
      c0 == One - TDiv(b2, 2) + TDiv(FxMul(b2, b2), 24) - TDiv(FxMul(b2, FxMul(b2, b2)), 720) + TDiv(FxMul(FxMul(b2, b2), FxMul(b2, b2)), 40320)
      s0 == FxMul(b, One - TDiv(b2, 6) + TDiv(FxMul(b2, b2), 120) - TDiv(FxMul(b2, FxMul(b2, b2)), 5040) + TDiv(FxMul(FxMul(b2, b2), FxMul(b2, b2)), 362880))
      dbl(x) == << FxMul(x[1], x[1]) - FxMul(x[2], x[2]), 2 * FxMul(x[1], x[2]) >>
  IN TLCEval(dbl(TLCEval(dbl(TLCEval(dbl(<<c0, s0>>))))))
\* rotation of a unit quaternion (w, x, y, z)
RotU(q) == LET w == q[1] x == q[2] y == q[3] z == q[4]  m(a, b) == 2 * FxMul(a, b) IN
  TLCEval(<< << One - m(y, y) - m(z, z), m(x, y) - m(w, z), m(x, z) + m(w, y) >>,
             << m(x, y) + m(w, z), One - m(x, x) - m(z, z), m(y, z) - m(w, x) >>,
             << m(x, z) - m(w, y), m(y, z) + m(w, x), One - m(x, x) - m(y, y) >> >>)
QMulFx(a, b) == << FxMul(a[1], b[1]) - FxMul(a[2], b[2]) - FxMul(a[3], b[3]) - FxMul(a[4], b[4]),
                   FxMul(a[1], b[2]) + FxMul(a[2], b[1]) + FxMul(a[3], b[4]) - FxMul(a[4], b[3]),
                   FxMul(a[1], b[3]) - FxMul(a[2], b[4]) + FxMul(a[3], b[1]) + FxMul(a[4], b[2]),
                   FxMul(a[1], b[4]) + FxMul(a[2], b[3]) - FxMul(a[3], b[2]) + FxMul(a[4], b[1]) >>
\* roll, pitch, yaw (half angles): yaw * pitch * roll
RpyQ(r) == LET h(i) == CosSinFx(TDiv(r[i], 2)) IN
  TLCEval(QMulFx(QMulFx(<< h(3)[1], 0, 0, h(3)[2] >>, << h(2)[1], 0, h(2)[2], 0 >>), << h(1)[1], h(1)[2], 0, 0 >>))
\* rotation vector of a quaternion with |vector part| <= 0.75:  2 asin(s)/s * v  (series in s^2)
AsinSer(s2) == LET RECURSIVE T(_, _) T(n, t) == IF n > 24 \/ t = 0 THEN t ELSE t + T(n + 1, TDiv(TDiv(FxMul(t, s2) * (2 * n + 1), 2 * n + 2) * (2 * n + 1), 2 * n + 3)) IN T(0, One)
LogQ(q0) == LET q == IF q0[1] < 0 THEN VNeg(q0) ELSE q0  v == << q[2], q[3], q[4] >>  f == AsinSer(FxDot(v, v)) IN FxScale(2 * f, v)
LogOk(q) == LET v == << q[2], q[3], q[4] >> IN FxDot(v, v) <= 5600000
\* ---- a pose moved along v (base axes) for time h:  SE(3) exponential by its series, joints added
ExpTerms(w, v) ==   \* sum over n of  [w]^n v / (n+1)!
  LET RECURSIVE S(_, _) S(n, t) == IF n > 14 \/ t = <<0, 0, 0>> THEN t ELSE VA(t, S(n + 1, LET c == FxCross(w, t) IN TLCEval([i \in 1..3 |-> TDiv(c[i], n + 2)]))) IN S(0, v)
ExpVec(w, u) ==     \* sum over n of  [w]^n u / n!
  LET RECURSIVE S(_, _) S(n, t) == IF n > 16 \/ t = <<0, 0, 0>> THEN t ELSE VA(t, S(n + 1, LET c == FxCross(w, t) IN TLCEval([i \in 1..3 |-> TDiv(c[i], n + 1)]))) IN S(0, u)
\* q = position, quaternion (x, y, z, w), joints
PoseQ(q) == TLCEval([p |-> Sub(q, 1, 3), R |-> RotU(<< q[7], q[4], q[5], q[6] >>), cs |-> TLCEval([j \in 1..(Len(q) - 7) |-> CosSinFx(q[7 + j])])])
Moved(q, q1, d, tol) ==
  LET R == RotU(<< q[7], q[4], q[5], q[6] >>)  R1 == RotU(<< q1[7], q1[4], q1[5], q1[6] >>)  w == Sub(d, 4, 6)
      p == VA(Sub(q, 1, 3), FxMatVec(R, ExpTerms(w, Sub(d, 1, 3))))
      e(k) == FxMatVec(R, ExpVec(w, [i \in 1..3 |-> IF i = k THEN One ELSE 0]))
      Cl(a, b) == \A i \in 1..Len(a) : FxAbs(a[i] - b[i]) <= tol
  IN /\ Cl(p, Sub(q1, 1, 3))
     /\ \A k \in 1..3 : Cl(e(k), ColOf(R1, k))
     /\ Cl(VA(Sub(q, 8, Len(q)), Sub(d, 7, Len(d))), Sub(q1, 8, Len(q1)))
     /\ FxAbs(FxDot(Sub(q1, 4, 7), Sub(q1, 4, 7)) - One) <= 20
\* ---- momentum asked for at step k: contact pattern act[1..n], plan lm, entry momentum E(s) of step s with contact (0: initial)
LastStance(fly, k) == LET S == { s \in 0..(k - 1) : s = 0 \/ fly[s] = 0 } IN CHOOSE s \in S : \A r \in S : r <= s
Drop(lz, k, s, w) == lz - (k - s) * w
=============================================================================
