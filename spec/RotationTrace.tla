---------------------------- MODULE RotationTrace ----------------------------
(* What the C++ and Python rotation utilities returned for orientations whose  *)
(* difference is known exactly.                                                *)
EXTENDS TraceIO, Rotation
VARIABLE l
T == 12                     \* 1.2e-6
NearV(a, b, t) == NearSeq(a, b, t)
NearM(A, B, t) == Len(A) = 3 /\ \A i \in 1..3 : NearSeq(A[i], B[i], t)
\* a rotation vector; the two axes of a half turn are the same rotation
IsLog(v, r, x) == NearV(v, x, T) \/ (HalfTurn(r) /\ NearV(v, VNeg(x), T))
Is(o, M, unit) == NearM(o.m, M, T) /\ (unit => Near(o.n, One, T))
Gap(ax) == Axes[ax].l
\* derivative of the unit quaternion along / across the rotation vector (times One), and
\* of the rotation (angular velocity for a rate across the rotation vector, times 10^6)
Rate(r, e, sgn) ==
  LET th == Angle(r)  n == r.q * r.q + r.p * r.p
      sn == FxDiv(2 * r.p * r.q, n)  oc == FxDiv(2 * r.p * r.p, n)
      ue == Cross(Axes[r.ax].a, e)
      big == FxAbs(th) > 200000                        \* otherwise sin(x)/x = 1 - x^2/6, (1-cos x)/x = x/2
      \* sn/th and oc/th with 4 decimals
      Q4(a) == FxSgn(th) * TDiv(FxDiv(a, FxAbs(th)), 1000)
      sc == IF big THEN Q4(sn) ELSE 10000 - TDiv(FxMul(th, th), 6000)
      cc == IF big THEN Q4(oc) ELSE TDiv(th, 2000)
  IN [i \in 1..3 |-> sc * e[i] * 100 + sgn * TDiv(cc * ue[i] * 100, Axes[r.ax].l)]
Helpers(s, h) ==
  LET r == s.turn  x == LogFx(r)  c == Half(r)
      In(f) == f \in DOMAIN h
  IN
  [skew |-> In("skew") => h.skew = Cross(s.u, s.v),
   log |-> In("log") => IsLog(h.log, r, x) /\ IsLog(h.logn, r, x),
   exp |-> In("exp") => Is(h.exp, RotFx(s.d), TRUE),
   quatmatrix |-> In("left") => h.left = QMul(s.q1, s.q2) /\ h.right = QMul(s.q2, s.q1),
   rates |-> In("twa") => /\ NearV(h.twa, VScale(1000000, s.a), 60 * Gap(r.ax)) /\ NearV(h.tba, VScale(1000000, s.a), 60 * Gap(r.ax))
                          /\ (In("twe") => NearV(h.twe, Rate(r, s.e, 1), 3000) /\ NearV(h.tbe, Rate(r, s.e, -1), 3000)),
   inverse |-> In("fw") => (~(s.class \in {"half"}) => NearV(h.fw, VScale(1000000, s.u), 3000) /\ NearV(h.fb, VScale(1000000, s.u), 3000))]
JudgeCpp(s, r) ==
  LET t == s.turn  x == LogFx(t)  R1 == RotFx(s.q1)  D == RotFx(s.d)  DR == FxMatMul(D, R1)
      xb == FxMatVec(TransFx(R1), x)
  IN [error |-> IsLog(r.err, t, x), same |-> NearV(r.same, <<0, 0, 0>>, T),
      reqworld |-> IsLog(r.reqw, t, x) /\ r.req = r.reqw, reqbody |-> IsLog(r.reqb, t, xb),
      intworld |-> Is(r.intw, DR, r.unit) /\ r.int = r.intw, intbody |-> Is(r.intb, FxMatMul(R1, D), r.unit),
      roundtrip |-> Is(r.rtw, DR, r.unit) /\ Is(r.rtb, DR, r.unit), rest |-> Is(r.rest, R1, r.unit)] @@ Helpers(s, r.h)
JudgePy(s, r) ==
  LET t == s.turn  x == LogFx(t)  R1 == RotFx(s.q1)  D == RotFx(s.d)  DR == FxMatMul(D, R1)
  IN [skew |-> r.skew = Cross(s.u, s.v), tomatrix |-> NearM(r.r1, R1, T), product |-> r.prod = QMul(s.q1, s.q2),
      exp |-> Is(r.exp, D, TRUE), log |-> IsLog(r.log, t, x), explog |-> \A i \in 1..2 : Is(r.explog[i], D, TRUE),
      integrate |-> Is(r.int, DR, TRUE), rest |-> Is(r.rest, R1, TRUE), difference |-> IsLog(r.diff, t, x),
      same |-> NearV(r.same, <<0, 0, 0>>, T) /\ NearV(r.opp, <<0, 0, 0>>, T), roundtrip |-> Is(r.rt, DR, TRUE),
      quat2mat |-> NearM(r.q2m, DR, T), pinlog |-> IsLog(r.plog, t, x)]
Judge(r) == CASE r.event = "cpp" -> JudgeCpp(r.s, r) [] r.event = "py" -> JudgePy(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
