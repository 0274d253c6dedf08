--------------------------- MODULE CentroidalTrace ---------------------------
(* What the Python centroidal LQR loaded, rolled out, differentiated, weighed  *)
(* and computed.                                                               *)
EXTENDS Centroidal, TraceIO
VARIABLE l
Sq(o) == QMul(o, o)
Swap(q) == << q[2], q[3], q[4], q[1] >>                  \* to x, y, z, w
QFx(q, n) == [i \in 1..4 |-> FxDiv(q[i], n)]
OriFx(o) == QFx(Swap(Sq(o)), QN2(o))
RotO(o) == TLCEval(RotFx(Sq(o)))
NearM(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearSeq(A[i], B[i], tol)
Om(x) == [i \in 1..3 |-> x.om[i] * 312500]               \* quarter rad/s -> unit 8 rad/s
Mom(m, on) == [i \in 1..3 |-> m[i] * 156250 * on]        \* mNm -> unit 64 mNm
\* ---- one step: rates of change
StepOk(r, s, x, f, m, on) ==
  LET R == RotO(x.o)  w == Om(x)  half == [i \in 1..3 |-> FxMul(r.dt * 40, w[i])]
      h2 == FxDot(half, half)
      dq == << One - h2 \div 2 >> \o [i \in 1..3 |-> half[i] - TDiv(FxMul(h2, half[i]), 6)]
      q == TLCEval(QFx(Sq(x.o), QN2(x.o)))
      qn == LET a == dq b == q IN
            << FxMul(a[1], b[1]) - FxMul(a[2], b[2]) - FxMul(a[3], b[3]) - FxMul(a[4], b[4]),
               FxMul(a[1], b[2]) + FxMul(a[2], b[1]) + FxMul(a[3], b[4]) - FxMul(a[4], b[3]),
               FxMul(a[1], b[3]) + FxMul(a[3], b[1]) + FxMul(a[4], b[2]) - FxMul(a[2], b[4]),
               FxMul(a[1], b[4]) + FxMul(a[4], b[1]) + FxMul(a[2], b[3]) - FxMul(a[3], b[2]) >>
  IN
  [c |-> NearSeq(s.c, [i \in 1..3 |-> x.v[i] * 100000], 20),
   v |-> NearSeq(s.v, [i \in 1..3 |-> FxDiv(f[i] * on * 100, r.mass) - (IF i = 3 THEN 98100000 ELSE 0)], 30),
   q |-> NearSeq(s.q, Swap(qn), 20),
   w |-> NearSeq(s.w, AngAcc(r.J, R, w, Mom(m, on)), 60)]
AllOk(rec) == \A n \in DOMAIN rec : rec[n]
On(s, t) == IF \E i \in 1..4 : s.plan[t].on[i] = 1 THEN 1 ELSE 0
\* ---- derivatives
FxExp(r, R, w, m) ==
  LET S == Skew(w)  S2 == MM(S, S)  k == r.dt * 40
      qq == TLCEval(MAdd(S, MScale(k, S2)))  qw == TLCEval(MAdd(Id3, MScale(k, S)))
      wq == TLCEval(AccByTurn(r.J, R, w, m))  ww == TLCEval(AccByRate(r.J, R, w))
  IN [i \in 1..12 |-> [j \in 1..12 |->
       CASE i \in 1..3 /\ j = i + 3 -> One
         [] i \in 7..9 /\ j \in 7..9 -> qq[i - 6][j - 6]
         [] i \in 7..9 /\ j \in 10..12 -> qw[i - 6][j - 9]
         [] i \in 10..12 /\ j \in 7..9 -> wq[i - 9][j - 6]
         [] i \in 10..12 /\ j \in 10..12 -> ww[i - 9][j - 9]
         [] OTHER -> 0]]
FuExp(r, R, on) ==
  LET B == TLCEval(AccByMoment(r.J, R)) IN
  [i \in 1..12 |-> [j \in 1..6 |-> IF on = 0 THEN 0 ELSE IF i \in 4..6 /\ j = i - 3 THEN FxDiv(1000, r.mass) ELSE IF i > 9 /\ j > 3 THEN B[i - 9][j - 3] ELSE 0]]
TurnVec(t) == AlongFx(4 * Half(t), t.ax)
TurnQ(t) == LET h == QOf(t) IN [q |-> QMul(h, h), n |-> QN2(h)]
JudgeDyn(s, r) ==
  LET x == s.x  on == On(s, s.t + 1)  R == RotO(x.o)  w == Om(x)  m == Mom(x.m, on)
      p == s.plan[1]  d == s.dx
      tq == TurnQ(s.turn)  yq == QFx(Swap(QMul(tq.q, Sq(x.o))), tq.n * QN2(x.o))
      sum(a, b) == [i \in 1..3 |-> a[i] + b[i]]
  IN
  [sizes |-> r.size = <<s.n, s.n + 1, s.n>> /\ Len(r.xp) = s.n + 1 /\ Len(r.u0) = s.n /\ Len(r.roll) = s.n,
   contacts |-> r.on = [t \in 1..(s.n + 1) |-> On(s, t)],
   reference |-> \A t \in 1..(s.n + 1) : LET y == r.xp[t] z == s.plan[t] IN y.c = z.c /\ y.v = z.v /\ y.om = z.om /\ NearSeq(y.q, OriFx(z.o), 2),
   controls |-> \A t \in 1..s.n : r.u0[t].f = s.plan[t].f /\ r.u0[t].m = s.plan[t].m,
   model |-> r.off = 0 /\ r.g = <<0, 0, 981>>,
   start |-> Near(r.start, 0, 0),
   first |-> AllOk(StepOk(r, r.first, p, p.f, p.m, On(s, 1))),
   rollout |-> \A t \in 1..Len(r.roll) : Near(r.roll[t], 0, 0),
   stepC |-> StepOk(r, r.step, x, x.f, x.m, on).c,
   stepV |-> StepOk(r, r.step, x, x.f, x.m, on).v,
   stepQ |-> StepOk(r, r.step, x, x.f, x.m, on).q,
   stepW |-> StepOk(r, r.step, x, x.f, x.m, on).w,
   fx |-> NearM(r.fx, FxExp(r, R, w, m), 2500),
   fu |-> NearM(r.fu, FuExp(r, R, on), 1000),
   increment |-> r.inc.c = [i \in 1..3 |-> x.c[i] + d.c[i]] /\ r.inc.v = [i \in 1..3 |-> x.v[i] + d.v[i]] /\ r.inc.om = [i \in 1..3 |-> 25 * x.om[i] + d.om[i]]
                 /\ NearSeq(r.inc.q, yq, 3),
   difference |-> r.diff.c = d.c /\ r.diff.v = d.v /\ r.diff.om = d.om /\ NearSeq(r.diff.r, TurnVec(s.turn), 15),
   untouched |-> r.kept = <<1, 1>>]
\* ---- cost: half of dx'Q dx + u'R u, the last one twice as much and without controls
JudgeCost(s, r) ==
  LET last == s.t = s.n  m == IF last THEN 2 ELSE 1  d == s.dx  flat == s.turn.p = 0
      dx == d.c \o d.v \o <<0, 0, 0>> \o d.om
      th == TLCEval(TurnVec(s.turn))  k == s.Q[7][7]
      g == MatVec(s.Q, dx)  gu == MatVec(s.R, d.u)
      lin == (VDot(g, dx) * 50 * m) + (IF last THEN 0 ELSE (VDot(gu, d.u) * 50) \div 1)     \* 1e-6: dx 1/100, u 1/10, R 1/100
      th2 == LET h == [i \in 1..3 |-> TDiv(th[i], 2)] IN 4 * FxDot(h, h)
      half == 2 * FxAbs(Half(s.turn))
      hc == IF flat THEN One ELSE FxMul(half, FxDiv(s.turn.q * s.turn.q - s.turn.p * s.turn.p, 2 * FxAbs(s.turn.p) * s.turn.q))
      a == Axes[s.turn.ax].a  l2 == Axes[s.turn.ax].l * Axes[s.turn.ax].l
      H(i, j) == (IF i = j THEN hc ELSE 0) + FxMul(FxDiv(a[i] * a[j], l2), One - hc)
      hess == [i \in 1..12 |-> [j \in 1..12 |-> IF ~flat /\ i \in 7..9 /\ j \in 7..9 THEN TDiv(k * m * H(i - 6, j - 6), 1000) ELSE 10000 * m * s.Q[i][j]]]
  IN
  [value |-> Near(r.c, lin + TDiv(m * k * TDiv(th2, 10), 2), 40),
   gradx |-> NearSeq(r.cx, [i \in 1..12 |-> IF ~flat /\ i \in 7..9 THEN TDiv(m * k * TDiv(th[i - 6], 10), 10) ELSE m * 1000 * g[i]], 20),
   gradu |-> NearSeq(r.cu, [i \in 1..6 |-> IF last THEN 0 ELSE 100 * gu[i]], 20),
   hessx |-> NearM(r.cxx, hess, 300),
   hessu |-> NearM(r.cuu, [i \in 1..6 |-> [j \in 1..6 |-> IF last THEN 0 ELSE 100 * s.R[i][j]]], 300),
   cross |-> NearM(r.cxu, [i \in 1..12 |-> [j \in 1..6 |-> 0]], 300)]
\* ---- gains: the Riccati recursion from the last step back
Sm(f, n) == SumTo(f, n)
\* second derivatives of the value are recorded in units of 4
StepGain(s, r, t) ==
  LET g == r.t[t]  P == r.Vxx[t + 1]  p == r.Vx[t + 1]
      VF == TLCEval([i \in 1..12 |-> TLCEval([j \in 1..6 |-> Sm([k \in 1..12 |-> FxMul(g.fu[k][j], P[i][k])], 12)])])
      Quu == TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |-> g.cuu[i][j] + TDiv(Sm([k \in 1..12 |-> FxMul(g.fu[k][i], VF[k][j])], 12), 4)])])
      Qxu == TLCEval([i \in 1..12 |-> TLCEval([j \in 1..6 |-> g.cxu[i][j] + Sm([k \in 1..12 |-> FxMul(g.fx[k][i], VF[k][j])], 12)])])
      Qx == TLCEval([i \in 1..12 |-> g.cx[i] + Sm([k \in 1..12 |-> FxMul(g.fx[k][i], p[k])], 12)])
      Qu == TLCEval([j \in 1..6 |-> g.cu[j] + TDiv(Sm([k \in 1..12 |-> FxMul(g.fu[k][j], p[k])], 12), 4)])
      VX == TLCEval([i \in 1..12 |-> TLCEval([j \in 1..12 |-> Sm([k \in 1..12 |-> FxMul(g.fx[k][j], P[i][k])], 12)])])
      Qxx == TLCEval([i \in 1..12 |-> TLCEval([j \in 1..12 |-> TDiv(g.cxx[i][j], 4) + Sm([k \in 1..12 |-> FxMul(g.fx[k][i], VX[k][j])], 12)])])
  IN
  [feedback |-> NearM([i \in 1..6 |-> [j \in 1..12 |-> Sm([k \in 1..6 |-> FxMul(Quu[i][k], g.K[k][j])], 6)]], Transpose(Qxu, 6), 400),
   feedforward |-> NearSeq([i \in 1..6 |-> Sm([k \in 1..6 |-> FxMul(Quu[i][k], g.k[k])], 6)], Qu, 1500),
   gradient |-> NearSeq(r.Vx[t], [i \in 1..12 |-> Qx[i] - Sm([k \in 1..6 |-> FxMul(Qu[k], g.K[k][i])], 6)], 1500),
   hessian |-> NearM(r.Vxx[t], [i \in 1..12 |-> [j \in 1..12 |-> Qxx[i][j] - 2 * Sm([k \in 1..6 |-> FxMul(TDiv(Qxu[i][k], 8), g.K[k][j])], 6)]], 4000),
   value |-> Near(r.V[t], g.c + r.V[t + 1] - TDiv(Sm([k \in 1..6 |-> FxMul(Qu[k], g.k[k])], 6), 2), 1500),
   stage |-> NearM(g.cxx, [i \in 1..12 |-> [j \in 1..12 |-> One * s.Q[t][i][j]]], 200000)
             /\ NearM(g.cuu, [i \in 1..6 |-> [j \in 1..6 |-> 10000 * s.R[t][i][j]]], 2)
             /\ NearSeq(g.cu, [i \in 1..6 |-> 10 * VDot(s.R[t][i], g.u)], 1000)]
JudgeGain(s, r) ==
  LET n == s.n  St == TLCEval([t \in 1..n |-> TLCEval(StepGain(s, r, t))])
      All(f(_)) == \A t \in 1..n : f(St[t])
  IN
  IF ~(Len(r.t) = n /\ Len(r.V) = n + 1 /\ Len(r.Vx) = n + 1 /\ Len(r.Vxx) = n + 1) THEN [sizes |-> FALSE]
  ELSE
  [feedback |-> All(LAMBDA x : x.feedback), feedforward |-> All(LAMBDA x : x.feedforward), gradient |-> All(LAMBDA x : x.gradient),
   hessian |-> All(LAMBDA x : x.hessian), value |-> All(LAMBDA x : x.value), stage |-> All(LAMBDA x : x.stage),
   terminal |-> Near(r.V[n + 1], 0, 5) /\ NearSeq(r.Vx[n + 1], VZero(12), 1000) /\ NearM(r.Vxx[n + 1], [i \in 1..12 |-> [j \in 1..12 |-> (One \div 2) * s.Q[n + 1][i][j]]], 12000),
   flight |-> \A t \in 1..n : On(s, t) = 0 => r.t[t].K = [i \in 1..6 |-> VZero(12)] /\ NearSeq(r.t[t].k, [i \in 1..6 |-> 10000 * r.t[t].u[i]], 20000),
   file |-> r.file[2] = 0 /\ r.file[1] = <<n, 72>>]
Judge(r) == CASE r.event = "dyn" -> JudgeDyn(r.s, r) [] r.event = "cost" -> JudgeCost(r.s, r) [] r.event = "gain" -> JudgeGain(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
