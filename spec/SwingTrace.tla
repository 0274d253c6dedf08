------------------------------ MODULE SwingTrace ------------------------------
(* Trajectories and swing-foot references against the closed-form curve.       *)
EXTENDS Curves, FiniteSets
VARIABLE l
\* ---- one trajectory
Clamp(k) == IF k < 0 THEN 0 ELSE IF k > 16 THEN 16 ELSE k
JudgeTraj(s, r) == [curve |-> \A j \in 1..Len(s.q) : OnCurve(r.out[j], 625000 * Clamp(s.q[j]), Dbl(s.p0), Dbl(s.p1), Dbl(s.pv))]
\* ---- a polynomial determined by its conditions; queries in halves, results in 1/64
RangeOf(f) == { f[i] : i \in DOMAIN f }
JudgeInterp(s, r) ==
  LET T == RangeOf(s.tp)  lo == 2 * SetMin(T)  hi == 2 * SetMax(T)
      X(q) == (IF q < lo THEN lo ELSE IF q > hi THEN hi ELSE q) - 2 * s.c
      Ok(o, d, x) == LET e == Der(s.co, x, d) IN Near(o[1], e, 1) /\ (Abs(e) < 300000 => Near(o[2], 4096 * e, 400))
      Inn(d) == \A j \in 1..Len(s.q) : Ok(r.out[j][d + 1], d, X(s.q[j]))
  IN [position |-> Inn(0), velocity |-> Inn(1), acceleration |-> Inn(2)]
\* ---- swing references
Time(s, k) == SeqSum(SubSeq(s.durs, 1, k))
AbsDot(a, b) == Abs(SeqSum([i \in 1..4 |-> FxMul(a[i] * 10, b[i] * 10)]))
UnitQ(q) == AllNum(q) /\ Abs(AbsDot(q, q) - One) <= 60
SameRot(q, e) == UnitQ(q) /\ AbsDot(q, Mi(e)) >= One - 60
Between(q, a, b) == UnitQ(q) /\ LET d == AbsDot(Mi(a), Mi(b)) - 200 IN AbsDot(q, Mi(a)) >= d /\ AbsDot(q, Mi(b)) >= d
\* the flight containing step k of foot f
Flight(s, P, f, row, k) ==
  LET a == RunStart(row, k)  b == RunEnd(row, k)
      prev == IF a = 1 THEN 0 ELSE row[a - 1]  next == IF b = Len(row) THEN 0 ELSE row[b + 1]
      cs == P.feet[f]
      p0 == IF prev = 0 THEN P.ini[f].pos ELSE cs[prev].pos
      p1 == IF next = 0 THEN [i \in 1..3 |-> P.ini[f].pos[i] + s.motion[i]] ELSE cs[next].pos
      V == { i \in 1..Len(P.vias[f]) : P.vias[f][i].id = prev - 1 }
  IN [a |-> a, b |-> b, prev |-> prev, next |-> next, p0 |-> Dbl(p0), p1 |-> Dbl(p1), pv |-> IF V = {} THEN Mid(p0, p1) ELSE Dbl(P.vias[f][CHOOSE i \in V : \A j \in V : i <= j].pos),
      q0 |-> IF prev = 0 THEN P.ini[f].ori ELSE cs[prev].ori, q1 |-> IF next = 0 THEN P.ini[f].ori ELSE cs[next].ori]
Known(g) == g.prev # 0 \/ g.next # 0
In01(w, g) == \A i \in 1..3 : LET S == {g.p0[i], g.p1[i], g.pv[i]} IN IsNum(w[i]) /\ 5000 * SetMin(S) - 20 <= w[i] /\ w[i] <= 5000 * SetMax(S) + 20
JudgeFoot(s, P, o, f) ==
  LET row == TLCEval(Row(Live(P.feet[f]), s.dt, s.n))
      W(k) == o.feet[f].swing[k]  F(k) == o.feet[f].fill[k]
      Act == ActiveSteps(row)
      Fly == IF s.kin THEN { k \in (1..s.n) \ Act : Known(Flight(s, P, f, row, k)) } ELSE {}
      G(k) == Flight(s, P, f, row, k)
      Long(g) == g.b > g.a
      Fr(g, k) == FxDiv(Time(s, k) - Time(s, g.a), Time(s, g.b) - Time(s, g.a))
      Rec(k) == [p |-> W(k).pos, v |-> W(k).vel, a |-> W(k).acc]
  IN
  [contact |-> \A k \in Act : NearSeq(W(k).pos, Cm(P.feet[f][row[k]].pos), 1) /\ NearSeq(W(k).ori, Mi(P.feet[f][row[k]].ori), 1),
   atrest |-> \A k \in Act : W(k).vel = <<0, 0, 0>> /\ W(k).acc = <<0, 0, 0>>,
   swing |-> \A k \in Fly : LET g == G(k) IN Long(g) => OnCurve(Rec(k), Fr(g, k), g.p0, g.p1, g.pv),
   short |-> \A k \in Fly : LET g == G(k) IN ~Long(g) => In01(W(k).pos, g) /\ W(k).vel = <<0, 0, 0>>,
   turn |-> \A k \in Fly : LET g == G(k)  len == g.b - g.a + 1  q == W(k).ori IN
              /\ (k = g.a => SameRot(q, g.q0)) /\ (2 * (k - g.a) >= len => SameRot(q, g.q1)) /\ Between(q, g.q0, g.q1),
   untouched |-> ~s.kin => \A k \in 1..s.n : W(k).pos = F(k).pos /\ W(k).ori = F(k).ori]
JudgeSched(s, r) == LET J == TLCEval([x \in (1..Len(s.plans)) \X (1..4) |-> JudgeFoot(s, s.plans[x[1]], r.plans[x[1]], x[2])]) IN [n \in DOMAIN J[<<1, 1>>] |-> \A x \in DOMAIN J : J[x][n]]
Judge(r) == CASE r.event = "sched" -> JudgeSched(r.s, r) [] r.event = "traj" -> JudgeTraj(r.s, r) [] r.event = "interp" -> JudgeInterp(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
