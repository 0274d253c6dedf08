--------------------------- MODULE KinematicsTrace ---------------------------
(* Recorded inverse kinematics steps: the returned velocity (acceleration)     *)
(* makes the gradient of the weighted squared tracking error vanish - along    *)
(* every coordinate, or along every motion that keeps the momentum in flight.  *)
EXTENDS Kinematics, TraceIO
VARIABLE l
Fx2(v) == [i \in 1..Len(v) |-> v[i] * 100000]            \* hundredths
Tenth(k, v) == FxScale(k * 1000000, v)   \* gain in tenths
PoseOf(c) == TLCEval([p |-> Cm(c.pose.p), R |-> RotFx(QMul(c.pose.o, c.pose.o)), cs |-> TLCEval([j \in 1..Len(c.pose.t) |-> CosSin(c.pose.t[j][1], c.pose.t[j][2])])])
\* the tasks: rows of each, and what they should attain
WMax(w) == SeqMax(<<w.lin, w.ang, w.con, w.swi, w.reg, 1>>)
WRel(w, x) == FxDiv(x, WMax(w))
Scale3(k, v) == FxScale(k, v)
\* everything is linear: the harness gives x/k (k a power of two, so that |x/k| <= 8), targets are divided by k
ByK(k, v) == TLCEval([i \in 1..Len(v) |-> TDiv(v[i], k)])
\* gradient of 1/2 sum w |J x - v|^2 + 1/2 1e-6 |x|^2, divided by the largest weight
Grad(rob, K, w, con, x, vm, vf, vj) ==
  LET nf == Len(rob.feet) nj == NJ(rob)
      em == TLCEval(VS(Map(K.Ag, x), vm))
      wm == Scale3(WRel(w, w.lin), Sub(em, 1, 3)) \o Scale3(WRel(w, w.ang), Sub(em, 4, 6))
      wf == TLCEval([f \in 1..nf |-> Scale3(WRel(w, IF con[f] = 1 THEN w.con ELSE w.swi), VS(Map(K.Jf[f], x), vf[f]))])
      wj == Scale3(WRel(w, w.reg), VS(Sub(x, 7, 6 + nj), vj))
      eps == FxDiv(1, WMax(w)) \div 10000                 \* 1e-6 against a weight of w/100
  IN TLCEval([k \in 1..NV(rob) |-> FxDot(K.Ag[k], wm) + SumTo([f \in 1..nf |-> FxDot(K.Jf[f][k], wf[f])], nf)
                        + (IF k > 6 THEN wj[k - 6] ELSE 0) + FxMul(eps, x[k])])
Small(v, tol) == \A i \in 1..Len(v) : Abs(v[i]) <= tol
JudgeVel(rob, c, o) ==
  LET x == PoseOf(c)  K == Kin(rob, x)  r == c.ref  w == c.w  nf == Len(rob.feet)
      gain == IF w.init = 1 THEN 10 ELSE w.pe
      vm == VA(Fx2(r.lm), Tenth(w.pc, VS(Cm(r.com), K.com))) \o Fx2(r.am)
      vf == TLCEval([f \in 1..nf |-> VA(Fx2(r.ev[f]), Tenth(gain, VS(Cm(r.ep[f]), K.feet[f])))])
      vj == IF r.q = <<>> THEN VZero(NJ(rob)) ELSE Fx2(r.q)
      g == Grad(rob, K, w, r.con, o.x, ByK(o.k, vm), [f \in 1..nf |-> ByK(o.k, vf[f])], ByK(o.k, vj))
      g64 == TLCEval([i \in 1..Len(g) |-> TDiv(g[i], 64)])
  IN IF o.dim # <<NV(rob)>> \/ ~AllNum(o.x) THEN [returned |-> FALSE]
     ELSE IF c.fly = 0 THEN [optimal |-> Small(g, 100), inputs |-> o.same = 1, kept |-> o.kept = 1]
     ELSE [momentum |-> NearSeq(Map(K.Ag, o.x), ByK(o.k, Fx2(r.lm \o r.am)), 100),
           witness |-> \A z \in 1..Len(o.still) : Small(Map(K.Ag, o.still[z]), 60),
           optimal |-> \A z \in 1..Len(o.still) : Abs(FxDot(g64, o.still[z])) <= 40,
           inputs |-> o.same = 1, kept |-> o.kept = 1]
JudgeAcc(rob, c, o) ==
  LET x == PoseOf(c)  K == Kin(rob, x)  r == c.ref  w == c.w  nf == Len(rob.feet)  nj == NJ(rob)
      dq == Fx2(c.dq)  D == TLCEval(Drift(rob, x, K, dq))
      h == TLCEval(Map(K.Ag, dq))
      mr == Fx2(r.lm \o r.am)
      turn(q) == Half([ax |-> 1, p |-> q[1 + c.ax], q |-> q[1]])
      oe == IF w.po = 0 THEN 0 ELSE 4 * (turn(c.ro) - turn(c.pose.o))
      wr == IF w.do = 0 THEN 0 ELSE dq[3 + c.ax]
      vm == TLCEval([i \in 1..6 |-> c.dm[i] * 100000 + FxMul(mr[i] - h[i], w.pm[i] * 1000000)
                     + (IF i <= 3 THEN FxMul(r.com[i] * 100000 - K.com[i], w.pc * 1000000)
                        ELSE IF i = 3 + c.ax THEN FxMul(oe, w.po * 1000000) - FxMul(wr, w.do * 1000000) ELSE 0) - D.mom[i]])
      vf == TLCEval([f \in 1..nf |-> VS(VA(Fx2(c.ea[f]), VA(Tenth(w.pe, VS(Cm(r.ep[f]), K.feet[f])), Tenth(w.de, VS(Fx2(r.ev[f]), Map(K.Jf[f], dq))))), D.feet[f])])
      vj == IF r.q = <<>> THEN VZero(nj) ELSE VS(Tenth(w.pj, VS(Fx2(r.q), o.ang)), Tenth(w.dj, Sub(dq, 7, 6 + nj)))
      g == Grad(rob, K, w, r.con, o.x, ByK(o.k, vm), [f \in 1..nf |-> ByK(o.k, vf[f])], ByK(o.k, vj))
  IN IF o.dim # <<NV(rob)>> \/ ~AllNum(o.x) THEN [returned |-> FALSE]
     ELSE [acceleration |-> Small(g, 150)]
Judge(rec) ==
  LET s == rec.s  n == Len(s.calls) IN
  IF rec.event \notin {"vel", "acc"} THEN [ran |-> FALSE]
  ELSE IF Len(rec.out) # n THEN [calls |-> FALSE]
  ELSE LET J == TLCEval([k \in 1..n |-> TLCEval(IF rec.event = "vel" THEN JudgeVel(s.rob, s.calls[k], rec.out[k]) ELSE JudgeAcc(s.rob, s.calls[k], rec.out[k]))])
           names == UNION { DOMAIN J[k] : k \in 1..n }
       IN [nm \in names |-> \A k \in 1..n : nm \in DOMAIN J[k] => J[k][nm]]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
