---------------------------- MODULE KinPlanTrace ----------------------------
(* Recorded kinematic plans: every stored state says what its pose and         *)
(* velocity say, the first one is the starting posture, and every next one     *)
(* follows from the step before (KinPlan).                                     *)
EXTENDS KinematicsTrace, KinPlan
Flat(v) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o v[i] IN F(Len(v))
Num(s) == AllNum(s.q) /\ AllNum(s.dq)
\* ---- one stored state
HipPos(rob, K, hip) == [f \in 1..Len(hip) |-> K.F[hip[f]].p]
HipVel(rob, x, K, hip, dq) == [f \in 1..Len(hip) |-> Map([k \in 1..NV(rob) |-> LinCol(rob, x, K.F, hip[f], K.F[hip[f]].p, k)], dq)]
FeetVel(K, dq) == [f \in 1..Len(K.Jf) |-> Map(K.Jf[f], dq)]
JudgeState(s, x, K, o) ==
  LET rob == s.rob  vf == TLCEval(FeetVel(K, o.dq)) IN
  [centre |-> NearSeq(o.com, K.com, 60),
   momentum |-> NearSeq(o.h, Map(K.Ag, o.dq), 150),
   feet |-> NearSeq(o.tr, Flat(K.feet), 60),
   speed |-> NearSeq(o.ve, Flat(vf), 150)]
  @@ (IF ~Has(o, "trb") THEN [a \in {} |-> TRUE] ELSE
  [hips |-> NearSeq(o.trb, VS(Flat(K.feet), Flat(HipPos(rob, K, s.hip))), 80),
   hipspeed |-> NearSeq(o.veb, VS(Flat(vf), Flat(HipVel(rob, x, K, s.hip, o.dq))), 250),
   stored |-> o.kept = 1])
\* ---- regularisation targets: from the start through the via points at their steps and back to the
\* ---- start at the end, at rest at each of them (the quintic with zero end derivatives)
Glide(s) == LET s2 == FxMul(s, s) IN FxMul(FxMul(s2, s), 10 * One - 15 * s + 6 * s2)
ViaOk(nt, rows, get(_), start(_)) ==
  IF rows = <<>> THEN \A k \in 1..nt : NearSeq(get(k), start(1), 5)
  ELSE LET nv == Len(rows)
           T == [i \in 0..(nv + 1) |-> IF i = 0 THEN 0 ELSE IF i > nv THEN nt ELSE rows[i].at]
           P == [i \in 0..(nv + 1) |-> IF i = 0 \/ i > nv THEN start(1) ELSE Fx2(rows[i].v)]
           Sg(k) == CHOOSE i \in 0..nv : T[i] <= k /\ k < T[i + 1]
           Val(k) == LET i == Sg(k)  g == Glide(FxDiv(k - T[i], T[i + 1] - T[i])) IN [j \in 1..Len(start(1)) |-> P[i][j] + FxMul(g, P[i + 1][j] - P[i][j])]
       IN \A k \in 1..nt : NearSeq(get(k), Val(k - 1), 30)
\* ---- velocity steps
JudgeRound(s, q0, r, o) ==
  LET \* a plan may make the robot spin out of range: judged up to there
      Big(k) == ~Num(o.st[k]) \/ (\E i \in 1..Len(o.st[k].q) : Abs(o.st[k].q[i]) > 300000000) \/ (\E i \in 1..Len(o.st[k].dq) : Abs(o.st[k].dq[i]) > 250000000)
      n == CHOOSE m \in 0..s.nt : (\A k \in 1..m : ~Big(k)) /\ (m < s.nt => Big(m + 1))
      rob == s.rob  w == s.w  nf == Len(rob.feet)  nj == NJ(rob)
      X == TLCEval([k \in 1..n |-> PoseQ(o.st[k].q)])
      K == TLCEval([k \in 1..n |-> Kin(rob, X[k])])
      fly == TLCEval([k \in 1..n |-> IF \A f \in 1..nf : r.st[k].act[f] = 0 THEN 1 ELSE 0])
      H(k) == Map(K[k].Ag, o.st[k].dq)
      tilt(k) == LET q == o.st[k].q IN TLCEval(QMulFx(RpyQ(o.st[k].bd), << q[7], -q[4], -q[5], -q[6] >>))
      dtv(k) == TLCEval([i \in 1..NV(rob) |-> FxMul(o.st[k + 1].dq[i], s.dt * 1000)])
      step(k) ==
        LET p == r.st[k]  x == o.st[k + 1].dq
            vj == TLCEval([j \in 1..nj |-> FxMul(r.rj * 1000000, o.st[k].jd[j] - o.st[k].q[7 + j])])
            vf == TLCEval([f \in 1..nf |-> VA(Fx2(p.ev[f]), Tenth(w.pe, VS(Cm(p.ep[f]), K[k].feet[f])))])
            pc == Tenth(w.pc, VS(Cm(p.com), K[k].com))
            am == VA(Fx2(p.am), FxScale(r.ro * 100000, LogQ(tilt(k))))
            sx == LastStance(fly, k)
            mz == Drop(IF sx = 0 THEN s.ini.lm[3] * 100000 ELSE r.st[sx].lm[3] * 100000, k, sx, s.weight * s.dt * 1000)
            got == TLCEval(Map(K[k].Ag, x))
            \* momentum at the entry of the flight: of the last state with contact, seen from its own or from the previous posture
            ent == IF sx = 0 THEN << Fx2(s.ini.lm \o s.ini.am) >> ELSE IF sx = 1 THEN << VZero(6) >> ELSE << H(sx), Map(K[sx - 1].Ag, o.st[sx].dq) >>
            like(e) == \A i \in {1, 2, 4, 5, 6} : Near(got[i], e[i], 150)
            lm == IF fly[k] = 0 THEN Fx2(p.lm) ELSE << got[1], got[2], mz >>
            vm == IF fly[k] = 0 THEN VA(lm, pc) \o am ELSE VA(lm, pc) \o Sub(got, 4, 6)
            g == Grad(rob, K[k], w, p.act, x, vm, vf, vj)
        IN IF fly[k] = 0 THEN [optimal |-> ~LogOk(tilt(k)) \/ Small(g, 200)]
           ELSE [falls |-> Near(got[3], mz, 150), keeps |-> \E e \in 1..Len(ent) : like(ent[e]),
                 optimal |-> \A z \in 1..Len(o.st[k].still) : Small(Map(K[k].Ag, o.st[k].still[z]), 60) /\ Abs(FxDot([i \in 1..Len(g) |-> TDiv(g[i], 64)], o.st[k].still[z])) <= 60]
      one(k) == JudgeState(s, X[k], K[k], o.st[k]) @@ (IF k < n THEN step(k) @@ [moves |-> Moved(o.st[k].q, o.st[k + 1].q, dtv(k), 60)] ELSE [a \in {} |-> TRUE])
      J == TLCEval([k \in 1..n |-> TLCEval(one(k))])
      names == UNION { DOMAIN J[k] : k \in 1..n }
      q0j == Sub(q0, 8, Len(q0))
  IN IF Len(o.st) # s.nt THEN [complete |-> FALSE] ELSE IF n < 1 THEN [range |-> FALSE]
     ELSE [nm \in names |-> \A k \in 1..n : nm \in DOMAIN J[k] => J[k][nm]]
          @@ [start |-> NearSeq(o.st[1].q, q0, 5) /\ NearSeq(o.st[1].dq, VZero(NV(rob)), 5),
              joints |-> ViaOk(s.nt, r.jv, LAMBDA k : o.st[k].jd, LAMBDA k : q0j),
              base |-> ViaOk(s.nt, r.bv, LAMBDA k : o.st[k].bd, LAMBDA k : <<0, 0, 0>>),
              plan |-> o.same = 1, initial |-> o.ini = 1]
JudgePlan(rec) ==
  LET s == rec.s n == Len(s.rounds) IN
  IF Len(rec.out) # n THEN [rounds |-> FALSE]
  ELSE LET J == TLCEval([r \in 1..n |-> TLCEval(JudgeRound(s, rec.q0, s.rounds[r], rec.out[r]))])
           names == UNION { DOMAIN J[r] : r \in 1..n }
       IN [nm \in names |-> \A r \in 1..n : nm \in DOMAIN J[r] => J[r][nm]]
\* ---- accelerations: references at the time reached, velocities and postures summed up
Course(c, u) == c[1] * 100000 + FxMul(u, c[2] * 100000 + FxMul(u, c[3] * 100000 + FxMul(u, c[4] * 100000)))
CourseV(cs, u) == TLCEval([i \in 1..Len(cs) |-> Course(cs[i], u)])
Rate(c, u, T) == FxDiv(c[2] * 100000 + FxMul(u, 2 * c[3] * 100000 + 3 * FxMul(u, c[4] * 100000)), T)
RateV(cs, u, T) == TLCEval([i \in 1..Len(cs) |-> Rate(cs[i], u, T)])
Grows(a, b, x, n, dt) ==     \* b = a + acceleration * dt / n;  x is the acceleration / 1000, dt in tenths of ms
  \A i \in 1..Len(a) : IsNum(x[i]) /\ IsNum(b[i]) /\ (Abs(x[i]) < 100000000 => Abs((b[i] - a[i]) - FxDiv(FxMul(x[i], dt * 1000000), n * One)) <= 40)
JudgeSnd(rec) ==
  LET s == rec.s  rob == s.rob  n == s.nt  T == s.dt * 1000 * (n - 1)  tot == Len(rec.calls)  m == tot \div (n - 1)
      X == TLCEval([k \in 1..n |-> PoseQ(rec.st[k].q)])
      K == TLCEval([k \in 1..n |-> Kin(rob, X[k])])
      J == TLCEval([k \in 1..n |-> TLCEval(JudgeState(s, X[k], K[k], rec.st[k]))])
      jp == [j \in 1..NJ(rob) |-> rec.q0[7 + j]]
      u(c) == FxDiv(c - 1, tot)
      seg(c) == ((c - 1) \div m) + 2
      \* after call c the next call (or the stored state) goes on from here
      nxt(c) == IF c % m = 0 THEN rec.st[seg(c)] ELSE rec.calls[c + 1]
      C(c) == rec.calls[c]
      \* targets through via points are given at the steps, and some course between them
      node(c) == (c - 1) % m = 0
      at(c) == rec.st[(c - 1) \div m + 1]
      refs(c) == LET v == u(c) o == RpyQ(IF s.direct = 1 THEN CourseV(s.rpy, v) ELSE IF s.bv # <<>> /\ node(c) THEN at(c).bd ELSE <<0, 0, 0>>) IN
        /\ NearSeq(C(c).com, CourseV(s.com, v), 50) /\ NearSeq(C(c).mom, CourseV(s.lm \o s.am, v), 50) /\ NearSeq(C(c).dm, RateV(s.lm \o s.am, v, T), 6000)
        /\ \A f \in 1..Len(rob.feet) : NearSeq(C(c).ep[f], CourseV(s.ep[f], v), 50) /\ NearSeq(C(c).ev[f], CourseV(s.ev[f], v), 50) /\ NearSeq(C(c).ea[f], RateV(s.ev[f], v, T), 6000)
        /\ ((s.direct = 0 /\ s.jv # <<>> /\ ~node(c)) \/ NearSeq(C(c).jr, IF s.direct = 1 THEN CourseV(s.jp, v) ELSE IF s.jv = <<>> THEN jp ELSE at(c).jd, 60))
        /\ ((s.direct = 0 /\ s.bv # <<>> /\ ~node(c)) \/ NearSeq(C(c).ori, o, 60) \/ NearSeq(VNeg(C(c).ori), o, 60))
        /\ C(c).con = s.act[seg(c)]
      whole == [ k \in 1..(n - 1) |-> IF k = 1 THEN rec.calls[1] ELSE rec.calls[(k - 1) * m + 1] ]
      names == DOMAIN J[1]
  IN IF Len(rec.st) # n \/ \E k \in 1..n : ~Num(rec.st[k]) THEN [complete |-> FALSE]
     ELSE IF \E k \in 1..n : \E i \in 1..Len(rec.st[k].dq) : Abs(rec.st[k].dq[i]) > 400000000 THEN [skipped |-> TRUE]
     ELSE [nm \in names |-> \A k \in 1..n : J[k][nm]]
       @@ [start |-> NearSeq(rec.st[1].q, rec.q0, 5) /\ NearSeq(rec.st[1].dq, VZero(NV(rob)), 5)]
       @@ (IF s.direct = 1 THEN [a \in {} |-> TRUE] ELSE
           [joints |-> ViaOk(n, s.jv, LAMBDA k : rec.st[k].jd, LAMBDA k : jp), base |-> ViaOk(n, s.bv, LAMBDA k : rec.st[k].bd, LAMBDA k : <<0, 0, 0>>)])
       @@ (IF tot = 0 THEN [a \in {} |-> TRUE]      \* not observed from inside
           ELSE [even |-> m * (n - 1) = tot]
             @@ (IF m * (n - 1) # tot \/ \E c \in 1..tot : ~Num(rec.calls[c]) THEN [a \in {} |-> TRUE] ELSE
             [refs |-> \A c \in 1..tot : refs(c),
              resumes |-> \A k \in 1..(n - 1) : NearSeq(whole[k].q, rec.st[k].q, 5) /\ NearSeq(whole[k].dq, rec.st[k].dq, 5),
              grows |-> \A c \in 1..tot : Grows(C(c).dq, nxt(c).dq, C(c).x, m, s.dt),
              moves |-> \A c \in 1..tot : Moved(C(c).q, nxt(c).q, [i \in 1..NV(rob) |-> TDiv(FxMul(nxt(c).dq[i], s.dt * 1000), m)], 60)]))
\* ---- the starting posture puts the centre of mass and the feet where the initial state has them
\* (where the search says it has converged; on a walking robot always, with its base about level)
JudgeInit(rec) ==
  LET s == rec.s K == Kin(s.rob, PoseQ(rec.q)) found == rec.n >= 1 /\ IsNum(rec.last) /\ rec.last < 10000 IN
  [rest |-> NearSeq(rec.dq, VZero(NV(s.rob)), 5)]
  @@ (IF s.walker = 0 /\ ~found THEN [a \in {} |-> TRUE]
      ELSE IF ~AllNum(rec.q) THEN [complete |-> FALSE]
      ELSE [level |-> s.walker = 1 => NearSeq(Sub(rec.q, 4, 6), <<0, 0, 0>>, 200000), centre |-> NearSeq(K.com, s.com, 50000), feet |-> \A f \in 1..Len(s.feet) : NearSeq(K.feet[f], s.feet[f], 50000)])
JudgeAny(rec) == CASE rec.event = "plan" -> JudgePlan(rec) [] rec.event = "snd" -> JudgeSnd(rec) [] rec.event = "init" -> JudgeInit(rec) [] OTHER -> [ran |-> FALSE]
PNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(JudgeAny(Trace[l])))
PSpec == TInit /\ [][PNext]_l
=============================================================================
