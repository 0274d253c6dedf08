---------------------------- MODULE DynamicsTrace ----------------------------
(* Plans returned by the centroidal planner, against the equations of motion   *)
(* (Part = "motion") or against the limits (Part = "limits").                  *)
EXTENDS TraceIO, Dynamics
CONSTANTS Part
VARIABLE l
Optimal == 0
Infeasible == {2, 4}
AllNums(r) == \A k \in 1..Len(r.states) : LET q == r.states[k] IN AllNum(q.com) /\ AllNum(q.l) /\ AllNum(q.a) /\ IsNum(q.dt) /\ \A f \in 1..4 : LET x == q.feet[f] IN AllNum(x.f) /\ AllNum(x.cop) /\ AllNum(x.trq) /\ AllNum(x.tcp)
Solved(r) == r.code \in {Optimal}
\* the solver's tolerance is relative to the size of the forces
MaxF(s, r) == SeqMax([k \in 1..Len(r.states) |-> SeqMax([f \in 1..4 |-> SeqMax([i \in 1..3 |-> FxAbs(r.states[k].feet[f].f[i])])])])
\* the file holds the plan that is handed out
SavedOk(s, run, P, r) ==
  LET v == r.saved  st == r.states  N == 1..s.n IN
  /\ \A x \in {v.com, v.l, v.a, v.t, v.rcom, v.rl, v.ra} : Len(x) = s.n
  /\ \A k \in N : NearSeq(v.com[k], st[k].com, 5) /\ NearSeq(v.l[k], st[k].l, 5) /\ NearSeq(v.a[k], st[k].a, 5) /\ Near(v.t[k][1], SeqSum([j \in 1..k |-> st[j].dt]), 20)
       /\ NearSeq(v.rcom[k], Cmv(run.refs[k].com), 5) /\ NearSeq(v.rl[k], Cmv(run.refs[k].l), 5) /\ NearSeq(v.ra[k], Cmv(run.refs[k].a), 5)
  /\ Len(v.f) = s.neff /\ \A f \in 1..s.neff : Len(v.f[f]) = s.n /\ Len(v.trq[f]) = s.n /\ \A k \in N : NearSeq(v.f[f][k], st[k].feet[f].f, 50) /\ Near(v.trq[f][k][1], st[k].feet[f].trq[3], 5)
JudgeRun(s, run, r) ==
  LET P == Places(s, run)  st == r.states  ok == Solved(r) /\ Len(r.states) = s.n /\ AllNums(r)  dt == (One \div 1000) * s.dt
      w == Rest(s, P, run)
      timed == s.heur = "TimeOptimization"
      \* time optimisation stops at a residual of the bilinear terms, not at the solver's tolerance
      Tol == IF ok THEN (IF ~timed THEN 5000 ELSE IF Part = "motion" THEN 300000 ELSE 100000) * (1 + MaxF(s, r) \div One) ELSE 0
  IN
  IF Part = "motion" THEN
  [size |-> r.size = s.n /\ ~r.threw,
   finite |-> Solved(r) => AllNums(r),
   found |-> (\A k \in 1..s.n : MotionOk(s, P, run, w, k, 20)) /\ (Legal(s, P, run, w, -20000) => r.code \notin Infeasible),
   steps |-> ok /\ ~timed => \A k \in 1..s.n : Near(st[k].dt, dt, 2),
   com |-> ok => \A k \in 1..s.n : Small(ComRest(s, k, Prev(run, st, k), st[k]), Tol),
   linear |-> ok => \A k \in 1..s.n : Small(LinRest(s, P, k, Prev(run, st, k), st[k]), Tol),
   angular |-> ok => \A k \in 1..s.n : Small(AngRest(s, P, k, Prev(run, st, k), st[k]), Tol),
   file |-> ok /\ s.store => SavedOk(s, run, P, r),
   \* without contact nothing but gravity (and the push at the start) acts
   flight |-> ok /\ ~timed => \A k \in 1..s.n : (\A f \in Feet(s) : ~P[k][f].on) => Small(VSub(st[k].a, Prev(run, st, k).a), 20),
   moment |-> ok => \A k \in 1..s.n : \A f \in Feet(s) : P[k][f].on => NearSeq(st[k].feet[f].tcp, AtContact(P[k][f], st[k].feet[f]), 30)]
  ELSE
  [schedule |-> \A k \in 1..Len(st) : \A f \in 1..4 : st[k].feet[f].act = P[k][f].on,
   inactive |-> ok => \A k \in 1..s.n : \A f \in 1..4 : (f > s.neff \/ ~P[k][f].on) => st[k].feet[f].f = Zero3 /\ st[k].feet[f].trq = Zero3 /\ st[k].feet[f].tcp = Zero3,
   cone |-> ok => \A k \in 1..s.n : \A f \in Feet(s) : P[k][f].on => InCone(s, P[k][f], st[k].feet[f].f, Tol),
   pressure |-> ok => \A k \in 1..s.n : \A f \in Feet(s) : P[k][f].on => CopOk(s, f, st[k].feet[f], Tol),
   torque |-> ok => \A k \in 1..s.n : \A f \in Feet(s) : P[k][f].on => TrqOk(s, st[k].feet[f], Tol),
   reach |-> ok => \A k \in 1..s.n : \A f \in Feet(s) : P[k][f].on => ReachOk(s, f, P[k][f], st[k].feet[f], st[k].com, Tol),
   durations |-> ok /\ timed => (\A k \in 1..s.n : Within(st[k].dt, (One \div 1000) * s.trange[1], (One \div 1000) * s.trange[2], 3000)) /\ (s.fixed => FxAbs(SeqSum([k \in 1..s.n |-> st[k].dt]) - s.n * dt) <= 5000),
   height |-> ok => \A k \in 1..s.n : HeightOk(s, P, run, st[k], Tol)]
Judge(r) == IF r.event # "dyn" \/ Len(r.runs) # Len(r.s.runs) THEN [ran |-> FALSE]
  ELSE LET J == TLCEval([p \in 1..Len(r.s.runs) |-> TLCEval(JudgeRun(r.s, r.s.runs[p], r.runs[p]))]) IN [n \in DOMAIN J[1] |-> \A p \in 1..Len(J) : J[p][n]]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
