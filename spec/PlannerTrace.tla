---------------------------- MODULE PlannerTrace ----------------------------
(* Recorded planner runs are behaviours of Planner, every step with its own    *)
(* arguments; every component carries its own settings.                        *)
EXTENDS Planner, TraceIO
VARIABLE l
Dts(s, v) == [i \in 1..Len(s.dts) |-> s.dts[i] + 10 * (v % 7)]
Time(s, st, t) == Len(t) = Len(s.dts) /\ LET x == Stamps(Dts(s, st.dyn)) IN \A i \in 1..Len(t) : t[i] - x[i] \in -1..1
Args(s, st, e) ==
  CASE e.e = "settings" -> e.cfg = 1
    [] e.e = "lqrsettings" -> e.cfg = 1 /\ e.section = "solverlqr_dynamics"
    [] e.e \in {"ini", "terrain"} -> e.cfg = 1
    [] e.e \in {"plan_init", "dyn_init"} -> e.set = 1
    [] e.e = "kin_init" -> e.set = 1 /\ e.robot = s.robot
    [] e.e = "plan" -> e.ini = 1 /\ e.ter = 1
    [] e.e = "dyn" -> e.ini = 1 /\ e.plan = 1 /\ e.kin = st.kin /\ (e.track = 1 <=> Track(st))
    [] e.e = "kin" -> e.ini = 1 /\ e.plan = 1 /\ e.dyn = st.dyn
    [] e.e = "fb" -> e.set = 1 /\ e.ini = 1 /\ e.dyn = st.dyn
    [] e.e = "done" -> e.kin = st.kin /\ e.eff = 1 /\ e.dyn = st.dyn /\ e.fb = s.lqr /\ e.set = 1 /\ Time(s, st, e.time)
    [] e.e = "file" -> e.kin = st.kin /\ e.dyn = st.dyn /\ e.fb = s.lqr /\ e.w = 1 /\ Time(s, st, e.time)
    [] e.e \in {"lqrfiles", "qpfiles"} -> e.kin = st.kin /\ e.dyn = st.dyn /\ e.eff = 1 /\ e.fb = s.lqr /\ e.w = 1 /\ Time(s, st, e.time)
    [] e.e = "time" -> Time(s, st, e.time)
    [] e.e = "args" -> e.cfg = 1 /\ e.robot = s.robot /\ e.lqr = 0
    [] OTHER -> FALSE
Order(s, st, e) ==
  LET f == s.lqr = 1 IN
  CASE e.e \in Parts -> Setup(st, e.e)
    [] e.e = "dyn" -> CanDyn(st, s.n)
    [] e.e = "kin" -> CanKin(st, s.n)
    [] e.e = "fb" -> CanFb(st, s.n, f)
    [] e.e = "done" -> CanDone(st, s.n, f)
    [] e.e = "args" -> st = New
    [] e.e \in {"file", "lqrfiles", "qpfiles", "time"} -> ~st.busy /\ st.dyn > 0
    [] OTHER -> FALSE
After(st, e) ==
  CASE e.e \in Parts -> DoSetup(st, e.e) [] e.e = "dyn" -> DoDyn(st) [] e.e = "kin" -> DoKin(st) [] e.e = "fb" -> DoFb(st) [] e.e = "done" -> DoDone(st) [] OTHER -> st
\* the operations asked for are the ones that end
Asked(s) == LET RECURSIVE A(_) A(i) == IF i > Len(s.ops) THEN <<>> ELSE (CASE s.ops[i] = "run" -> <<"done">> [] s.ops[i] = "save" -> IF s.lqr = 1 THEN <<"file", "lqrfiles">> ELSE <<"file">> [] s.ops[i] = "qp" -> <<"qpfiles">> [] OTHER -> <<"time">>) \o A(i + 1) IN A(1)
Ends(log) == LET RECURSIVE E(_) E(i) == IF i > Len(log) THEN <<>> ELSE (IF log[i].e \in {"done", "file", "lqrfiles", "qpfiles", "time"} THEN <<log[i].e>> ELSE <<>>) \o E(i + 1) IN E(1)
Carries(have, want) == \A i \in 1..Len(want) : \E j \in 1..Len(have) : have[j].n = want[i][1] /\ have[j].v = "<" \o want[i][2] \o ">"
Only(have, want) == \A j \in 1..Len(have) : \E i \in 1..Len(want) : have[j].n = want[i][1]
Judge(rec) ==
  LET s == rec.s IN
  IF rec.event # "planner" THEN [ran |-> FALSE]
  ELSE LET log == rec.log
           Sts == LET RECURSIVE G(_) G(i) == IF i = 0 THEN <<New>> ELSE LET p == G(i - 1) IN Append(p, After(p[i], log[i])) IN TLCEval(G(Len(log)))
           T == IF s.second = 1 THEN Second ELSE First
       IN [order |-> \A i \in 1..Len(log) : Order(s, Sts[i], log[i]),
           arguments |-> \A i \in 1..Len(log) : Args(s, Sts[i], log[i]),
           asked |-> Ends(log) = Asked(s) /\ ~Sts[Len(log) + 1].busy,
           settings |-> s.noset = 1 \/ (rec.second = s.second /\ Carries(rec.inv, T.inv) /\ Carries(rec.snd, T.snd) /\ Carries(rec.gen, T.gen) /\ Carries(rec.opt, T.opt)
                                        /\ Only(rec.inv, T.inv) /\ Only(rec.snd, T.snd))]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
