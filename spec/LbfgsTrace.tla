------------------------------ MODULE LbfgsTrace ------------------------------
(* Recorded runs of the minimiser are behaviours of Lbfgs.                    *)
EXTENDS TraceIO, Lbfgs
VARIABLE l
Set(s) == { s[i] : i \in 1..Len(s) }
P(r) == [x0 |-> 1, ls |-> r.set.ls, maxit |-> r.set.maxit, maxls |-> r.set.maxls, past |-> r.set.past, bad |-> Set(r.bad)]
\* "ok" or the number of the first event that is not allowed
Run(r) ==
  LET ev == r.ev
      RECURSIVE F(_, _)
      F(i, st) == IF i > Len(ev) THEN (IF st.ph = "done" THEN <<TRUE, st>> ELSE <<FALSE, i>>)
                  ELSE IF Allowed(st, ev[i]) THEN F(i + 1, After(st, ev[i])) ELSE <<FALSE, i>>
  IN F(1, St0(P(r)))
Ret(r) == r.ev[Len(r.ev)]
First(r) == r.ev[1]
Lim(r) == IF r.set.maxit = 0 \/ r.bad # <<>> THEN TRUE ELSE r.evals <= 1 + r.set.maxit * r.set.maxls
\* without progress callback only the outcome is visible
Blind(r) == LET t == Ret(r) IN
  IF r.bad # <<>> THEN t.code \in Set(r.bad) /\ t.pt = 1 /\ r.evals = 0
  ELSE /\ t.pt # 0 /\ t.f # -1 /\ t.f <= First(r).f
       /\ \A i \in 1..(Len(r.ev) - 1) : (r.ev[i].pt = t.pt) => (r.ev[i].f = t.f /\ (t.code \in {SUCCESS, ALREADY} => r.ev[i].gc >= 0))
       /\ (t.code = ALREADY) = (Len(r.ev) = 2 /\ t.code # "INCREASEGRADIENT")
       /\ t.code \in LsCodes \cup {SUCCESS, STOP, ALREADY, "MAXIMUMITERATION"}
JudgeRun(r) ==
  [protocol |-> r.prog => (Run(r)[1] \/ (PrintT(<<"AT", l, Run(r)[2]>>) /\ FALSE)),
   outcome |-> ~r.prog => Blind(r), intact |-> r.intact, limit |-> Lim(r),
   quiet |-> (~r.ptr \/ r.bad # <<>>) => r.untouched,
   \* the More-Thuente search may give up on smooth functions (known finding)
   solved |-> (r.class = "nice") => Ret(r).code \in {SUCCESS, ALREADY} \cup (IF r.set.ls = 0 /\ ~r.strict THEN LsCodes ELSE {})]
Judge(r) == CASE r.event = "run" -> JudgeRun(r)
              [] r.event = "nlp" -> [size |-> r.size, value |-> Near(r.value, 0, 10), gain |-> IsNum(r.gain) /\ r.gain >= -1,
                                     stationary |-> (r.ls # 0) => IsNum(r.grad) /\ r.grad <= 200]
              [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
