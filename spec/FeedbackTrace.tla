--------------------------- MODULE FeedbackTrace ---------------------------
(* Recorded feedback laws: one gain per step, each the solution of the Riccati *)
(* recursion around its plan, nothing for feet in the air; other times give    *)
(* the nearest step's gain; a plan of another length is refused.               *)
EXTENDS Feedback, TraceIO
VARIABLE l
Off == -9999
Lam(e) == IF e = Off THEN 0 ELSE IF e >= 0 THEN One * (2 ^ e) ELSE One \div (2 ^ (-e))
JudgeRun(s, run, o, prev) ==
  LET T == s.T  K == TLCEval([t \in 1..T |-> o.K[t + 2]])
      sized == Len(o.K) = T + 5 /\ \A t \in 1..(T + 5) : Len(o.K[t]) = 3 * s.neff /\ \A i \in 1..(3 * s.neff) : Len(o.K[t][i]) = 9 /\ AllNum(o.K[t][i])
  IN IF Len(run.plan) # T THEN [refused |-> o.threw, kept |-> prev # <<>> => o.K = prev]
     ELSE IF o.threw THEN [accepted |-> FALSE]
     ELSE IF ~sized THEN [sizes |-> FALSE]
     ELSE LET oks == { i \in 1..Len(o.log) : o.log[i].e = "ok" } IN
          IF oks = {} THEN [computed |-> (\A t \in 1..T : Act(run.plan[t], s.neff) = {}) /\ \A t \in 1..T : \A i \in 1..(3 * s.neff) : K[t][i] = VZero(9)]
          ELSE LET ev == o.log[CHOOSE i \in oks : \A j \in oks : j <= i]  x == States(s, run)
                   big == \E t \in 1..T : ~TameM(K[t], 40)
               IN [outside |-> \A t \in 1..(T + 5) : o.K[t] = o.K[Min2(Max2(t, 3), T + 2)],
                   inactive |-> \A t \in 1..T : \A f \in 1..s.neff : ~run.plan[t].feet[f].act => \A i \in (3 * f - 2)..(3 * f) : \A j \in 1..9 : Abs(K[t][i][j]) <= 1,
                   cost |-> Near(ev.cost, RollCost(s, run, x), 300),
                   gains |-> ~big /\ Solves(s, run, x, K, Lam(ev.lam), 6000)]
Judge(rec) ==
  LET s == rec.s  n == Len(s.runs) IN
  IF rec.event # "fb" THEN [ran |-> FALSE]
  ELSE IF Len(rec.runs) # n THEN [runs |-> FALSE]
  ELSE LET Js == TLCEval([k \in 1..n |-> TLCEval(JudgeRun(s, s.runs[k], rec.runs[k], IF k = 1 THEN <<>> ELSE rec.runs[k - 1].K))])
           names == UNION { DOMAIN Js[k] : k \in 1..n }
       IN [nm \in names |-> \A k \in 1..n : nm \in DOMAIN Js[k] => Js[k][nm]]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
