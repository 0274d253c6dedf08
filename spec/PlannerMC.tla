----------------------------- MODULE PlannerMC -----------------------------
(* All runs of the planner: every alternation sees the newest plans, the plan  *)
(* returned is the last one, the feedback law belongs to it.                   *)
EXTENDS Planner
CONSTANTS MaxN, MaxRuns
VARIABLES n, f, st, runs, seen, last
vars == <<n, f, st, runs, seen, last>>
None == [kind |-> "none"]
Init == n \in 0..MaxN /\ f \in BOOLEAN /\ st = New /\ runs = 0 /\ seen = [dyn |-> 0, kin |-> 0] /\ last = None
Prepare == \E a \in Parts : Setup(st, a) /\ st' = DoSetup(st, a) /\ last' = [kind |-> "setup", a |-> a] /\ UNCHANGED <<n, f, runs, seen>>
Dynamics == runs < MaxRuns /\ CanDyn(st, n) /\ st' = DoDyn(st) /\ seen' = [seen EXCEPT !.kin = st.kin] /\ last' = [kind |-> "dyn", track |-> Track(st)] /\ UNCHANGED <<n, f, runs>>
Kinematics == CanKin(st, n) /\ st' = DoKin(st) /\ seen' = [seen EXCEPT !.dyn = st.dyn] /\ last' = [kind |-> "kin"] /\ UNCHANGED <<n, f, runs>>
FeedbackLaw == CanFb(st, n, f) /\ st' = DoFb(st) /\ last' = [kind |-> "fb"] /\ UNCHANGED <<n, f, runs, seen>>
Return == CanDone(st, n, f) /\ st' = DoDone(st) /\ runs' = runs + 1 /\ last' = [kind |-> "done"] /\ UNCHANGED <<n, f, seen>>
Next == Prepare \/ Dynamics \/ Kinematics \/ FeedbackLaw \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lockstep == st.dyn - runs - (IF st.busy THEN 1 ELSE 0) \in {st.kin, st.kin - 1}
\* in a run, each plan is made from the newest of the other
Newest == /\ (last.kind = "kin" => seen.dyn = st.dyn)
          /\ (last.kind = "dyn" => seen.kin = st.kin)
Tracking == last.kind = "dyn" => (last.track <=> st.k > 0)
Counts == last.kind = "done" => st.dyn = runs * (n + 1) /\ st.kin = runs * n /\ (f => st.fb = st.dyn) /\ (~f => st.fb = 0)
Ready == st.dyn > 0 => st.up = Parts
Stamped == Stamps(<<n + 1, 2, 3>>) = <<0, n + 1, n + 3>>
Finishes == <>(runs = MaxRuns)
=============================================================================
