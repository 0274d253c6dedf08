------------------------------ MODULE LqrLoopMC ------------------------------
EXTENDS LqrLoop, TLC
CONSTANTS Lo, Hi, MaxIt
VARIABLES g, m, cost, old
vars == <<g, m, cost, old>>
Gs == [ini : {Off} \cup (-Lo..Hi), mul : {-1, 0, 1}, inc : 1..2, min : -Lo..0, max : 1..Hi, iters : 0..MaxIt, alphas : {1, 4}]
Init == g \in Gs /\ m = Boot(g) /\ cost = 3 /\ old = m
Go(S) == /\ S # {}
         /\ m' \in S /\ old' = m /\ UNCHANGED g
BackwardFails == Go(Fail(g, m)) /\ UNCHANGED cost
Accept == \E d \in 1..2 : cost >= d /\ Go(Take(g, m, d = 1)) /\ cost' = cost - d
Reject == Go(Refuse(g, m)) /\ UNCHANGED cost
StopGradient == Go(Stop(g, m, "gradient")) /\ UNCHANGED cost
StopOther == (\E w \in {"cost", "iterations", "regularisation"} : Go(Stop(g, m, w))) /\ UNCHANGED cost
Next == BackwardFails \/ Accept \/ Reject \/ StopGradient \/ StopOther
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* while it runs the regularisation is off or within the largest allowed
Range == m.ph = "top" /\ g.ini <= g.max => m.lam = Off \/ m.lam <= g.max
Budget == m.it <= g.iters
Honest == m.ph = "done" => CASE m.why = "iterations" -> m.it = g.iters [] m.why = "regularisation" -> TooBig(g, m) [] m.why = "cost" -> m.it > 0 [] OTHER -> m.why = "gradient"
Rises == [][BackwardFails \/ Reject => m'.lam > m.lam]_vars
Falls == [][Accept => m'.lam <= m.lam /\ cost' < cost]_vars
\* whatever happens, a run ends
Ends == <>(m.ph = "done")
\* below the minimum it is switched off at the next good step
Floor == m.lam # Off /\ m.lam < g.min /\ old.ph = "top" /\ m.ph = "top" /\ old.lam # m.lam => old.lam > m.lam \/ g.ini < g.min
=============================================================================
