------------------------------- MODULE LbfgsMC -------------------------------
(* Every run the protocol allows, for every objective with values in Ranks:   *)
(* the promises of the minimiser follow from it, and it always ends.          *)
EXTENDS Lbfgs, FiniteSets, TLC
CONSTANTS Ranks, Iters, Trials
VARIABLES st, seen, ret
mv == <<st, seen, ret>>
Tri == {-1, 1}
Params == [x0 : {1}, ls : Searches, maxit : {Iters}, maxls : {Trials}, past : 0..1, bad : {{}, {"INVALID"}}]
Init == \E p \in Params : st = St0(p) /\ seen = [i \in {} |-> 0] /\ ret = <<>>
NextPt == Cardinality(DOMAIN seen) + 1
Ev(f, arm, cw, cs, gc, s) == [e |-> "eval", pt |-> NextPt, f |-> f, arm |-> arm, cw |-> cw, cs |-> cs, cg |-> cs, gc |-> gc, smin |-> s, smax |-> s]
\* sufficient decrease implies a value not above the current one
Eval == \E f \in Ranks, arm, cw, gc \in Tri : \E cs \in (IF cw = 1 THEN Tri ELSE {-1}), s \in BOOLEAN :
   LET e == Ev(f, arm, cw, cs, gc, s) IN
   /\ (arm = 1 => f < st.fcur) /\ EvalOk(st, e) /\ st' = EvalDo(st, e) /\ seen' = seen @@ (e.pt :> [f |-> f, gc |-> gc]) /\ UNCHANGED ret
Prog == \E rate \in Tri, r \in {"", "USER"} :
   LET e == [e |-> "progress", pt |-> st.last.pt, f |-> st.last.f, k |-> st.k + 1, n |-> st.n, agrees |-> TRUE, rate |-> rate, ret |-> r] IN
   st.ph = "search" /\ ProgOk(st, e) /\ st' = ProgDo(st, e) /\ UNCHANGED <<seen, ret>>
Ret == \E c \in LsCodes \cup {SUCCESS, STOP, ALREADY, "MAXIMUMITERATION", "INVALID", "USER"} :
   \E at \in {[pt |-> st.cur, f |-> st.fcur]} \cup (IF st.ph = "search" THEN {[pt |-> st.last.pt, f |-> st.last.f]} ELSE {}) :
   LET e == [e |-> "return", code |-> c, pt |-> at.pt, f |-> at.f] IN
   RetOk(st, e) /\ st' = RetDo(st, e) /\ ret' = <<e>> /\ UNCHANGED seen
Next == Eval \/ Prog \/ Ret
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
done == ret # <<>>
R == ret[1]
Honest == (done /\ st.p.bad = {}) => R.f = seen[R.pt].f /\ R.f <= seen[1].f
Converged == (done /\ R.code \in {SUCCESS, ALREADY}) => seen[R.pt].gc = 1
Limit == st.k <= Iters /\ Cardinality(DOMAIN seen) <= 1 + Trials * (Iters + 1)
Rejected == (st.p.bad # {}) => (seen = [i \in {} |-> 0] /\ (done => R.code = "INVALID" /\ R.pt = 1))
Stop == (done /\ R.code = "USER") => st.p.bad = {}
NoDead == done \/ ENABLED Next
Ends1 == <>done
=============================================================================
