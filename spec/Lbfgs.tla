-------------------------------- MODULE Lbfgs --------------------------------
(* The protocol of a line-search minimiser, seen through its callbacks.       *)
(* Points are identities, objective values are ranks (order is all that the   *)
(* protocol needs); facts about a point relative to the current iterate are   *)
(* three-valued: 1 holds, 0 too close to call, -1 does not hold.              *)
EXTENDS Integers, Sequences
SUCCESS == "SUCCESS"
STOP == "STOP"
ALREADY == "ALREADY"
MAXLS == "MAXIMUMLINESEARCH"
LsCodes == {"OUTOFINTERVAL", "INCORRECT_TMINMAX", "ROUNDING_ERROR", "MINIMUMSTEP", "MAXIMUMSTEP", MAXLS, "WIDTHTOOSMALL", "INCREASEGRADIENT"}
Searches == 0..3     \* MoreThuente, backtracking with Armijo / Wolfe / strong Wolfe

\* line-search conditions at a trial point: may hold, surely hold
May(p, e) == e.arm >= 0 /\ CASE p.ls = 0 -> e.cg >= 0 [] p.ls = 1 -> TRUE [] p.ls = 2 -> e.cw >= 0 [] OTHER -> e.cw >= 0 /\ e.cs >= 0
Sure(p, e) == e.arm = 1 /\ CASE p.ls = 0 -> e.cg = 1 [] p.ls = 1 -> TRUE [] p.ls = 2 -> e.cw = 1 [] OTHER -> e.cw = 1 /\ e.cs = 1

St0(p) == [ph |-> "init", p |-> p, cur |-> p.x0, fcur |-> 0, f0 |-> 0, gc |-> 0, k |-> 0, n |-> 0, last |-> <<>>, end |-> {}]
\* ends that the run must (or, if some fact is too close to call, may) take after an iterate is accepted
EndsAfter(st, e) ==
  LET p == st.p IN
  IF e.ret # "" THEN [must |-> TRUE, codes |-> {e.ret}]
  ELSE [must |-> st.last.gc = 1 \/ (p.past > 0 /\ p.past <= e.k /\ e.rate = 1) \/ (p.maxit > 0 /\ p.maxit <= e.k),
        codes |-> (IF st.last.gc >= 0 THEN {SUCCESS} ELSE {}) \cup (IF p.past > 0 /\ p.past <= e.k /\ e.rate >= 0 THEN {STOP} ELSE {})
                  \cup (IF p.maxit > 0 /\ p.maxit <= e.k THEN {"MAXIMUMITERATION"} ELSE {})]
None == [must |-> FALSE, codes |-> {}]
Ends(st) == IF st.end = {} THEN None ELSE CHOOSE x \in st.end : TRUE

\* ---- which event is allowed in which state ------------------------------------
EvalOk(st, e) ==
  \/ st.ph = "init" /\ st.p.bad = {} /\ e.pt = st.p.x0
  \/ st.ph = "entry" /\ st.gc # 1 /\ st.n < st.p.maxls
  \/ st.ph = "iter" /\ ~Ends(st).must /\ st.n < st.p.maxls
  \/ st.ph = "search" /\ st.n < st.p.maxls
EvalDo(st, e) ==
  IF st.ph = "init" THEN [st EXCEPT !.ph = "entry", !.fcur = e.f, !.f0 = e.f, !.gc = e.gc]
  ELSE [st EXCEPT !.ph = "search", !.n = @ + 1, !.last = e, !.end = {}]
\* an iterate is accepted and reported
ProgOk(st, e) ==
  /\ st.ph = "search"
  /\ e.pt = st.last.pt /\ e.f = st.last.f /\ e.k = st.k + 1 /\ e.n = st.n /\ e.agrees
  /\ May(st.p, st.last)
  /\ st.last.f <= st.fcur
ProgDo(st, e) == [st EXCEPT !.ph = "iter", !.k = e.k, !.n = 0, !.cur = e.pt, !.fcur = e.f, !.gc = st.last.gc, !.end = {EndsAfter(st, e)}]
\* a line search may give up
LsFail(st, c) ==
  /\ c \in LsCodes
  /\ c \in {"OUTOFINTERVAL", "INCORRECT_TMINMAX", "ROUNDING_ERROR", "WIDTHTOOSMALL"} => st.p.ls = 0
  /\ c = MAXLS => st.n = st.p.maxls
  /\ c = "MINIMUMSTEP" => st.n > 0 /\ st.last.smin
  /\ c = "MAXIMUMSTEP" => st.n > 0 /\ st.last.smax
  /\ c # "INCREASEGRADIENT" => st.n > 0
  /\ (st.n > 0 /\ st.p.ls # 0) => ~Sure(st.p, st.last)
RetOk(st, e) ==
  \/ st.ph = "init" /\ e.code \in st.p.bad /\ e.pt = st.p.x0
  \/ /\ st.ph \in {"entry", "iter", "search"}
     /\ \/ e.pt = st.cur /\ e.f = st.fcur
        \* a search that gives up may keep its last trial point if it is better
        \/ st.ph = "search" /\ e.pt = st.last.pt /\ e.f = st.last.f /\ e.f < st.fcur
     /\ \/ st.ph = "entry" /\ e.code = ALREADY /\ st.gc >= 0
        \/ st.ph = "iter" /\ e.code \in Ends(st).codes
        \/ (st.ph \in {"entry", "search"} \/ (st.ph = "iter" /\ ~Ends(st).must)) /\ ~(st.ph = "entry" /\ st.gc = 1) /\ LsFail(st, e.code)
RetDo(st, e) == [st EXCEPT !.ph = "done"]

Allowed(st, e) == CASE e.e = "eval" -> EvalOk(st, e) [] e.e = "progress" -> ProgOk(st, e) [] e.e = "return" -> RetOk(st, e) [] OTHER -> FALSE
After(st, e) == CASE e.e = "eval" -> EvalDo(st, e) [] e.e = "progress" -> ProgDo(st, e) [] OTHER -> RetDo(st, e)
=============================================================================
