------------------------------- MODULE LbfgsGen -------------------------------
(* Objectives, starts, settings (valid and invalid) and stop requests.        *)
EXTENDS Rand, TraceIO, FiniteSets
CONSTANTS Walks
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, s) == RS(w, 0, d, s)
N == R(1, 1, 4)
Class == Ch(2, <<"nice", "any", "any", "any", "wild", "wild", "invalid", "nlp">>)
Smooth == Ch(3, <<"quad", "quartic", "wave", "hinge", "logcosh", "quad">>)
Wild == Ch(3, <<"abs", "hinge", "linear", "step", "chaos", "wave", "logcosh">>)
Kind == CASE Class = "nice" -> Ch(3, <<"quad", "quad", "quartic">>) [] Class = "nlp" -> Ch(3, <<"quad", "quad", "quartic">>) [] Class = "any" -> Smooth [] OTHER -> Wild
Unit(i) == [j \in 1..N |-> IF i = j THEN 1 ELSE 0]
Term(i) == [c |-> R(40 + i, 1, 3), b |-> R(60 + i, -4, 4), a |-> IF Class \in {"nice", "nlp"} /\ i <= N THEN Unit(i) ELSE [j \in 1..N |-> R(100 + 10 * i + j, -2, 2)]]
Terms == [i \in 1..(IF Class \in {"nice", "nlp"} THEN N + R(4, 0, 1) ELSE R(4, 1, 3)) |-> Term(i)]
Obj == [kind |-> Kind, terms |-> Terms, scale |-> IF Class \in {"nice", "nlp"} THEN R(5, -1, 2) ELSE Ch(5, <<0, 0, 0, -6, 6, 13>>),
        offset |-> IF Class \in {"nice", "nlp"} THEN 0 ELSE Ch(6, <<0, 0, 1, -5, 1000>>)]
\* may the iteration limit be absent: bounded below, differentiable, consistent gradient
Tame == Kind \in {"quad", "quartic", "logcosh", "wave"}
Maxit == IF Class = "nice" THEN 0 ELSE IF Tame /\ R(10, 0, 1) = 0 THEN 0 ELSE Ch(11, <<1, 2, 3, 7, 40>>)
Base == [m |-> Ch(20, <<6, 1, 2, 3, 8>>), epsilon |-> IF Class = "nice" THEN Ch(21, <<"1e-5", "1e-3">>) ELSE IF Maxit = 0 THEN Ch(21, <<"1e-5", "1e-3", "0.5">>) ELSE Ch(21, <<"1e-5", "0", "1e-3", "0.5", "1e-9">>),
         past |-> IF Class = "nice" THEN 0 ELSE Ch(22, <<0, 0, 1, 2, 3>>), delta |-> Ch(23, <<"1e-5", "0", "0.1">>), maxit |-> Maxit,
         ls |-> R(24, 0, 3), maxls |-> IF Class = "nice" THEN 40 ELSE Ch(25, <<40, 40, 20, 1, 2, 3>>),
         minstep |-> IF Class = "nice" THEN "1e-20" ELSE Ch(26, <<"1e-20", "1e-20", "0.3", "0">>), maxstep |-> IF Class = "nice" THEN "1e20" ELSE Ch(27, <<"1e20", "1e20", "1", "0.5">>),
         ftol |-> Ch(28, <<"1e-4", "1e-4", "0.3", "0">>), wolfe |-> Ch(29, <<"0.9", "0.9", "0.5">>), gtol |-> Ch(30, <<"0.9", "0.9", "0.4">>), xtol |-> Ch(31, <<"1e-16", "1e-16", "1e-3">>)]
\* invalid settings, each with its own code
Broken == << [f |-> "epsilon", v |-> "-1e-9", code |-> "INVALID_EPSILON"], [f |-> "past", v |-> -1, code |-> "INVALID_TESTPERIOD"],
             [f |-> "delta", v |-> "-1e-12", code |-> "INVALID_DELTA"], [f |-> "minstep", v |-> "-1e-20", code |-> "INVALID_MINSTEP"],
             [f |-> "maxstep", v |-> "-1", code |-> "INVALID_MAXSTEP"], [f |-> "ftol", v |-> "-0.1", code |-> "INVALID_FTOL"],
             [f |-> "gtol", v |-> "-0.1", code |-> "INVALID_GTOL"], [f |-> "xtol", v |-> "-1e-16", code |-> "INVALID_XTOL"],
             [f |-> "maxls", v |-> 0, code |-> "INVALID_MAXLINESEARCH"], [f |-> "maxls", v |-> -3, code |-> "INVALID_MAXLINESEARCH"],
             [f |-> "ls", v |-> 4, code |-> "INVALID_LINESEARCH"], [f |-> "ls", v |-> -1, code |-> "INVALID_LINESEARCH"],
             [f |-> "wolfe", v |-> "1", code |-> "INVALID_WOLFE"], [f |-> "wolfe", v |-> "1e-9", code |-> "INVALID_WOLFE"], [f |-> "n", v |-> 0, code |-> "INVALID_N"], [f |-> "n", v |-> -2, code |-> "INVALID_N"] >>
\* one or two broken settings
B1 == Ch(50, Broken)
B2 == Ch(51, Broken)
BSet == IF Class # "invalid" THEN <<>> ELSE IF R(52, 0, 3) = 0 THEN <<B1, B2>> ELSE <<B1>>
\* Wolfe's constant matters to the searches that use it
Set0 == IF Class = "invalid" /\ \E i \in 1..Len(BSet) : BSet[i].f = "wolfe" THEN [Base EXCEPT !.ls = R(53, 2, 3), !.ftol = "1e-4"] ELSE Base
RECURSIVE Apply(_, _)
Apply(s, b) == IF b = <<>> THEN s ELSE Apply(IF Head(b).f = "n" THEN s ELSE [s EXCEPT ![Head(b).f] = Head(b).v], Tail(b))
Set == Apply(Set0, BSet)
\* a breakage that another one hides (an invalid search never uses Wolfe's constant)
Codes == { BSet[i].code : i \in 1..Len(BSet) }
NN == IF \E i \in 1..Len(BSet) : BSet[i].f = "n" THEN (CHOOSE i \in 1..Len(BSet) : BSet[i].f = "n" /\ TRUE) ELSE 0
X0 == [i \in 1..N |-> R(300 + i, -20, 20)]
Nlp == [nlp |-> R(70, 1, 2), ls |-> R(73, 0, 3), n |-> N, obj |-> Obj, x |-> X0, w |-> Ch(71, <<1, 10, 100, 0>>), cons |-> [i \in 1..R(72, 0, 2) |-> [j \in 1..N |-> R(400 + 10 * i + j, -2, 2)]]]
Lims(d, k) == [lo |-> [i \in 1..k |-> R(d + i, -3, 0)], hi |-> [i \in 1..k |-> R(d + 20 + i, 1, 4)]]
NlpRec == Nlp @@ [xl |-> Lims(500, N).lo, xu |-> Lims(500, N).hi, gl |-> Lims(600, Len(Nlp.cons)).lo, gu |-> Lims(600, Len(Nlp.cons)).hi]
Rec == [class |-> Class, n |-> N, nn |-> IF NN = 0 THEN N ELSE BSet[NN].v, obj |-> Obj, x |-> X0, set |-> Set, bad |-> Codes,
        ptr |-> (R(80, 0, 4) # 0), prog |-> (R(81, 0, 5) # 0), stopat |-> IF Class = "nice" THEN 0 ELSE Ch(82, <<0, 0, 0, 1, 2, 5>>), stopcode |-> Ch(83, <<77, -5, 1>>)]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(IF Class = "nlp" THEN NlpRec ELSE Rec)
=============================================================================
