---------------------------- MODULE PlannerGen ----------------------------
(* Numbers of alternations, step durations, robots, ways to build and call.   *)
EXTENDS Rand, TraceIO
CONSTANTS Walks
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, q) == RS(w, 0, d, q)
Via == Ch(1, <<"direct", "steps", "once", "args">>)
Lqr == Via # "args" /\ R(2, 0, 1) = 1
Op(i) == IF i = 1 THEN "run" ELSE Ch(10 + i, IF Lqr THEN <<"run", "save", "qp", "time">> ELSE <<"run", "save", "time">>)
Rec == [via |-> Via, n |-> R(3, 0, 5), lqr |-> IF Lqr THEN 1 ELSE 0, robot |-> Ch(4, <<"quad", "quad12", "biped">>), second |-> R(5, 0, 1),
        noset |-> IF Via = "direct" /\ R(6, 0, 3) = 0 THEN 1 ELSE 0, dts |-> [k \in 1..R(7, 1, 12) |-> R(20 + k, 100, 3000)],
        ops |-> [i \in 1..R(8, 1, 4) |-> Op(i)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
