----------------------------- MODULE ResampleGen -----------------------------
(* Plan times (several step lengths, also uneven), weights, number of joints,  *)
(* query times on, next to and far from plan times.  Plan values are those of  *)
(* PlanVal (Plan.tla).                                                         *)
EXTENDS Rand, TraceIO
CONSTANTS Walks, Kind
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, q) == RS(w, 0, d, q)
File == Kind # "query"
N == R(1, 1, 7)
Even == Ch(2, <<0, 1, 1>>) = 1
Dt == IF Kind = "old" THEN Ch(3, <<5, 10, 20, 7, 33>>) ELSE IF Kind = "query" THEN Ch(3, <<1, 5, 10, 100, 30, 200>>) ELSE Ch(3, <<10, 50, 100, 200, 100>>)
Start == IF Even THEN Dt ELSE R(4, 0, 20)
RECURSIVE Times(_)
Times(n) == IF n = 1 THEN <<Start>> ELSE LET p == Times(n - 1) IN Append(p, p[n - 1] + (IF Even THEN Dt ELSE R(10 + n, 1, 2 * Dt)))
\* files need some length; some plans end on, just before and just after whole seconds
Stretch(q) == LET e == Ch(5, <<0, 0, 0, 1000, 1001, 999, 1002, 2000>>) n == Len(q) IN
              IF Kind \in {"qp", "lqr"} /\ e > q[n] /\ n > 1 THEN [q EXCEPT ![n] = e] ELSE q
T == LET q == Times(N) IN IF Kind = "old" /\ q[N] < 3 THEN [q EXCEPT ![N] = 3] ELSE Stretch(q)
\* in eighths of a millisecond
Query(j) == LET k == R(30 + j, 1, N) c == R(40 + j, 0, 5) IN
            CASE c = 0 -> 8 * T[k] [] c = 1 -> 8 * T[k] + Ch(50 + j, <<1, -1>>)
              [] c = 2 /\ k < N -> 4 * (T[k] + T[k + 1])
              [] c = 3 -> R(60 + j, -80, 8 * T[1]) [] c = 4 -> 8 * T[N] + R(60 + j, 0, 4000)
              [] OTHER -> R(60 + j, 8 * T[1], 8 * T[N])
Tick(j) == LET k == R(30 + j, 1, N) c == R(40 + j, 0, 3) IN CASE c = 0 -> T[k] [] c = 1 -> T[k] + Ch(50 + j, <<1, -1, 2>>) [] OTHER -> R(60 + j, 0, T[N] + 20)
Rec == [kind |-> Kind, T |-> T, nj |-> Ch(6, <<8, 12>>), w |-> R(7, 10, 40), salt |-> R(8, 0, 5000),
        ts |-> IF Kind = "query" THEN [j \in 1..7 |-> Query(j)] ELSE [j \in 1..8 |-> IF j = 1 THEN 0 ELSE Tick(j)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
