---------------------------- MODULE CentroidalGen ----------------------------
(* Plans (all columns are distinct so that slots cannot be exchanged), query   *)
(* states, deviations, weights.                                                *)
EXTENDS Rand, TraceIO, Rotation
CONSTANTS Walks, Kind
VARIABLES w
R(s, d, a, b) == RI(w, s, d, a, b)
Ch(s, d, q) == RS(w, s, d, q)
Ori(s, d) == LET q == [i \in 1..4 |-> R(s, d + i, -5, 5)] IN IF q = <<0, 0, 0, 0>> THEN <<1, 0, 0, 0>> ELSE q
V3(s, d, m) == [i \in 1..3 |-> R(s, d + i, -m, m)]
N == IF Kind = "gain" THEN R(0, 1, 1, 4) ELSE R(0, 1, 1, 5)
\* one row of the plan; the orientation is the square of o (so its norm is an integer)
Row(s) == [c |-> V3(s, 10, 200), v |-> V3(s, 20, 300), o |-> Ori(s, 30), om |-> IF Kind = "gain" THEN V3(s, 40, 16) ELSE V3(s, 40, 32),
           f |-> V3(s, 50, 300), m |-> IF Kind = "gain" THEN V3(s, 60, 60) ELSE V3(s, 60, 300),
           on |-> LET k == R(s, 70, 0, 4) IN [i \in 1..4 |-> IF k = 0 THEN 0 ELSE IF i = k THEN 1 ELSE R(s, 70 + i, 0, 1)]]
Plan == [s \in 1..(N + 1) |-> Row(s)]
\* a turn by 4*atan(p/q) about an axis
Turn(s) == LET c == Ch(s, 1, <<"any", "any", "tiny", "none">>) IN
  CASE c = "tiny" -> [ax |-> R(s, 2, 1, 3), p |-> Ch(s, 3, <<1, -1>>), q |-> Ch(s, 4, <<700, 300, 100, 50>>)]
    [] c = "none" -> [ax |-> 1, p |-> 0, q |-> 1]
    [] OTHER -> LET p == R(s, 5, 1, 30) IN [ax |-> R(s, 2, 1, Len(Axes)), p |-> p * Ch(s, 3, <<1, -1>>), q |-> p + R(s, 6, 1, 10)]
\* weights: positive definite, each coordinate i coupled with i + 6
Wt(s, cq) == LET D == [i \in 1..12 |-> R(s, i, 1, 8)]
                 O == [i \in 1..6 |-> IF i <= 3 /\ ~cq THEN 0 ELSE LET m == Min2(D[i], D[i + 6]) IN R(s, 20 + i, 1 - m, m - 1)]
             IN [i \in 1..12 |-> [j \in 1..12 |-> IF i = j THEN D[i] ELSE IF j = i + 6 THEN O[i] ELSE IF i = j + 6 THEN O[j] ELSE 0]]
WtU(s, m) == LET D == [i \in 1..6 |-> R(s, 40 + i, 1, m)]
                 O == [i \in 1..3 |-> LET x == Min2(D[i], D[i + 3]) IN R(s, 50 + i, 1 - x, x - 1)]
             IN [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN D[i] ELSE IF j = i + 3 THEN O[i] ELSE IF i = j + 3 THEN O[j] ELSE 0]]
\* the orientation block is a multiple of the identity unless there is no turn
Dev(s) == [c |-> V3(s, 100, 20), v |-> V3(s, 110, 20), om |-> V3(s, 120, 20), u |-> [i \in 1..6 |-> R(s, 130 + i, -30, 30)]]
Flat == R(0, 3, 0, 3) = 0
CTurn == IF Flat THEN [ax |-> 1, p |-> 0, q |-> 1] ELSE LET p == R(91, 5, 1, 30) IN [ax |-> R(91, 2, 1, Len(Axes)), p |-> p * Ch(91, 3, <<1, -1>>), q |-> p + R(91, 6, 1, 10)]
CW == LET q == Wt(92, Flat) k == R(92, 99, 1, 8) IN
      IF Flat THEN q ELSE [i \in 1..12 |-> [j \in 1..12 |-> IF i \in 7..9 THEN (IF i = j THEN k ELSE 0) ELSE IF j \in 7..9 THEN 0 ELSE q[i][j]]]
Base == [kind |-> Kind, n |-> N, plan |-> Plan]
Rec == CASE Kind = "dyn" -> Base @@ [t |-> R(0, 2, 0, N - 1), x |-> Row(81), turn |-> Turn(82), dx |-> Dev(82), s1 |-> Ch(82, 140, <<1, 1, -1>>)]
         [] Kind = "cost" -> Base @@ [t |-> R(0, 2, 0, N), turn |-> CTurn, dx |-> Dev(91), Q |-> CW, R |-> WtU(92, 10), s1 |-> Ch(91, 140, <<1, 1, -1>>)]
         [] Kind = "gain" -> Base @@ [Q |-> [s \in 1..(N + 1) |-> Wt(100 + s, TRUE)], R |-> [s \in 1..N |-> WtU(100 + s, 10)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
