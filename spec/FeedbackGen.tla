---------------------------- MODULE FeedbackGen ----------------------------
(* Centroidal plans, weights and regularisations for the momentum feedback     *)
(* law; several plans one after the other, some of the wrong length.           *)
EXTENDS Rand, TraceIO
CONSTANTS Walks
VARIABLES w
R(s, d, a, b) == RI(w, s, d, a, b)
Ch(s, d, q) == RS(w, s, d, q)
V3(s, d, m) == [i \in 1..3 |-> R(s, d + i, -m, m)]
NE == R(0, 1, 1, 4)
TT == R(0, 2, 1, 5)
NR == Ch(0, 3, <<1, 1, 2, 3>>)
Long(k) == IF R(k, 4, 0, 7) = 0 /\ k < NR THEN TT + Ch(k, 5, <<1, 1, -1>>) ELSE TT
Foot(s, f, n) == LET on == R(s, 10 + f, 0, 3) > 0 IN [act |-> on, p |-> << R(s, 20 + 5 * f, -40, 40), R(s, 21 + 5 * f, -40, 40), R(s, 22 + 5 * f, -10, 20) >>,
   f |-> IF on \/ R(s, 40 + f, 0, 1) = 0 THEN << R(s, 50 + 5 * f, -20, 20), R(s, 51 + 5 * f, -20, 20), R(s, 52 + 5 * f, 0, 120 \div n) >> ELSE <<0, 0, 0>>]
State(s) == [dt |-> Ch(s, 1, <<100, 100, 100, 50, 150, 200>>), com |-> << R(s, 2, -20, 20), R(s, 3, -20, 20), R(s, 4, 10, 50) >>, l |-> V3(s, 5, 30), a |-> V3(s, 8, 15), feet |-> [f \in 1..4 |-> Foot(s, f, NE)]]
Run(k) == LET s == 100 * k IN [plan |-> [t \in 1..Long(k) |-> State(s + t)], ini |-> [com |-> << R(s, 60, -20, 20), R(s, 61, -20, 20), R(s, 62, 10, 50) >>, l |-> V3(s, 63, 30), a |-> V3(s, 66, 15)]]
W3(d, a, b) == [i \in 1..3 |-> R(0, d + i, a, b)]
Rec == [neff |-> NE, T |-> TT, mass |-> R(0, 6, 30, 100), grav |-> R(0, 7, 200, 600), set |-> [ini |-> Ch(0, 8, <<-3, -3, -6, -1, -9999>>), min |-> R(0, 9, -6, -3)],
        w |-> << W3(70, 20, 100), W3(75, 10, 100), W3(80, 10, 100), W3(85, 10, 100), W3(90, 10, 200), W3(95, 10, 200), W3(100, 10, 200) >>, runs |-> [k \in 1..NR |-> Run(k)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
