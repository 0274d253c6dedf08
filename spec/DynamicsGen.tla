----------------------------- MODULE DynamicsGen -----------------------------
(* Robots, limits, contact plans and references for the centroidal planner.    *)
EXTENDS Rand, TraceIO
CONSTANTS Walks, Kind
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, s) == RS(w, 0, d, s)
N == R(1, 1, 8)
Dt == Ch(2, <<40, 50, 80, 100, 100, 20>>)
Hgt == R(3, 18, 40)
Dx == Ch(4, <<20, 25, 10>>)
Dy == Ch(5, <<15, 10, 20>>)
Neff == Ch(6, <<4, 4, 4, 2, 3>>)
NomAt(f) == CASE f = 1 -> <<Dx, -Dy, 0>> [] f = 2 -> <<Dx, Dy, 0>> [] f = 3 -> <<-Dx, -Dy, 0>> [] OTHER -> <<-Dx, Dy, 0>>
Nom(f) == IF Neff < 3 THEN <<R(7, -4, 4), NomAt(f)[2], 0>> ELSE NomAt(f)
J(d, m) == R(d, -m, m)
Pos(d, f) == <<Nom(f)[1] + J(d, 3), Nom(f)[2] + J(d + 1, 3), J(d + 2, 3)>>
Oris == << <<1, 0, 0, 0>>, <<1, 0, 0, 0>>, <<399, 40, 0, 0>>, <<399, 0, 40, 0>>, <<99, 0, -20, 0>>, <<99, -20, 0, 0>>, <<3, 0, 0, 4>>, <<1, 0, 0, -1>>, <<20, 2, 1, 7>>, <<20, -1, 2, -15>>, <<63, 16, 0, 0>>, <<-30, 2, -3, 20>> >>
Ori(d) == IF R(8, 0, 2) = 0 THEN Oris[1] ELSE Ch(d, Oris)
Cnt(d, f, s, e) == [s |-> s, e |-> e, pos |-> Pos(d, f), ori |-> Ori(d + 3), typ |-> IF R(d + 4, 0, 6) = 0 THEN 2 ELSE 1]
\* ways a foot may be used; A is a common change-over step
A0(p) == R(20 + p, 1, N)
Use(p, f) == LET g == R(30 + p, 0, 7) d == 100 * f + 1000 * p  a == A0(p)  IN
  CASE g <= 1 -> 0                                         \* everybody stands
    [] g = 2 -> IF f \in {1, 4} THEN 1 ELSE 2              \* trot
    [] g = 3 -> 3                                          \* jump
    [] OTHER -> R(d + 40, 0, 8)
Plan1(p, f) == LET d == 100 * f + 1000 * p  a == A0(p)  b == a + R(d + 41, 1, 2)  c == R(d + 42, 1, N + 1) u == Use(p, f) fl == R(50 + p, 1, 2) IN
  CASE u = 0 -> << Cnt(d + 50, f, R(d + 43, 0, 1), N + 2) >>
    [] u = 1 -> << Cnt(d + 50, f, 0, a + 1), Cnt(d + 60, f, b + 1, N + 2) >>
    [] u = 2 -> << Cnt(d + 50, f, 0, b), Cnt(d + 60, f, b + 1, N + 2) >>
    [] u = 3 -> << Cnt(d + 50, f, 0, a + 1), Cnt(d + 60, f, a + 1 + fl, N + 3) >>
    [] u = 4 -> << Cnt(d + 50, f, 0, c), Cnt(d + 60, f, c, N + 2) >>     \* no gap
    [] u = 5 -> << Cnt(d + 50, f, c, N + 2) >>
    [] u = 6 -> << Cnt(d + 50, f, 0, c) >>
    [] u = 7 -> << >>
    [] OTHER -> << Cnt(d + 50, f, 1, 2), Cnt(d + 60, f, 3, N + 1) >>
Small == R(9, 0, 2)
V3(d, m) == <<J(d, m), J(d + 1, m), J(d + 2, m)>>
Ini(p) == LET d == 3000 + 200 * p IN
  [com |-> <<J(d, 3), J(d + 1, 3), Hgt + J(d + 2, 1)>>, lmom |-> IF R(d + 3, 0, 1) = 0 THEN <<0, 0, 0>> ELSE V3(d + 4, 3), amom |-> IF R(d + 7, 0, 1) = 0 THEN <<0, 0, 0>> ELSE V3(d + 8, 2),
   feet |-> [f \in 1..4 |-> [act |-> 1, pos |-> Pos(d + 10 * f, f), frc |-> IF R(d + 60, 0, 1) = 0 THEN <<0, 0, 25>> ELSE V3(d + 70 + 4 * f, 20)]]]
Ref(p, k) == LET d == 4000 + 300 * p + 10 * k IN [com |-> <<J(d, 5), J(d + 1, 5), Hgt + J(d + 2, 3)>>, l |-> IF R(4900 + p, 0, 1) = 0 THEN <<0, 0, 0>> ELSE V3(d + 3, 5), a |-> IF R(4900 + p, 0, 1) = 0 THEN <<0, 0, 0>> ELSE V3(d + 6, 3)]
Run(p) == [track |-> p > 1 /\ R(4950 + p, 0, 2) > 0, plan |-> [f \in 1..4 |-> Plan1(p, f)], ini |-> Ini(p), refs |-> [k \in 1..N |-> Ref(p, k)]]
Cop(f) == LET k == R(60, 0, 3) IN IF k = 0 THEN <<0, 0, 0, 0>> ELSE IF k = 1 THEN <<-30, 30, -20, 20>> ELSE <<-R(60 + 5 * f, 0, 60), R(61 + 5 * f, 0, 60), -R(62 + 5 * f, 0, 40), R(63 + 5 * f, 0, 40)>>
Foot(f) == [off |-> IF R(90, 0, 1) = 0 THEN Nom(f) ELSE <<Nom(f)[1] + J(90 + 4 * f, 2), Nom(f)[2] + J(91 + 4 * f, 2), J(92 + 4 * f, 2)>>, len |-> Hgt + R(110 + f, 3, 14), cop |-> Cop(f)]
W3(d, s) == LET k == R(d, 0, 2) IN IF k = 0 THEN LET x == Ch(d + 1, s) IN <<x, x, x>> ELSE <<Ch(d + 1, s), Ch(d + 2, s), Ch(d + 3, s)>>
Ws == [w_com |-> W3(200, <<1000000, 100000, 1000, 10000000>>), w_lmom |-> W3(210, <<10, 100, 1>>), w_amom |-> W3(220, <<10, 500, 1, 1000>>), w_lmomd |-> W3(230, <<5, 15, 100>>), w_amomd |-> W3(240, <<100, 400, 10>>),
       w_lmom_final |-> W3(250, <<10000, 1000, 10>>), w_amom_final |-> W3(260, <<10000, 1000, 10>>), w_frc_leg |-> W3(270, <<1, 100, 1000>>), w_frc_arm |-> W3(280, <<1, 100>>), w_dfrc_leg |-> W3(290, <<0, 1, 100>>), w_dfrc_arm |-> W3(300, <<0, 1, 100>>),
       w_trq_leg |-> Ch(310, <<0, 1, 100>>), w_trq_arm |-> Ch(311, <<0, 1, 100>>), w_com_track |-> W3(320, <<1000, 0, 100000>>), w_lmom_track |-> W3(330, <<1000, 10, 100>>), w_amom_track |-> W3(340, <<1000, 10, 100>>), w_time |-> 1000000, w_time_penalty |-> 0]
Trq == Ch(64, << <<0, 0>>, <<-10, 10>>, <<-30, 20>>, <<0, 40>> >>)
Ext == IF R(65, 0, 1) = 0 THEN <<0, 0, 0>> ELSE V3(66, 20)
Rec == [kind |-> "dyn", store |-> (R(83, 0, 3) = 0), n |-> N, dt |-> Dt, neff |-> Neff, mass |-> Ch(70, <<22, 180, 600, 15, 310>>), grav |-> Ch(71, <<981, 981, 980, 372>>), mu |-> R(72, 35, 100), minh |-> Ch(73, <<5, 10, 2>>),
        heur |-> IF Kind = "time" THEN "TimeOptimization" ELSE Ch(74, <<"TrustRegion", "SoftConstraint">>), cone |-> Ch(75, <<"LinearCone", "SocCone">>), ext |-> Ext, motion |-> IF R(76, 0, 1) = 0 THEN <<0, 0, 0>> ELSE <<J(77, 4), J(78, 4), J(79, 2)>>,
        trq |-> Trq, tmax |-> <<40, 1000, 100>>, trange |-> <<Dt \div 2, 2 * Dt>>, fixed |-> (R(80, 0, 1) = 0), feet |-> [f \in 1..4 |-> Foot(f)], w |-> Ws, ws |-> [soft_constraint_weight_full |-> Ch(81, <<"1.0e4", "1.0e2">>)], runs |-> [p \in 1..(1 + R(82, 0, 1)) |-> Run(p)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
