----------------------------- MODULE ScheduleGen -----------------------------
(* Contact plans (with replanning), terrain regions, via-point polynomials.    *)
EXTENDS Rand, TraceIO, Schedule, LinAlg
CONSTANTS Walks, Kind
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, s) == RS(w, 0, d, s)
Feet == 1..4
Dt == Ch(1, <<100, 50, 300, 60, 20, 150, 30, 25, 10, 70>>)
N == R(2, 1, 14)
Oris == << <<1000, 0, 0, 0>>, <<600, 800, 0, 0>>, <<800, 0, 0, -600>>, <<500, 500, 500, 500>>, <<-1000, 0, 0, 0>>, <<0, 0, 1000, 0>>, <<960, 0, 280, 0>>, <<-600, 0, -800, 0>> >>
V3(d) == <<R(d, -90, 90), R(d + 1, -90, 90), R(d + 2, -40, 40)>>
\* times of plan p, foot f: alternating ends of contacts
\* kinds of times: on the grid, just off it, anywhere
T(d, lo, hi) == LET g == R(d, lo, hi) * Dt kind == R(d + 1, 0, 5) IN IF kind <= 3 THEN g ELSE IF kind = 4 THEN g + Ch(d + 2, <<1, -1, 2, -2>>) ELSE g + R(d + 2, 0, Dt - 1)
RECURSIVE Cs(_, _, _, _)
Cs(d, n, t, i) ==
  IF n = 0 THEN <<>>
  ELSE LET gap == IF i = 1 THEN Ch(d, <<0, 0, 1, 2, 3>>) ELSE Ch(d, <<0, 1, 1, 2, 3, 4>>)
           s0 == t + T(d + 1, 0, 0) + gap * Dt
           s == IF s0 < t THEN t ELSE s0
           e0 == s + T(d + 4, 0, 4)
           e == IF e0 <= s THEN s + 1 + Dt * R(d + 7, 0, 2) ELSE e0
       IN << [s |-> s, e |-> e, pos |-> V3(d + 10), ori |-> Ch(d + 14, Oris), typ |-> R(d + 15, 0, 2), sel |-> IF R(d + 17, 0, 7) = 0 THEN 0 ELSE 1, ter |-> R(d + 16, -1, 3)] >> \o Cs(d + 30, n - 1, e, i + 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Foot(p, f) == LET d == 1000 * p + 200 * f  cs == Cs(d, R(d + 199, 0, 4), 0, 1) IN IF R(d + 198, 0, 9) = 0 THEN Rev(cs) ELSE cs
Vias(p, f, n) == LET d == 5000 + 500 * p + 100 * f IN SelectSeq([i \in 1..(n + 1) |-> [id |-> i - 2, keep |-> R(d + i, 0, 2), pos |-> V3(d + 10 + 5 * i), ori |-> Ch(d + 40 + i, Oris)]], LAMBDA v : v.keep # 0)
Plan(p) == LET C == [f \in Feet |-> Foot(p, f)] IN [feet |-> C, vias |-> [f \in Feet |-> Vias(p, f, Len(C[f]))], ini |-> [f \in Feet |-> [act |-> R(7000 + 10 * p + f, 0, 1), pos |-> V3(7100 + 40 * p + 5 * f), ori |-> Ch(7300 + 10 * p + f, Oris), frc |-> V3(7800 + 40 * p + 5 * f)]],
   com |-> V3(7600 + 5 * p), lmom |-> V3(7620 + 5 * p), amom |-> V3(7640 + 5 * p)]
Durs == IF R(3, 0, 1) = 0 THEN [k \in 1..N |-> Dt] ELSE [k \in 1..N |-> R(7400 + k, 5, 120)]
Sched == [kind |-> "sched", dt |-> Dt, n |-> N, durs |-> Durs, kin |-> (R(4, 0, 5) # 0), motion |-> V3(7500), plans |-> [p \in 1..(1 + R(5, 0, 1)) |-> Plan(p)]]
\* ---- convex regions: an affine image of a plane polygon, vertices in order either way
Polys == << << <<0, 0>>, <<4, 0>>, <<0, 4>> >>, << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>> >>, << <<0, 0>>, <<6, 0>>, <<6, 2>>, <<0, 2>> >>, << <<0, 0>>, <<4, 0>>, <<6, 2>>, <<4, 4>>, <<0, 2>> >>,
            << <<-2, 0>>, <<0, -2>>, <<2, 0>>, <<0, 2>> >>, << <<-3, -1>>, <<3, -3>>, <<2, 4>> >>, << <<-2, 0>>, <<-1, -2>>, <<1, -2>>, <<2, 0>>, <<1, 2>>, <<-1, 2>> >> >>
Frames == << << <<1, 0, 0>>, <<0, 1, 0>> >>, << <<1, 0, 1>>, <<0, 1, 0>> >>, << <<0, 1, 0>>, <<0, 0, 1>> >>, << <<2, 1, 0>>, <<0, 1, 1>> >>, << <<1, 2, -1>>, <<-1, 1, 3>> >>, << <<0, 3, 0>>, <<-1, 0, 0>> >> >>
Poly(d) == LET q == Ch(d, Polys) m == R(d + 1, 0, Len(q) - 1) r == [i \in 1..Len(q) |-> q[1 + ((i + m - 1) % Len(q))]] IN IF R(d + 2, 0, 3) = 0 THEN Rev(r) ELSE r
Reg(i) == LET d == 100 * i IN [poly |-> Poly(d), fr |-> Ch(d + 3, Frames), o |-> <<R(d + 4, -5, 5), R(d + 5, -5, 5), R(d + 6, -5, 5)>>]
\* test points, in quarters: anywhere, on vertices, on edges
Pt(i, rg, j) == LET d == 2000 + 300 * i + 10 * j  k == R(d, 0, 3)  q == rg.poly  a == R(d + 1, 1, Len(q))  b == (a % Len(q)) + 1  t == R(d + 2, -1, 5)
  IN IF k = 0 THEN VScale(4, q[a]) ELSE IF k = 1 THEN VAdd(VScale(4 - t, q[a]), VScale(t, q[b])) ELSE <<R(d + 3, -14, 26), R(d + 4, -14, 22)>>
Terrain == LET rs == [i \in 1..R(6, 1, 3) |-> Reg(i)] IN [kind |-> "terrain", file |-> (R(7, 0, 1) = 1), regs |-> rs, pts |-> [i \in 1..Len(rs) |-> [j \in 1..12 |-> Pt(i, rs[i], j)]]]
\* ---- trajectories through three points
Dur == Ch(11, <<100, 250, 1000, 40, 400, 3000, 10>>)
Traj == [kind |-> "traj", t0 |-> Ch(10, <<0, 0, 500, -1000, 9700, 30000, 100>>), dur |-> Dur, p0 |-> V3(20), p1 |-> V3(30), pv |-> V3(40), q |-> [i \in 1..10 |-> R(50 + i, -4, 20)] \o <<0, 8, 16>>]
\* ---- general conditions: a polynomial with integer coefficients in t - c, conditions at quarters
Times == LET a == R(60, -6, 2) b == a + R(61, 1, 4) IN <<a, b, b + R(62, 1, 3)>>
NT == R(63, 2, 3)
NV == R(64, 1, 2)
NA == R(65, 1, NV)
Deg == NT + NV + NA
Perm == IF NT = 2 THEN Ch(66, << <<1, 2>>, <<2, 1>> >>) ELSE Ch(66, << <<1, 2, 3>>, <<3, 1, 2>>, <<2, 1, 3>>, <<3, 2, 1>> >>)
Interp == [kind |-> "interp", c |-> Ch(67, <<0, 0, 1, 2, -1>>), co |-> [i \in 1..Deg |-> R(70 + i, -3, 3)], tp |-> [i \in 1..NT |-> Times[Perm[i]]], tv |-> [i \in 1..NV |-> Times[Perm[i]]], ta |-> [i \in 1..NA |-> Times[Perm[i]]],
           q |-> [i \in 1..8 |-> 2 * Times[1] + R(90 + i, -6, 16)] \o <<2 * Times[1], 2 * Times[NT], -8 * R(68, 0, 1)>>]
\* ---- activation patterns: alternating stretches; a new foothold may follow without a gap
Len1(d) == LET k == R(d, 0, 9) IN IF k = 0 THEN R(d + 1, 20, 60) ELSE IF k <= 3 THEN 1 ELSE R(d + 1, 1, 9)
RECURSIVE Segs(_, _, _)
Segs(d, n, act) == IF n = 0 THEN <<>> ELSE << [len |-> Len1(d), act |-> act, pos |-> V3(d + 5)] >> \o Segs(d + 20, n - 1, IF act = 1 /\ R(d + 3, 0, 7) > 0 THEN 0 ELSE 1)
FootSegs(f) == LET d == 10000 + 500 * f IN Segs(d, R(d + 400, 1, 7), IF R(d + 401, 0, 3) = 0 THEN 0 ELSE 1)
Total(q) == SeqSum([i \in 1..Len(q) |-> q[i].len])
\* occasionally a long wait first, as for a plan of many seconds
FeetRec == LET nf == R(12, 1, 4) S == [f \in 1..nf |-> FootSegs(f)]
               n == LET m == SeqMax([f \in 1..nf |-> Total(S[f])]) IN Max2(2, IF R(13, 0, 2) = 0 THEN (m + 1) \div 2 ELSE m) IN
  [kind |-> "feet", n |-> n, wait |-> IF R(14, 0, 5) = 0 THEN Ch(15, <<50, 200, 290>>) ELSE 0, dt |-> Ch(16, <<10, 1, 100, 50, 30>>), zoff |-> Ch(17, <<10, 20, 0, 5, 80>>), feet |-> S, shift |-> V3(18)]
\* ---- joint or base trajectories through timed points
ViaRec == LET nj == R(20, 1, 3) nv == R(21, 1, 3)  W == [i \in 1..3 |-> R(22 + i, 1, 12)]  V(d) == [j \in 1..nj |-> R(d + j, -150, 150)]
              At3 == [i \in 1..nv |-> SeqSum(SubSeq(W, 1, i))] IN
  [kind |-> "via", dt |-> Ch(16, <<10, 1, 100, 50, 30, 300, 60>>), nj |-> nj, init |-> V(30), last |-> V(40), steps |-> At3, via |-> [i \in 1..nv |-> V(40 + 10 * i)], n |-> At3[nv] + R(29, 0, 9), wait |-> IF R(14, 0, 5) = 0 THEN 500 ELSE 0]
Rec == CASE Kind = "feet" -> FeetRec [] Kind = "via" -> ViaRec [] Kind = "sched" -> Sched [] Kind = "terrain" -> Terrain [] Kind = "traj" -> Traj [] OTHER -> Interp
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
