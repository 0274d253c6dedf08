------------------------------ MODULE FeetTrace ------------------------------
(* Foot references, via-point trajectories and polynomials of the Python       *)
(* kinematics optimiser.  Steps are counted from 0 here.                       *)
EXTENDS Curves, FiniteSets
VARIABLE l
\* ---- the stretches of one foot with their steps [a, b]
RECURSIVE Place(_, _, _, _, _)
Place(q, i, k, n, wait) ==
  IF i > Len(q) THEN <<>>
  ELSE LET e == IF i = Len(q) THEN n ELSE Min2(n, k + q[i].len + (IF i = 1 THEN wait ELSE 0)) IN
       (IF e > k THEN << [a |-> k, b |-> e - 1, act |-> q[i].act, pos |-> q[i].pos] >> ELSE <<>>) \o Place(q, i + 1, e, n, wait)
Seg(st, k) == CHOOSE i \in 1..Len(st) : st[i].a <= k /\ k <= st[i].b
Rest(w, p, c) == NearSeq(w.p, Cm(p), 3) /\ NearSeq(w.v, <<0, 0, 0>>, 30) /\ w.c = c
\* leg between two footholds: from the last step a of one to the first step b of the next
Leg(w, a, b, k, p0, p1, z) ==
  LET s == FxDiv(k - a, b - a)  v == <<p0[1] + p1[1], p0[2] + p1[2], 2 * (p0[3] + z)>> IN
  /\ Near3(w.p, LAMBDA i : PosH(s, 2 * p0[i], 2 * p1[i], v[i]), 15)
  /\ \A i \in 1..3 : IsNum(w.v[i]) /\ Abs((w.v[i] * (b - a)) \div 1000 - VelH(s, 2 * p0[i], 2 * p1[i], v[i])) <= 60 + (b - a) \div 2
JudgeFeet(s, r) ==
  LET nf == Len(s.feet)
      St == TLCEval([f \in 1..nf |-> TLCEval(Place(s.feet[f], 1, 0, r.n, s.wait))])
      W(f, j) == r.feet[f][j]
      All(P(_, _, _, _)) == \A f \in 1..nf, j \in 1..Len(r.k) : LET i == Seg(St[f], r.k[j]) IN P(St[f], i, r.k[j], W(f, j))
  IN
  [shapes |-> r.shape = << <<r.n, nf, 3>>, <<r.n, nf, 3>>, <<r.n, nf>> >>,
   untouched |-> r.plan = <<1>>,
   flag |-> All(LAMBDA q, i, k, w : w.c = q[i].act),
   stance |-> All(LAMBDA q, i, k, w : q[i].act = 1 => Rest(w, q[i].pos, 1)),
   swing |-> All(LAMBDA q, i, k, w : (q[i].act = 0 /\ i > 1 /\ i < Len(q)) => Leg(w, q[i - 1].b, q[i + 1].a, k, q[i - 1].pos, q[i + 1].pos, s.zoff)),
   ends |-> All(LAMBDA q, i, k, w : (q[i].act = 0 /\ Len(q) > 1) => (i = 1 => Rest(w, q[2].pos, 0)) /\ ((i = Len(q)) => Rest(w, q[i - 1].pos, 0))),
   always |-> All(LAMBDA q, i, k, w : AllNum(w.p) /\ AllNum(w.v))]
\* ---- through timed points, resting at each
JudgeVia(s, r) ==
  LET nv == Len(s.steps)  T == [i \in 0..(nv + 1) |-> IF i = 0 THEN -s.wait ELSE IF i > nv THEN s.n ELSE s.steps[i]]
      Pt(i, j) == IF i = 0 THEN s.init[j] ELSE IF i > nv THEN s.last[j] ELSE s.via[i][j]
      Sg(k) == IF k >= T[nv] /\ T[nv + 1] > T[nv] THEN nv ELSE CHOOSE i \in 0..nv : T[i] <= k /\ k < T[i + 1]
      Val(k, j) == LET i == Sg(k) IN PosH(FxDiv(k - T[i], T[i + 1] - T[i]), 2 * Pt(i, j), 2 * Pt(i + 1, j), Pt(i, j) + Pt(i + 1, j))
  IN [sizes |-> Len(r.q) = Len(r.k) /\ \A x \in 1..Len(r.q) : Len(r.q[x]) = s.nj,
      values |-> \A x \in 1..Len(r.k) : \A j \in 1..s.nj : Near(r.q[x][j], Val(r.k[x] - s.wait, j), 25)]
\* ---- polynomials
JudgePoly(s, r) ==
  LET Ok(o, d, x) == LET e == Der(s.co, x, d) IN Near(o[1], e, 1) /\ (Abs(e) < 300000 => Near(o[2], 4096 * e, 4000))
      Inn(d) == \A j \in 1..Len(s.q) : LET x == s.q[j] - 2 * s.c IN Abs(x) <= 20 => Ok(r.out[j][d + 1], d, x)
  IN [value |-> Inn(0), derivative |-> Inn(1), constant |-> r.const = <<s.co[1], 0>>]
Judge(r) == CASE r.event = "feet" -> JudgeFeet(r.s, r) [] r.event = "via" -> JudgeVia(r.s, r) [] r.event = "poly" -> JudgePoly(r.s, r) [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
