----------------------------- MODULE DynamicsMC -----------------------------
(* The equations and limits of Dynamics, explored step by step on a small      *)
(* robot: two feet, forces from a small set, any order of contact and flight.  *)
EXTENDS Dynamics, TraceIO
CONSTANTS Steps
VARIABLES k, hist, on, turned
vars == <<k, hist, on, turned>>
Q90 == <<1, 0, 0, 1>>
Turn(v) == << -v[2], v[1], v[3] >>
Pos(f, t) == LET p == IF f = 1 THEN <<10, -20, 0>> ELSE <<0, 20, 5>> IN IF t THEN Turn(p) ELSE p
Ori(f, t) == LET q == IF f = 1 THEN <<1, 0, 0, 0>> ELSE <<4, 1, 0, 0>> IN IF t THEN QMul(Q90, q) ELSE q
Scen(t) == [n |-> Steps, neff |-> 2, dt |-> 100, grav |-> 1000, mu |-> 50, cone |-> "SocCone", ext |-> IF t THEN <<0, 10, 0>> ELSE <<10, 0, 0>>, trq |-> <<-20, 20>>, minh |-> 5,
            feet |-> [f \in 1..4 |-> [off |-> IF t THEN Turn(<<0, 10, 0>>) ELSE <<0, 10, 0>>, len |-> 60, cop |-> <<-30, 30, -30, 30>>]]]
\* the contact pattern chosen so far is the plan
RunOf(t) == [plan |-> [f \in 1..4 |-> IF f > 2 THEN <<>> ELSE LET S == SelectSeq([i \in 1..Len(on) |-> i], LAMBDA i : on[i][f]) IN [j \in 1..Len(S) |-> [s |-> S[j], e |-> S[j] + 1, pos |-> Pos(f, t), ori |-> Ori(f, t), typ |-> 1]]],
             ini |-> [com |-> IF t THEN Turn(<<3, 4, 30>>) ELSE <<3, 4, 30>>, lmom |-> IF t THEN Turn(<<1, 0, 2>>) ELSE <<1, 0, 2>>, amom |-> <<0, 0, 0>>, feet |-> [f \in 1..4 |-> [pos |-> Pos(1, t)]]]]
Forces == { <<0, 0, 8000000>>, <<1000000, -2000000, 5000000>>, <<0, 3000000, 14000000>> }
Mv(v, t) == IF t THEN Turn(v) ELSE v
\* the state after a step with the given contacts, forces, centres of pressure and torques
Apply(t, p, c, F) ==
  LET s == Scen(t)
      P == [i \in 1..Steps |-> [f \in 1..4 |-> IF f <= 2 /\ c[f] THEN [on |-> TRUE, p |-> Cmv(Pos(f, t)), R |-> RotFx(Ori(f, t)), cone |-> TRUE] ELSE [on |-> FALSE]]]
      x == [f \in 1..4 |-> IF f <= 2 /\ c[f] THEN [f |-> Mv(F[f], t), cop |-> <<200000, -100000, 0>>, trq |-> <<0, 0, 100000>>] ELSE [f |-> Zero3, cop |-> Zero3, trq |-> Zero3]]
      q0 == [dt |-> 1000000, com |-> p.com, l |-> p.l, a |-> p.a, feet |-> x]
      q1 == TLCEval([q0 EXCEPT !.l = VAdd(p.l, FxScale(1000000, ForceSum(s, P, k, q0)))])
      q2 == TLCEval([q1 EXCEPT !.com = VAdd(p.com, FxScale(1000000, VScale(10, q1.l)))])
  IN [q2 EXCEPT !.a = VAdd(p.a, FxScale(1000000, MomentSum(s, P, k, q2)))]
First(t) == LET r == Start([plan |-> <<>>, ini |-> [com |-> IF t THEN Turn(<<3, 4, 30>>) ELSE <<3, 4, 30>>, lmom |-> IF t THEN Turn(<<1, 0, 2>>) ELSE <<1, 0, 2>>, amom |-> <<0, 0, 0>>]]) IN r
Init == k = 1 /\ hist = <<>> /\ on = <<>> /\ turned = <<>>
Lst(h, t) == IF h = <<>> THEN First(t) ELSE h[Len(h)]
Step(c, F) == /\ k <= Steps
              /\ hist' = Append(hist, Apply(FALSE, Lst(hist, FALSE), c, F))
              /\ turned' = Append(turned, Apply(TRUE, Lst(turned, TRUE), c, F))
              /\ on' = Append(on, c) /\ k' = k + 1
Flight == k <= Steps /\ Step(<<FALSE, FALSE>>, <<Zero3, Zero3>>)
OneFoot == k <= Steps /\ \E f \in 1..2, u \in Forces : Step([g \in 1..2 |-> g = f], [g \in 1..2 |-> IF g = f THEN u ELSE Zero3])
TwoFeet == k <= Steps /\ \E u, v \in Forces : Step(<<TRUE, TRUE>>, <<u, v>>)
Next == Flight \/ OneFoot \/ TwoFeet
Spec == Init /\ [][Next]_vars
\* the recorded steps satisfy the equations of motion of the plan with those contacts
Pl(t) == Places([Scen(t) EXCEPT !.n = Len(hist)], RunOf(t))
Equations == \A i \in 1..Len(hist) : MotionOk(Scen(FALSE), Pl(FALSE), RunOf(FALSE), hist, i, 20)
\* the law does not depend on the heading of the world
Equivariant == \A i \in 1..Len(hist) : Small(VSub(turned[i].com, Turn(hist[i].com)), 50) /\ Small(VSub(turned[i].a, Turn(hist[i].a)), 50)
   /\ \A f \in 1..2 : on[i][f] =>
        LET In(d) == InCone(Scen(FALSE), Pl(FALSE)[i][f], hist[i].feet[f].f, d)  InT(d) == InCone(Scen(TRUE), Pl(TRUE)[i][f], turned[i].feet[f].f, d)
        IN (In(-200) => InT(0)) /\ (InT(0) => In(200))
\* in flight: a parabola, no moment
Ballistic == \A i \in 2..Len(hist) : on[i] = <<FALSE, FALSE>> => Small(VSub(VSub(hist[i].l, hist[i - 1].l), <<0, 0, -1000000>>), 2) /\ Small(VSub(hist[i].a, hist[i - 1].a), 2)
\* the moment about the origin comes from the forces at the points of application alone
Impulse == hist # <<>> => Small(VSub(VSub(hist[Len(hist)].l, First(FALSE).l), FxScale(1000000, Sum3([i \in 1..Len(hist) |-> VAdd(VSub(VAdd(hist[i].feet[1].f, hist[i].feet[2].f), Ez), IF i = 1 THEN <<1000000, 0, 0>> ELSE Zero3)], 1..Len(hist)))), 60)
\* the easy plan obeys the equations, and after a step with contact it is at rest
Easy == Len(on) = Steps => LET s == Scen(FALSE) P == Pl(FALSE) w == Rest(s, P, RunOf(FALSE)) IN
   \A i \in 1..Steps : MotionOk(s, P, RunOf(FALSE), w, i, 20) /\ ((on[i][1] \/ on[i][2]) => Small(w[i].l, 60))
=============================================================================
