------------------------------ MODULE Dynamics ------------------------------
(* The centroidal plan: a sequence of steps <<state, contact forces>>.  All    *)
(* quantities containing a force are divided by mass * gravity; fixed-point    *)
(* reals.  A scenario gives the discretisation, the robot, the limits of the   *)
(* feet and, per run, an initial state and a contact plan:                     *)
(*   foot f is on its contact c during the steps c.s <= k < c.e.               *)
EXTENDS Rotation, FiniteSets
Feet(s) == 1..s.neff
Cmv(v) == [i \in 1..Len(v) |-> (One \div 100) * v[i]]
Milv(v) == [i \in 1..Len(v) |-> (One \div 1000) * v[i]]
Zero3 == <<0, 0, 0>>
Ez == <<0, 0, One>>
\* index of the contact of foot f at step k, 0: none.  The last one wins.
On(run, f, k) == LET S == { c \in 1..Len(run.plan[f]) : run.plan[f][c].s <= k /\ k < run.plan[f][c].e } IN IF S = {} THEN 0 ELSE CHOOSE c \in S : \A d \in S : d <= c
\* what is needed of every (foot, step): position, rotation, is the force limited to a friction cone
Place(run, f, k) == LET c == On(run, f, k) IN IF c = 0 THEN [on |-> FALSE] ELSE LET x == run.plan[f][c] IN [on |-> TRUE, p |-> Cmv(x.pos), R |-> TLCEval(RotFx(x.ori)), cone |-> x.typ # 2]
Places(s, run) == TLCEval([k \in 1..s.n |-> [f \in 1..4 |-> TLCEval(Place(run, f, k))]])
Start(run) == [com |-> Cmv(run.ini.com), l |-> Cmv(run.ini.lmom), a |-> Cmv(run.ini.amom)]
Grav(s) == (One \div 100) * s.grav
Ext(s, k) == IF k = 1 THEN Cmv(s.ext) ELSE Zero3
RECURSIVE Sum3(_, _)
Sum3(F, S) == IF S = {} THEN Zero3 ELSE LET f == CHOOSE f \in S : TRUE IN VAdd(F[f], Sum3(F, S \ {f}))
\* lever arm of the point of application of foot's force, from a centre of mass
Arm(pl, cop, com) == VSub(VAdd(pl.p, FxMatVec(pl.R, cop)), com)
\* impulse per step divided by its duration
ForceSum(s, P, k, q) == VAdd(VSub(Sum3([f \in 1..4 |-> q.feet[f].f], { f \in Feet(s) : P[k][f].on }), Ez), Ext(s, k))
MomentSum(s, P, k, q) == Sum3([f \in 1..4 |-> IF P[k][f].on THEN VAdd(FxCross(Arm(P[k][f], q.feet[f].cop, q.com), q.feet[f].f), FxMatVec(P[k][f].R, q.feet[f].trq)) ELSE Zero3], Feet(s))
\* the three equations of motion, as what is left of them
ComRest(s, k, p, q) == VSub(VSub(q.com, p.com), FxScale(FxMul(q.dt, Grav(s)), q.l))
LinRest(s, P, k, p, q) == VSub(VSub(q.l, p.l), FxScale(q.dt, ForceSum(s, P, k, q)))
AngRest(s, P, k, p, q) == VSub(VSub(q.a, p.a), FxScale(q.dt, MomentSum(s, P, k, q)))
Prev(run, st, k) == IF k = 1 THEN Start(run) ELSE st[k - 1]
Small(v, tol) == \A i \in 1..3 : v[i] <= tol /\ v[i] >= -tol
Local(pl, v) == FxMatVec(TransFx(pl.R), v)
\* moment about the contact point in the contact frame
AtContact(pl, x) == VAdd(x.trq, FxCross(x.cop, Local(pl, x.f)))
\* ---- limits of one foot in contact
Sqrt2 == 14142136
Mu(s) == (One \div 100) * s.mu
SqT(x) == LET y == TDiv(x, 16) IN FxMul(y, y)
InCone(s, pl, F, tol) ==
  LET v == TLCEval(Local(pl, F))  b == FxMul(Mu(s), v[3]) IN
  pl.cone => /\ v[3] >= -tol
             /\ IF s.cone = "LinearCone" THEN FxAbs(v[1]) + FxAbs(v[2]) <= FxMul(Sqrt2, b) + tol ELSE b + tol >= 0 /\ SqT(v[1]) + SqT(v[2]) <= SqT(b + tol)
Within(x, lo, hi, tol) == x >= lo - tol /\ x <= hi + tol
CopOk(s, f, x, tol) == LET r == Milv(s.feet[f].cop) IN Within(x.cop[1], r[1], r[2], tol) /\ Within(x.cop[2], r[3], r[4], tol) /\ x.cop[3] = 0
TrqOk(s, x, tol) == Within(x.trq[3], (One \div 1000) * s.trq[1], (One \div 1000) * s.trq[2], tol) /\ x.trq[1] = 0 /\ x.trq[2] = 0
ReachOk(s, f, pl, x, com, tol) == LET d == TLCEval(VSub(Arm(pl, x.cop, com), Cmv(s.feet[f].off))) len == (One \div 100) * s.feet[f].len IN FxDot(d, d) <= FxMul(len, len) + tol
\* the height is counted from where foot 1 stands first
Floor(s, P, run) == IF P[1][1].on THEN P[1][1].p[3] ELSE Cmv(run.ini.feet[1].pos)[3]
HeightOk(s, P, run, q, tol) == q.com[3] - Floor(s, P, run) >= (One \div 100) * s.minh - tol
\* ---- a plan that is easy to find: every step cancels the momentum, feet sharing the force equally
Rest(s, P, run) ==
  LET dt == (One \div 1000) * s.dt
      RECURSIVE W(_, _, _)
      W(k, p, acc) ==
        IF k > s.n THEN acc
        ELSE LET A == { f \in Feet(s) : P[k][f].on }
                 m == CASE A = {} -> 1 [] OTHER -> Cardinality(A)
                 T == TLCEval([i \in 1..3 |-> TDiv(FxDiv(-p.l[i], s.dt * (One \div 1000)) + Ez[i] - Ext(s, k)[i], m)])
                 x == [f \in 1..4 |-> [f |-> IF f \in A THEN T ELSE Zero3, cop |-> IF f \in A THEN [i \in 1..3 |-> IF i = 3 THEN 0 ELSE LET r == Milv(s.feet[f].cop) IN TDiv(r[2 * i - 1] + r[2 * i], 2)] ELSE Zero3, trq |-> IF f \in A THEN <<0, 0, (One \div 2000) * (s.trq[1] + s.trq[2])>> ELSE Zero3]]
                 q0 == TLCEval([dt |-> dt, com |-> p.com, l |-> p.l, a |-> p.a, feet |-> x])
                 l1 == TLCEval(VAdd(p.l, FxScale(dt, ForceSum(s, P, k, q0))))
                 q1 == TLCEval([q0 EXCEPT !.l = l1, !.com = VAdd(p.com, FxScale(FxMul(dt, Grav(s)), l1))])
                 q2 == TLCEval([q1 EXCEPT !.a = VAdd(p.a, FxScale(dt, MomentSum(s, P, k, q1)))])
             IN W(k + 1, q2, Append(acc, q2))
  IN W(1, Start(run), <<>>)
MotionOk(s, P, run, st, k, tol) == LET p == Prev(run, st, k) q == st[k] IN Small(ComRest(s, k, p, q), tol) /\ Small(LinRest(s, P, k, p, q), tol) /\ Small(AngRest(s, P, k, p, q), tol)
FootOk(s, P, st, k, f, tol) == LET x == st[k].feet[f] pl == P[k][f] IN InCone(s, pl, x.f, tol) /\ CopOk(s, f, x, tol) /\ TrqOk(s, x, tol) /\ ReachOk(s, f, pl, x, st[k].com, tol)
\* the whole of the limits; tol < 0: with room to spare (not for ranges that are single points)
Legal(s, P, run, st, tol) == \A k \in 1..s.n : HeightOk(s, P, run, st[k], tol) /\ \A f \in Feet(s) : P[k][f].on =>
   LET x == st[k].feet[f] IN InCone(s, P[k][f], x.f, tol) /\ CopOk(s, f, x, 0) /\ TrqOk(s, x, 0) /\ ReachOk(s, f, P[k][f], x, st[k].com, tol)
=============================================================================
