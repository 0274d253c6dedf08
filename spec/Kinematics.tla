----------------------------- MODULE Kinematics -----------------------------
(* A floating-base tree of rotating joints: poses, velocity maps of points and *)
(* of the centroidal momentum, and their drift (acceleration without joint     *)
(* acceleration).  Fixed point; metres, kilogrammes (total below 2), seconds.  *)
(* Velocity coordinates: base linear and angular velocity in base axes, then   *)
(* one rate per joint.                                                         *)
(*  robot: [base |-> [m, c, i], joints |-> <<[up, ax, off, m, c, i]>>,          *)
(*          feet |-> <<[j, off]>>];  up/j = 0 is the base;  lengths in cm,      *)
(*          masses in 1/100 kg, inertia (diagonal, at the centre) in 1e-4.      *)
(*  pose: [p |-> base position (fx), R |-> base rotation (fx),                  *)
(*         cs |-> <<<<cos, sin>>>> of every joint]                              *)
EXTENDS Rotation, TLC
VA(u, v) == TLCEval(VAdd(u, v))
VS(u, v) == TLCEval(VSub(u, v))
Cm(v) == [i \in 1..3 |-> v[i] * 100000]
ColOf(R, k) == << R[1][k], R[2][k], R[3][k] >>
AxisRot(k, cs) == LET c == cs[1] s == cs[2] IN
  CASE k = 1 -> << <<One, 0, 0>>, <<0, c, -s>>, <<0, s, c>> >>
    [] k = 2 -> << <<c, 0, s>>, <<0, One, 0>>, <<-s, 0, c>> >>
    [] k = 3 -> << <<c, -s, 0>>, <<s, c, 0>>, <<0, 0, One>> >>
NJ(rob) == Len(rob.joints)
NV(rob) == 6 + NJ(rob)
\* frames of the joints, in order; every joint comes after the one it hangs on
FramesOf(rob, x) ==
  LET RECURSIVE F(_)
      F(k) == IF k = 0 THEN <<>> ELSE
        LET s == F(k - 1)  j == rob.joints[k]
            up == IF j.up = 0 THEN [R |-> x.R, p |-> x.p] ELSE s[j.up]
        IN Append(s, TLCEval([R |-> FxMatMul(up.R, AxisRot(j.ax, x.cs[k])), p |-> VA(up.p, FxMatVec(up.R, Cm(j.off))), a |-> ColOf(up.R, j.ax)]))
  IN TLCEval(F(NJ(rob)))
AncOf(rob, k) == LET RECURSIVE A(_) A(j) == IF j = 0 THEN {} ELSE {j} \cup A(rob.joints[j].up) IN A(k)
Frame(x, F, l) == IF l = 0 THEN [R |-> x.R, p |-> x.p] ELSE F[l]
PointOf(x, F, l, off) == LET f == Frame(x, F, l) IN VA(f.p, FxMatVec(f.R, Cm(off)))
Link(rob, l) == IF l = 0 THEN rob.base ELSE rob.joints[l]
\* velocity of the point r of link l per unit of coordinate k, and angular velocity of the link
LinCol(rob, x, F, l, r, k) ==
  IF k <= 3 THEN ColOf(x.R, k)
  ELSE IF k <= 6 THEN FxCross(ColOf(x.R, k - 3), VSub(r, x.p))
  ELSE IF (k - 6) \in AncOf(rob, l) THEN FxCross(F[k - 6].a, VSub(r, F[k - 6].p)) ELSE <<0, 0, 0>>
AngCol(rob, x, F, l, k) ==
  IF k <= 3 THEN <<0, 0, 0>> ELSE IF k <= 6 THEN ColOf(x.R, k - 3)
  ELSE IF (k - 6) \in AncOf(rob, l) THEN F[k - 6].a ELSE <<0, 0, 0>>
TotalM(rob) == rob.base.m + SumTo([j \in 1..NJ(rob) |-> rob.joints[j].m], NJ(rob))
ByMass(m, v) == FxScale(m * 100000, v)
SumV(n, f(_)) == LET RECURSIVE S(_) S(l) == IF l < 0 THEN <<0, 0, 0>> ELSE VA(S(l - 1), f(l)) IN S(n)
Centres(rob, x, F) == TLCEval([l \in 0..NJ(rob) |-> TLCEval(PointOf(x, F, l, Link(rob, l).c))])
CoM(rob, C) == LET w(l) == ByMass(Link(rob, l).m, C[l]) s == SumV(NJ(rob), w) IN [i \in 1..3 |-> FxDiv(s[i], TotalM(rob) * 100000)]
\* world inertia of link l applied to u
Spin(rob, x, F, l, u) ==
  LET R == Frame(x, F, l).R  b == TLCEval(FxMatVec(TransFx(R), u))  i == Link(rob, l).i
  IN FxMatVec(R, [k \in 1..3 |-> FxMul(b[k], i[k] * 1000)])
\* inertia of a link in world axes, and its spin for an angular velocity u
WorldI(rob, x, F, l) ==
  LET R == Frame(x, F, l).R  i == Link(rob, l).i IN FxMatMul(R, [r \in 1..3 |-> [c \in 1..3 |-> FxMul(R[c][r], i[r] * 1000)]])
\* momentum (linear, angular about the centre of mass) per unit of coordinate k: sum over the links it moves
MomCol(rob, x, F, C, I, com, k) ==
  LET S == IF k <= 6 THEN 0..NJ(rob) ELSE { l \in 1..NJ(rob) : (k - 6) \in AncOf(rob, l) }
      one(l) == LET v == ByMass(Link(rob, l).m, LinCol(rob, x, F, l, C[l], k))
                    u == AngCol(rob, x, F, l, k)
                IN v \o (IF k <= 3 THEN FxCross(VS(C[l], com), v) ELSE VA(FxCross(VS(C[l], com), v), FxMatVec(I[l], u)))
      RECURSIVE Go(_)
      Go(T) == IF T = {} THEN VZero(6) ELSE LET l == CHOOSE l \in T : TRUE IN VA(one(l), Go(T \ {l}))
  IN Go(S)
\* everything about a pose
Kin(rob, x) ==
  LET F == FramesOf(rob, x)  C == Centres(rob, x, F)  com == TLCEval(CoM(rob, C)) nf == Len(rob.feet)
      I == TLCEval([l \in 0..NJ(rob) |-> WorldI(rob, x, F, l)])
      feet == TLCEval([f \in 1..nf |-> PointOf(x, F, rob.feet[f].j, rob.feet[f].off)])
  IN TLCEval([F |-> F, C |-> C, com |-> com, feet |-> feet,
      Ag |-> TLCEval([k \in 1..NV(rob) |-> TLCEval(MomCol(rob, x, F, C, I, com, k))]),                                \* columns
      Jf |-> TLCEval([f \in 1..nf |-> TLCEval([k \in 1..NV(rob) |-> LinCol(rob, x, F, rob.feet[f].j, feet[f], k)])])])
\* sum of columns times coordinates
RECURSIVE Along(_, _, _)
Along(cols, dq, k) == IF k = 0 THEN [i \in 1..Len(cols[1]) |-> 0] ELSE VA(Along(cols, dq, k - 1), FxScale(dq[k], cols[k]))
Map(cols, dq) == Along(cols, dq, Len(dq))
\* ---- drift: accelerations at zero rate of change of the coordinates
Drift(rob, x, K, dq) ==
  LET F == K.F
      w0 == TLCEval(FxMatVec(x.R, Sub(dq, 4, 6)))  v0 == FxMatVec(x.R, Sub(dq, 1, 3))
      base == [w |-> w0, al |-> <<0, 0, 0>>, a |-> TLCEval(FxCross(w0, v0)), p |-> x.p]
      acc(b, r) == LET d == VS(r, b.p) IN VA(b.a, VA(FxCross(b.al, d), FxCross(b.w, FxCross(b.w, d))))
      RECURSIVE G(_)
      G(k) == IF k = 0 THEN <<>> ELSE
        LET s == G(k - 1)  up == IF rob.joints[k].up = 0 THEN base ELSE s[rob.joints[k].up]
            u == FxScale(dq[6 + k], F[k].a)
        IN Append(s, TLCEval([w |-> VA(up.w, u), al |-> VA(up.al, FxCross(up.w, u)), a |-> acc(up, F[k].p), p |-> F[k].p]))
      B == TLCEval(G(NJ(rob)))
      b(l) == IF l = 0 THEN base ELSE B[l]
      lin(l) == ByMass(Link(rob, l).m, acc(b(l), K.C[l]))
      ang(l) == LET a == acc(b(l), K.C[l])
                IN VA(FxCross(ByMass(Link(rob, l).m, VS(K.C[l], K.com)), a),
                        VA(Spin(rob, x, F, l, b(l).al), FxCross(b(l).w, Spin(rob, x, F, l, b(l).w))))
  IN [mom |-> SumV(NJ(rob), lin) \o SumV(NJ(rob), ang),
      feet |-> [f \in 1..Len(rob.feet) |-> acc(b(rob.feet[f].j), K.feet[f])]]
\* a joint turned by twice the angle of tangent p/q
CosSin(p, q) == << FxDiv(q * q - p * p, q * q + p * p), FxDiv(2 * p * q, q * q + p * p) >>
=============================================================================
