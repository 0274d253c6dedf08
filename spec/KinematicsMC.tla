---------------------------- MODULE KinematicsMC ----------------------------
(* The velocity maps of the specification are the derivatives of its poses     *)
(* (central differences along every coordinate), momenta are those of the      *)
(* moving masses, and the drift is the derivative of the maps.                 *)
EXTENDS Kinematics
CONSTANTS NQ, NT
Qs == << <<2, 1, -1, 1>>, <<3, -1, 2, 4>>, <<1, 0, 0, 0>> >>
Ts == << << <<1, 3>>, <<-1, 2>>, <<2, 5>> >>, << <<0, 1>>, <<3, 4>>, <<-2, 3>> >> >>
VARIABLES q, t, ax, k
vars == <<q, t, ax, k>>
Rob == [base |-> [m |-> 60, c |-> <<2, -1, 1>>, i |-> <<30, 50, 40>>],
        joints |-> << [up |-> 0, ax |-> ax[1], off |-> <<20, 10, 0>>, m |-> 20, c |-> <<0, 3, -10>>, i |-> <<9, 8, 3>>],
                      [up |-> 1, ax |-> ax[2], off |-> <<2, 3, -15>>, m |-> 10, c |-> <<1, 0, -8>>, i |-> <<4, 5, 2>>],
                      [up |-> 0, ax |-> ax[3], off |-> <<-20, 10, 5>>, m |-> 15, c |-> <<0, -2, -9>>, i |-> <<5, 6, 1>>] >>,
        feet |-> << [j |-> 2, off |-> <<0, 1, -16>>], [j |-> 3, off |-> <<3, 0, -20>>] >>]
Turn(k0, s) == IF k0 = 0 THEN << 1, 0, 0, 0 >> ELSE [i \in 1..4 |-> IF i = 1 THEN 500 ELSE IF i = k0 + 1 THEN s ELSE 0]
\* pose moved by s/250 rad (m) along coordinate k0 (angles exactly 2 atan(s/500))
Pose(k0, s) ==
  LET R0 == RotFx(q) IN
  [p |-> IF k0 \in 1..3 THEN VA(<<1000000, -2000000, 4000000>>, [i \in 1..3 |-> TDiv(s * R0[i][k0], 250)]) ELSE <<1000000, -2000000, 4000000>>,
   R |-> IF k0 \in 4..6 THEN FxMatMul(R0, RotFx(Turn(k0 - 3, s))) ELSE R0,
   cs |-> [j \in 1..3 |-> LET c0 == CosSin(t[j][1], t[j][2])  d == CosSin(s, 500)
            IN IF k0 = 6 + j THEN << FxMul(c0[1], d[1]) - FxMul(c0[2], d[2]), FxMul(c0[2], d[1]) + FxMul(c0[1], d[2]) >> ELSE c0]]
Init == q \in { Qs[i] : i \in 1..NQ } /\ t \in { Ts[i] : i \in 1..NT } /\ ax \in {<<1, 2, 3>>, <<2, 2, 1>>, <<3, 1, 2>>} /\ k = 0
Pick == k < 9 /\ k' = k + 1 /\ UNCHANGED <<q, t, ax>>
Next == Pick
Spec == Init /\ [][Next]_vars
Close(a, b, tol) == \A i \in 1..Len(a) : FxAbs(a[i] - b[i]) <= tol
\* difference quotient: d/dcoordinate = (f(+1) - f(-1)) * 125
DQ(f(_)) == [i \in 1..3 |-> 125 * (f(Pose(k, 1))[i] - f(Pose(k, -1))[i])]
K0 == Kin(Rob, Pose(0, 0))
Cols == k > 0 =>
  LET K == K0 Kp == Kin(Rob, Pose(k, 1)) Km == Kin(Rob, Pose(k, -1))
      D(a, b) == TLCEval([i \in 1..3 |-> 125 * (a[i] - b[i])])
      M == K.Ag[k]
      \* angular momentum of the moving centres alone (links without inertia): needs the whole map
      lin == TLCEval([i \in 1..3 |-> FxMul(D(Kp.com, Km.com)[i], TotalM(Rob) * 100000)])
  IN /\ \A f \in 1..2 : Close(K.Jf[f][k], D(Kp.feet[f], Km.feet[f]), 600)
     /\ Close(Sub(M, 1, 3), lin, 600)
     /\ (k <= 3 => Close(Sub(M, 4, 6), <<0, 0, 0>>, 20))
     \* moving only coordinate k, the angular momentum is that of point masses plus spins
     /\ LET pm(l) == FxCross(ByMass(Link(Rob, l).m, VSub(K.C[l], K.com)), D(Kp.C[l], Km.C[l]))
            sp(l) == LET A == Frame(Pose(k, 1), Kp.F, l).R  B == Frame(Pose(k, -1), Km.F, l).R
                         S == FxMatMul([i \in 1..3 |-> [j \in 1..3 |-> 125 * (A[i][j] - B[i][j])]], TransFx(Frame(Pose(0, 0), K.F, l).R))
                     IN Spin(Rob, Pose(0, 0), K.F, l, << S[3][2], S[1][3], S[2][1] >>)
        IN Close(Sub(M, 4, 6), VAdd(SumV(3, pm), SumV(3, sp)), 1500)
     \* drift along coordinate k alone: derivative of the columns (unit rate; the base turning moves its own axes)
     /\ LET dq == [c \in 1..9 |-> IF c = k THEN One ELSE 0]  Z == Drift(Rob, Pose(0, 0), K, dq) IN
        /\ \A f \in 1..2 : Close(Z.feet[f], D(Kp.Jf[f][k], Km.Jf[f][k]), 1500)
        /\ Close(Sub(Z.mom, 1, 3), D(Kp.Ag[k], Km.Ag[k]), 1500)
        /\ Close(Sub(Z.mom, 4, 6), D(Sub(Kp.Ag[k], 4, 6), Sub(Km.Ag[k], 4, 6)), 1500)
=============================================================================
