--------------------------------- MODULE Lqr ---------------------------------
(* Finite-horizon optimal control problems with polynomial dynamics and cost,  *)
(* and the linear-quadratic backward pass around a trajectory, in fixed point. *)
(* A problem p: T steps, state dimension nx, control dimension nu, z = x o u;  *)
(* x' = x + A z + c + (products k z_p z_q), integrated once or by Runge-Kutta; *)
(* step cost z'Wz + w'z + sum f z^4, end cost likewise in x alone; everything  *)
(* in hundredths.  Costs are carried divided by Eight.                         *)
EXTENDS FixPoint, LinAlg
Eight == 8
SeqMx(s) == LET RECURSIVE M(_, _) M(i, m) == IF i > Len(s) THEN m ELSE M(i + 1, IF s[i] > m THEN s[i] ELSE m) IN M(2, s[1])
Cm(v) == [i \in 1..Len(v) |-> v[i] * 100000]
Ce(v) == [i \in 1..Len(v) |-> v[i] * 12500]
MCm(M) == TLCEval([i \in 1..Len(M) |-> Cm(M[i])])
MCe(M) == TLCEval([i \in 1..Len(M) |-> Ce(M[i])])
VA(u, v) == TLCEval(VAdd(u, v))
VS(u, v) == TLCEval(VSub(u, v))
MA(P, Q) == MAdd(P, Q)
MM(P, Q) == FxMM(P, Q)
Tr(M) == MTrans(M)
Half(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> TDiv(M[i][j], 2)]])
OneM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE 0]]
ZeroM(a, b) == [i \in 1..a |-> VZero(b)]
VHalf(v) == TLCEval([i \in 1..Len(v) |-> TDiv(v[i], 2)])
\* increment of the state and its derivative, step t of T
Inc(p, t, z) ==
  LET m == p.dyn[t] IN TLCEval([i \in 1..p.nx |-> FxDot(Cm(m.A[i]), z) + m.c[i] * 100000
    + SumTo([q \in 1..Len(m.n) |-> IF m.n[q].i = i THEN FxMul(m.n[q].k * 100000, FxMul(z[m.n[q].p], z[m.n[q].q])) ELSE 0], Len(m.n))])
DInc(p, t, z) ==
  LET m == p.dyn[t] IN TLCEval([i \in 1..p.nx |-> [j \in 1..(p.nx + p.nu) |-> m.A[i][j] * 100000
    + SumTo([q \in 1..Len(m.n) |-> IF m.n[q].i # i THEN 0 ELSE (IF m.n[q].p = j THEN FxMul(m.n[q].k * 100000, z[m.n[q].q]) ELSE 0) + (IF m.n[q].q = j THEN FxMul(m.n[q].k * 100000, z[m.n[q].p]) ELSE 0)], Len(m.n))]])
\* second derivative of the increment i with respect to z_a and z_b
DDInc(p, t, i, a, b) == LET m == p.dyn[t] IN SumTo([q \in 1..Len(m.n) |-> IF m.n[q].i # i THEN 0 ELSE m.n[q].k * 100000 * ((IF m.n[q].p = a /\ m.n[q].q = b THEN 1 ELSE 0) + (IF m.n[q].q = a /\ m.n[q].p = b THEN 1 ELSE 0))], Len(m.n))
Third(v) == TLCEval([i \in 1..Len(v) |-> TDiv(v[i], 3)])
Move(p, t, x, u) ==
  LET k1 == Inc(p, t, x \o u) IN
  IF ~p.rk THEN VA(x, k1)
  ELSE LET k2 == Inc(p, t, VA(x, VHalf(k1)) \o u)
           k3 == Inc(p, t, VA(x, VHalf(k2)) \o u)
           k4 == Inc(p, t, VA(x, k3) \o u)
       IN VA(x, VA(Third(VHalf(VA(k1, k4))), Third(VA(k2, k3))))
\* derivative of the next state with respect to z
DMove(p, t, x, u) ==
  LET nx == p.nx nz == p.nx + p.nu
      I == TLCEval([i \in 1..nz |-> [j \in 1..nz |-> IF i = j THEN One ELSE 0]])
      Ix == [i \in 1..nx |-> I[i]]
      Low(K) == TLCEval([i \in 1..nz |-> IF i <= nx THEN VAdd(I[i], K[i]) ELSE I[i]])
      k1 == Inc(p, t, x \o u)   K1 == DInc(p, t, x \o u)
      x2 == VA(x, VHalf(k1))  k2 == Inc(p, t, x2 \o u)  K2 == MM(DInc(p, t, x2 \o u), Low(Half(K1)))
      x3 == VA(x, VHalf(k2))  k3 == Inc(p, t, x3 \o u)  K3 == MM(DInc(p, t, x3 \o u), Low(Half(K2)))
      x4 == VA(x, k3)         K4 == MM(DInc(p, t, x4 \o u), Low(K3))
  IN IF ~p.rk THEN MA(Ix, K1)
     ELSE TLCEval([i \in 1..nx |-> [j \in 1..nz |-> Ix[i][j] + TDiv(K1[i][j] + K4[i][j], 6) + TDiv(K2[i][j] + K3[i][j], 3)]])
\* cost m (a step's in z, the end's in x), its gradient and Hessian
Sq(a) == FxMul(a, a)
Val(m, z) == FxDot(z, FxMatVec(MCe(m.W), z)) + FxDot(Ce(m.w), z) + FxDot(Ce(m.f), TLCEval([i \in 1..Len(z) |-> Sq(Sq(z[i]))]))
Grd(m, z) == TLCEval([i \in 1..Len(z) |-> FxDot(Ce(m.W[i]), z) + FxDot([j \in 1..Len(z) |-> m.W[j][i] * 12500], z) + m.w[i] * 12500 + 4 * FxMul(m.f[i] * 12500, FxMul(z[i], Sq(z[i])))])
Hss(m, z) == TLCEval([i \in 1..Len(z) |-> [j \in 1..Len(z) |-> (m.W[i][j] + m.W[j][i]) * 12500 + (IF i = j THEN 12 * FxMul(m.f[i] * 12500, Sq(z[i])) ELSE 0)]])
Total(p, x, u) == SumTo([t \in 1..p.T |-> Val(p.cost[t], x[t] \o u[t])], p.T) + Val(p.end, x[p.T + 1])
Clamp(p, u) == IF ~p.set.lim THEN u ELSE [i \in 1..p.nu |-> LET a == p.set.lo[i] * 100000 b == p.set.hi[i] * 100000 IN IF u[i] >= b THEN b ELSE IF u[i] <= a THEN a ELSE u[i]]
\* roll-out from x0; stops growing once beyond the divergence limit
RollOut(p, x0, us) ==
  LET RECURSIVE G(_, _, _)
      G(t, x, acc) == IF t > p.T THEN [x |-> acc, ok |-> TRUE]
                      ELSE LET y == Move(p, t, x, us[t]) IN
                           IF \E i \in 1..p.nx : FxAbs(y[i]) > p.set.diverge * One THEN [x |-> acc, ok |-> FALSE] ELSE G(t + 1, y, Append(acc, y))
  IN TLCEval(G(1, x0, <<x0>>))
\* solution of H X = B for a symmetric positive H of size 1 or 2, B a sequence of rows
Solve(H, B) ==
  LET n == Len(B[1]) IN
  IF Len(H) = 1 THEN TLCEval(<< [j \in 1..n |-> FxSgn(B[1][j]) * FxDiv(FxAbs(B[1][j]), H[1][1])] >>)
  ELSE LET d == FxMul(H[1][1], H[2][2]) - FxMul(H[1][2], H[2][1])
           Q(a) == FxSgn(a) * FxDiv(FxAbs(a), d)
       IN TLCEval(<< [j \in 1..n |-> Q(FxMul(H[2][2], B[1][j]) - FxMul(H[1][2], B[2][j]))], [j \in 1..n |-> Q(FxMul(H[1][1], B[2][j]) - FxMul(H[2][1], B[1][j]))] >>)
Det(H) == IF Len(H) = 1 THEN H[1][1] ELSE FxMul(H[1][1], H[2][2]) - FxMul(H[1][2], H[2][1])
MNeg(M) == TLCEval([i \in 1..Len(M) |-> VNeg(M[i])])
Col(v) == TLCEval([i \in 1..Len(v) |-> <<v[i]>>])
Flat(M) == TLCEval([i \in 1..Len(M) |-> M[i][1]])
SubM(M, a, b, c, d) == MBlock(M, a, b, c, d)
Tame(v, k) == \A i \in 1..Len(v) : FxAbs(v[i]) <= k * One
TameM(M, k) == \A i \in 1..Len(M) : Tame(M[i], k)
\* backward pass with regularisation lam/8 around (x, u): steps <<[l, L], ...>>; fine: no step was
\* ill-conditioned or too large for the arithmetic
Policy(p, x, u, lam) ==
  LET nx == p.nx nz == p.nx + p.nu
      RECURSIVE B(_, _, _, _)
      B(t, s, S, acc) ==
        IF t = 0 THEN [fine |-> TRUE, s |-> acc]
        ELSE LET z == x[t] \o u[t]  J == DMove(p, t, x[t], u[t])
                 h == Hss(p.cost[t], z)  gr == Grd(p.cost[t], z)
                 A == SubM(J, 1, nx, 1, nx)  Bu == SubM(J, 1, nx, nx + 1, nz)
                 At == Tr(A)  Bt == Tr(Bu)
                 SA == MM(S, A)  SB == MM(S, Bu)
                 g == VA(Sub(gr, nx + 1, nz), FxMatVec(Bt, s))
                 G == MA(SubM(h, nx + 1, nz, 1, nx), MM(Bt, SA))
                 H == TLCEval([i \in 1..p.nu |-> [j \in 1..p.nu |-> h[nx + i][nx + j] + FxDot(Bt[i], Tr(SB)[j]) + (IF i = j THEN lam ELSE 0)]])
                 good == H[1][1] > 20000 /\ Det(H) > 20000 /\ TameM(H, 10) /\ TameM(G, 10) /\ Tame(g, 10)
             IN IF ~good THEN [fine |-> FALSE, s |-> <<>>]
                ELSE LET L == MNeg(Solve(H, G))  l == VNeg(Flat(Solve(H, Col(g))))
                         Lt == Tr(L)
                         HL == MM(H, L)  LG == MM(Lt, G)
                         S0 == MA(MA(SubM(h, 1, nx, 1, nx), MM(At, SA)), MA(MM(Lt, HL), MA(LG, Tr(LG))))
                         Sn == Half(MA(S0, Tr(S0)))
                         sn == VA(VA(Sub(gr, 1, nx), FxMatVec(At, s)), VA(FxMatVec(Tr(HL), l), VA(FxMatVec(Tr(G), l), FxMatVec(Lt, g))))
                     IN IF ~(TameM(L, 4) /\ Tame(l, 4) /\ TameM(Sn, 5) /\ Tame(sn, 10)) THEN [fine |-> FALSE, s |-> <<>>]
                        ELSE B(t - 1, sn, Sn, << [l |-> l, L |-> L, H |-> H, g |-> g] >> \o acc)
  IN TLCEval(B(p.T, Grd(p.end, x[p.T + 1]), Hss(p.end, x[p.T + 1]), <<>>))
\* derivative of the whole cost with respect to each control
Slope(p, x, u) ==
  LET nx == p.nx nz == p.nx + p.nu
      RECURSIVE B(_, _, _)
      B(t, s, acc) == IF t = 0 THEN acc
        ELSE LET J == DMove(p, t, x[t], u[t]) gr == VA(Grd(p.cost[t], x[t] \o u[t]), FxMatVec(Tr(J), s)) IN B(t - 1, Sub(gr, 1, nx), << Sub(gr, nx + 1, nz) >> \o acc)
  IN TLCEval(B(p.T, Grd(p.end, x[p.T + 1]), <<>>))
\* size of a change l of the controls u
Rel(l, u) == SumTo([t \in 1..Len(u) |-> SeqMx([i \in 1..Len(u[t]) |-> FxDiv(FxAbs(l[t][i]), FxAbs(u[t][i]) + One)])], Len(u)) \div Len(u)
\* the step within limits: smallest 1/2 d'Hd + g'd with a <= d <= b
Within(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Quot(n, d) == FxSgn(n) * FxDiv(FxAbs(n), d)
Quad(H, g, d) == TDiv(FxDot(d, FxMatVec(H, d)), 2) + FxDot(g, d)
Boxed(H, g, l, a, b) ==
  IF Len(g) = 1 THEN << Within(l[1], a[1], b[1]) >>
  ELSE IF \A i \in 1..2 : l[i] >= a[i] /\ l[i] <= b[i] THEN l
  ELSE LET e1(v) == << v, Within(Quot(-g[2] - FxMul(H[2][1], v), H[2][2]), a[2], b[2]) >>
           e2(v) == << Within(Quot(-g[1] - FxMul(H[1][2], v), H[1][1]), a[1], b[1]), v >>
           c == TLCEval(<< e1(a[1]), e1(b[1]), e2(a[2]), e2(b[2]) >>)
           q == TLCEval([k \in 1..4 |-> Quad(H, g, c[k])])
       IN c[CHOOSE k \in 1..4 : \A j \in 1..4 : q[k] <= q[j]]
\* steps of a whole policy around controls u
StepOf(p, s, u, t) == IF ~p.set.lim THEN s[t].l ELSE Boxed(s[t].H, s[t].g, s[t].l, VS(Cm(p.set.lo), u[t]), VS(Cm(p.set.hi), u[t]))
=============================================================================
