------------------------------ MODULE Feedback ------------------------------
(* The momentum feedback law: centroidal dynamics (centre of mass, linear and  *)
(* angular momentum) driven by the forces of the feet in contact, linearised   *)
(* along the trajectory that planned forces produce from an initial state.     *)
EXTENDS Lqr
Cross(u) == LET a == u[1] b == u[2] c == u[3] IN << <<0, -c, b>>, <<c, 0, -a>>, <<-b, a, 0>> >>       \* matrix of u x
Zero3 == <<0, 0, 0>>
Eye(k) == << <<k, 0, 0>>, <<0, k, 0>>, <<0, 0, k>> >>
Act(st, n) == { f \in 1..n : st.feet[f].act }
RECURSIVE Sum3(_, _)
Sum3(S, g) == IF S = {} THEN Zero3 ELSE LET f == CHOOSE f \in S : TRUE IN VA(g[f], Sum3(S \ {f}, g))
\* forces are planned as multiples of the weight mg
Force(s, st, f) == FxScale(FxMul(s.mass * 100000, s.grav * 100000), Cm(st.feet[f].f))
Forces(s, st) == TLCEval([f \in 1..s.neff |-> IF st.feet[f].act THEN Force(s, st, f) ELSE Zero3])
\* one step: x = com o lin o ang
Step(s, st, x) ==
  LET h == st.dt * 10000  F == Forces(s, st)  on == Act(st, s.neff)
      l == VA(Sub(x, 4, 6), FxScale(h, VA(<<0, 0, -FxMul(s.mass * 100000, s.grav * 100000)>>, Sum3(on, F))))
      c == VA(Sub(x, 1, 3), FxScale(FxDiv(h, s.mass * 100000), l))
      a == VA(Sub(x, 7, 9), FxScale(h, Sum3(on, TLCEval([f \in 1..s.neff |-> FxCross(VS(Cm(st.feet[f].p), c), F[f])]))))
  IN TLCEval(c \o l \o a)
\* derivative of the step with respect to state and forces: 9 rows, 9 + 3 neff columns
Jac(s, st, x) ==
  LET h == st.dt * 10000  hm == FxDiv(h, s.mass * 100000)  hh == FxMul(h, hm)  F == Forces(s, st)  on == Act(st, s.neff)
      c == Sub(Step(s, st, x), 1, 3)
      X == Cross(FxScale(h, Sum3(on, F)))                                       \* da' = X dc'
      Xl == TLCEval([i \in 1..3 |-> FxScale(hm, X[i])])  Xf == TLCEval([i \in 1..3 |-> FxScale(hh, X[i])])
      P == TLCEval([f \in 1..s.neff |-> MA(Cross(FxScale(h, VS(Cm(st.feet[f].p), c))), Xf)])
      E(f, k) == Eye(IF f \in on THEN k ELSE 0)
      Row(i, g(_)) == LET RECURSIVE R(_) R(f) == IF f = 0 THEN <<>> ELSE R(f - 1) \o g(f)[i] IN R(s.neff)
  IN TLCEval([i \in 1..9 |->
       IF i <= 3 THEN Eye(One)[i] \o Eye(hm)[i] \o Zero3 \o Row(i, LAMBDA f : E(f, hh))
       ELSE IF i <= 6 THEN Zero3 \o Eye(One)[i - 3] \o Zero3 \o Row(i - 3, LAMBDA f : E(f, h))
       ELSE X[i - 6] \o Xl[i - 6] \o Eye(One)[i - 6] \o Row(i - 6, LAMBDA f : IF f \in on THEN P[f] ELSE Eye(0))])
Track(s, k) == Cm(s.w[k]) \o Cm(s.w[k + 1]) \o Cm(s.w[k + 2])                    \* k = 2: along the plan, 5: at its end
Diag(v) == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]])
Ctrl(s, st) == LET RECURSIVE R(_) R(f) == IF f = 0 THEN <<>> ELSE R(f - 1) \o (IF st.feet[f].act THEN Cm(s.w[1]) ELSE Zero3) IN R(s.neff)
States(s, run) == LET RECURSIVE G(_) G(t) == IF t = 1 THEN << TLCEval(Cm(run.ini.com) \o Cm(run.ini.l) \o Cm(run.ini.a)) >> ELSE LET p == G(t - 1) IN Append(p, Step(s, run.plan[t - 1], p[t - 1])) IN TLCEval(G(s.T + 1))
\* cost of the roll-out, an eighth of it
RefAt(run, t) == LET r == run.plan[IF t = 1 THEN 1 ELSE t - 1] IN Cm(r.com) \o Cm(r.l) \o Cm(r.a)
Pay(s, w, e) == FxDot(TLCEval([i \in 1..Len(w) |-> TDiv(w[i], 8)]), TLCEval([i \in 1..Len(e) |-> FxMul(e[i], e[i])]))
RollCost(s, run, x) ==
  LET U(st) == LET F == Forces(s, st) RECURSIVE R(_) R(f) == IF f = 0 THEN <<>> ELSE R(f - 1) \o F[f] IN R(s.neff) IN
  SumTo([t \in 1..(s.T + 1) |-> Pay(s, Track(s, IF t > s.T THEN 5 ELSE 2), VS(x[t], RefAt(run, t))) + (IF t > s.T THEN 0 ELSE Pay(s, Ctrl(s, run.plan[t]), U(run.plan[t])))], s.T + 1)
\* the gains K solve the Riccati recursion with regularisation lam: H K = -G at every step
Twice(M) == TLCEval([i \in 1..Len(M) |-> VScale(2, M[i])])
MaxM(M) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE LET a == VMaxAbs(M[i]) m == F(i - 1) IN IF a > m THEN a ELSE m IN F(Len(M))
Solves(s, run, x, K, lam, tol) ==
  LET RECURSIVE B(_, _)
      B(t, V) == IF t = 0 THEN TRUE
        ELSE LET st == run.plan[t]  J == Jac(s, st, x[t])  nu == 3 * s.neff
                 A == SubM(J, 1, 9, 1, 9)  Bu == SubM(J, 1, 9, 10, 9 + nu)  Bt == Tr(Bu)  Kt == Tr(K[t])
                 VAm == MM(V, A)  VB == MM(V, Bu)
                 H == MA(MA(Twice(Diag(Ctrl(s, st))), MM(Bt, VB)), Diag([i \in 1..nu |-> lam]))
                 G == MM(Bt, VAm)
                 R == MA(MM(H, K[t]), G)
                 KG == MM(Kt, G)
                 N0 == MA(MA(Twice(Diag(Track(s, 2))), MM(Tr(A), VAm)), MA(MM(Kt, MM(H, K[t])), MA(KG, Tr(KG))))
             IN MaxM(R) <= tol + MaxM(K[t]) \div 2000 /\ TameM(N0, 150) /\ B(t - 1, Half(MA(N0, Tr(N0))))
  IN B(s.T, Twice(Diag(Track(s, 5))))
=============================================================================
