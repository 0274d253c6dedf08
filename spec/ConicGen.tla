------------------------------ MODULE ConicGen ------------------------------
(* Conic programs with a verdict that is known because the certificate is     *)
(* constructed with the program. The theory behind the oracle (weak duality)  *)
(* is itself checked by TLC on an integer grid of candidate points.           *)
EXTENDS Conic, Rand, TraceIO

CONSTANTS Walks, Grid, MaxLen
VARIABLES w, prog
gv == <<w, prog>>

\* ---- building blocks from pseudo-random draws -----------------------------
R(d, a, b) == RI(w, Len(prog) + 1, d, a, b)
RSeq(d, seq) == RS(w, Len(prog) + 1, d, seq)
Sparse(d, a, b, pct) == IF R(d + 500000, 1, 100) <= pct THEN R(d, a, b) ELSE 0
Vec(d, n, a, b) == [i \in 1..n |-> R(d + i, a, b)]
Mtx(d, m, n, pct) == [i \in 1..m |-> [j \in 1..n |-> Sparse(d + 20 * i + j, -2, 2, pct)]]

\* tails with integer norm
ConeTail(q, d) ==
  LET sgn(i, x) == IF R(d + 10 + i, 0, 1) = 0 THEN x ELSE -x IN
  CASE q = 1 -> [u |-> <<>>, nrm |-> 0]
    [] q = 2 -> LET k == R(d, 1, 3) IN [u |-> <<sgn(1, k)>>, nrm |-> k]
    [] q = 3 -> LET t == RSeq(d, << <<3,4>>, <<4,3>>, <<0,2>>, <<1,0>>, <<5,12>> >>) IN
                  [u |-> <<sgn(1, t[1]), sgn(2, t[2])>>,
                   nrm |-> CASE t[1] = 5 -> 13 [] t[1] = 0 -> 2 [] t[1] = 1 -> 1 [] OTHER -> 5]
    [] q = 4 -> LET t == RSeq(d, << <<1,2,2>>, <<2,1,2>>, <<2,2,1>>, <<0,3,4>>, <<2,3,6>> >>) IN
                  [u |-> <<sgn(1, t[1]), sgn(2, t[2]), sgn(3, t[3])>>,
                   nrm |-> CASE t[3] = 6 -> 7 [] t[1] = 0 -> 5 [] OTHER -> 3]
SocInt(q, d) == LET u == Vec(d, q - 1, -2, 2) IN <<VSum(VAbs(u)) + R(d + 9, 1, 2)>> \o u
\* complementary pair of one second-order cone: <<s, z>>
SocPair(q, d) ==
  LET m == R(d + 100, 1, 5) t == ConeTail(q, d) k == R(d + 101, 1, 2) IN
  CASE m = 1 -> <<VZero(q), SocInt(q, d + 200)>>
    [] m = 2 -> <<SocInt(q, d + 200), VZero(q)>>
    [] m = 3 /\ q = 1 -> <<VZero(q), VZero(q)>>
    [] OTHER -> IF q = 1 THEN <<VZero(q), <<k>> >>
                ELSE << <<t.nrm>> \o t.u, VScale(k, <<t.nrm>> \o VNeg(t.u)) >>
LpPair(d) == LET m == R(d, 1, 5) k == R(d + 1, 1, 3) IN
             CASE m <= 2 -> <<k, 0>> [] m <= 4 -> <<0, k>> [] OTHER -> <<0, 0>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* ---- shapes ----------------------------------------------------------------
Shape == LET n == R(1, 1, 4) IN
  [n |-> n, p |-> Min2(n - 1, R(2, 0, 2)), l |-> R(3, 0, 4),
   q |-> LET ns == R(4, 0, 2) IN [i \in 1..ns |-> R(4 + i, 2, 4)],
   bound |-> RSeq(8, <<"box", "ball", "simplex", "none">>), pct |-> RSeq(9, <<50, 75, 100>>)]

\* rows that bound x: <<extra lp rows, extra lp slacks at xs, extra soc rows, extra soc slack>>
BoundRows(sh, xs) ==
  LET n == sh.n IN
  CASE sh.bound = "box" -> [G |-> Ident(n) \o [i \in 1..n |-> VNeg(VUnit(n, i))],
                            s |-> [i \in 1..n |-> 6 - xs[i]] \o [i \in 1..n |-> 6 + xs[i]], SG |-> <<>>, ss |-> <<>>]
    [] sh.bound = "simplex" -> [G |-> [i \in 1..n |-> VNeg(VUnit(n, i))] \o << [j \in 1..n |-> 1] >>,
                            s |-> [i \in 1..n |-> 4 + xs[i]] \o << 15 - VSum(xs) >>, SG |-> <<>>, ss |-> <<>>]
    [] sh.bound = "ball" -> [G |-> <<>>, s |-> <<>>, SG |-> <<VZero(n)>> \o [i \in 1..n |-> VNeg(VUnit(n, i))],
                             ss |-> <<9>> \o xs]
    [] OTHER -> [G |-> <<>>, s |-> <<>>, SG |-> <<>>, ss |-> <<>>]

Assemble(sh, A, Glp, Gso, xs, slp, sso, y, zlp, zso) ==
  LET B == BoundRows(sh, xs)
      G == Glp \o B.G \o Gso \o B.SG
      s == slp \o B.s \o sso \o B.ss
      z == zlp \o VZero(Len(B.s)) \o zso \o VZero(Len(B.ss))
  IN [n |-> sh.n, p |-> sh.p, l |-> Len(Glp) + Len(B.G), q |-> IF B.SG = <<>> THEN sh.q ELSE Append(sh.q, sh.n + 1),
      A |-> A, G |-> G, s |-> s, z |-> z, y |-> y, x |-> xs,
      b |-> MatVec(A, xs), h |-> VAdd(MatVec(G, xs), s)]

Data(sh) == [A |-> Mtx(1000, sh.p, sh.n, 100), Glp |-> Mtx(2000, sh.l, sh.n, sh.pct), Gso |-> Mtx(3000, VSum(sh.q), sh.n, sh.pct)]

MkOpt(sh) ==
  LET D == Data(sh)
      xs == Vec(4000, sh.n, -3, 3)
      lp == [i \in 1..sh.l |-> LpPair(5000 + 10 * i)]
      so == [k \in 1..Len(sh.q) |-> SocPair(sh.q[k], 6000 + 1000 * k)]
      y == Vec(9000, sh.p, -2, 2)
      Q == Assemble(sh, D.A, D.Glp, D.Gso, xs, [i \in 1..sh.l |-> lp[i][1]], Cat([k \in 1..Len(so) |-> so[k][1]]),
                    y, [i \in 1..sh.l |-> lp[i][2]], Cat([k \in 1..Len(so) |-> so[k][2]]))
      c == VNeg(VAdd(TMatVec(Q.A, Q.y, sh.n), TMatVec(Q.G, Q.z, sh.n)))
  IN [n |-> Q.n, l |-> Q.l, q |-> Q.q, A |-> Q.A, G |-> Q.G, b |-> Q.b, h |-> Q.h, c |-> c,
      kind |-> "opt", val |-> VDot(c, xs), x |-> xs, s |-> Q.s, y |-> Q.y, z |-> Q.z]

\* infeasible: the last LP row closes a Farkas combination
MkInf(sh0) ==
  LET sh == [sh0 EXCEPT !.l = sh0.l + 1]
      D == Data(sh)
      xs == Vec(4000, sh.n, -3, 3)
      y == Vec(9000, sh.p, -1, 1)
      zlp == [i \in 1..sh.l |-> IF i = sh.l THEN 1 ELSE R(5000 + i, 0, 1)]
      zso == Cat([k \in 1..Len(sh.q) |-> LET t == ConeTail(sh.q[k], 6000 + 1000 * k) IN
                   IF R(6500 + 1000 * k, 0, 2) = 0 THEN VZero(sh.q[k]) ELSE
                   IF R(6500 + 1000 * k, 0, 2) = 1 THEN SocInt(sh.q[k], 6700 + 1000 * k) ELSE <<t.nrm>> \o t.u])
      rest == [i \in 1..sh.l |-> IF i = sh.l THEN VZero(sh.n) ELSE D.Glp[i]]
      closing == VNeg(VAdd(TMatVec(D.A, y, sh.n), VAdd(TMatVec(rest, zlp, sh.n), TMatVec(D.Gso, zso, sh.n))))
      Glp == [i \in 1..sh.l |-> IF i = sh.l THEN closing ELSE D.Glp[i]]
      slp == [i \in 1..sh.l |-> R(5500 + i, 0, 3)]
      sso == Cat([k \in 1..Len(sh.q) |-> SocInt(sh.q[k], 6900 + 1000 * k)])
      Q == Assemble(sh, D.A, Glp, D.Gso, xs, slp, sso, y, zlp, zso)
      \* b'y + h'z = sum over the certificate of s'z >= 0 so far: push the closing row below it
      deficit == VDot(Q.b, y) + VDot(Q.h, Q.z) + R(99, 1, 4)
      h == [i \in 1..Len(Q.h) |-> IF i = sh.l THEN Q.h[i] - deficit ELSE Q.h[i]]
      c == Vec(9500, sh.n, -3, 3)
  IN [n |-> Q.n, l |-> Q.l, q |-> Q.q, A |-> Q.A, G |-> Q.G, b |-> Q.b, h |-> h, c |-> c,
      kind |-> "pinf", val |-> 0, x |-> xs, s |-> Q.s, y |-> y, z |-> Q.z]

\* unbounded: the data are corrected so that d is a ray of the feasible set
MkUnb(sh0) ==
  LET sh == [sh0 EXCEPT !.bound = "none"]
      D == Data(sh)
      k == R(10, 1, sh.n)
      d == [i \in 1..sh.n |-> IF i = k THEN 1 ELSE R(10 + i, -1, 1)]
      Fix(row, target) == [j \in 1..sh.n |-> IF j = k THEN row[j] + target - VDot(row, d) ELSE row[j]]
      A == [i \in 1..sh.p |-> Fix(D.A[i], 0)]
      Glp == [i \in 1..sh.l |-> Fix(D.Glp[i], -R(5000 + i, 0, 2))]
      ray == Cat([m \in 1..Len(sh.q) |-> IF R(6100 + 1000 * m, 0, 3) > 0 THEN SocInt(sh.q[m], 6000 + 1000 * m)
                                        ELSE LET t == ConeTail(sh.q[m], 6300 + 1000 * m) IN <<t.nrm>> \o t.u])
      Gso == [i \in 1..Len(D.Gso) |-> Fix(D.Gso[i], -ray[i])]
      xs == Vec(4000, sh.n, -3, 3)
      slp == [i \in 1..sh.l |-> R(5500 + i, 1, 3)]
      sso == Cat([m \in 1..Len(sh.q) |-> SocInt(sh.q[m], 6900 + 1000 * m)])
      Q == Assemble(sh, A, Glp, Gso, xs, slp, sso, VZero(sh.p), VZero(sh.l), VZero(Len(sso)))
      c == Fix(Vec(9500, sh.n, -3, 3), -R(9600, 1, 4))
  IN [n |-> Q.n, l |-> Q.l, q |-> Q.q, A |-> Q.A, G |-> Q.G, b |-> Q.b, h |-> Q.h, c |-> c,
      kind |-> "dinf", val |-> 0, x |-> xs, s |-> Q.s, y |-> VZero(sh.p), z |-> d]

Make == LET k == R(20, 1, 10) sh == Shape IN
        IF k <= 6 THEN MkOpt(sh) ELSE IF k <= 8 THEN MkInf(sh) ELSE MkUnb(sh)

\* well-posed: a conclusive verdict is required; otherwise only soundness is.
NonTrivialRows(P) == \A i \in 1..Len(P.A) : P.A[i] # VZero(P.n)
IndepEq(P) == IF Len(P.A) <= 1 THEN TRUE
              ELSE \E i, j \in 1..P.n : P.A[1][i] * P.A[2][j] # P.A[1][j] * P.A[2][i]
IntRay(P) == LET g == VNeg(MatVec(P.G, P.z)) IN \A k \in 1..Len(P.q) : IntSoc(Block(g, P.l, P.q, k))
Strong(P) == /\ NonTrivialRows(P) /\ IndepEq(P) /\ Len(P.G) > 0
             /\ CASE P.kind = "opt" -> Shape.bound # "none" /\ Slater(P, P.s)
                  [] P.kind = "pinf" -> Shape.bound # "none"
                  [] P.kind = "dinf" -> IntRay(P)

\* conditioning: row scalings by powers of two, the same within a cone
Scaling(P) ==
  IF R(700, 1, 10) <= 6 THEN [on |-> FALSE, A |-> <<>>, G |-> <<>>, c |-> 0]
  ELSE [on |-> TRUE, c |-> R(701, -2, 2), A |-> [i \in 1..Len(P.A) |-> R(710 + i, -3, 3)],
        G |-> [i \in 1..P.l |-> R(720 + i, -3, 3)] \o
              Cat([k \in 1..Len(P.q) |-> [i \in 1..P.q[k] |-> R(760 + k, -3, 3)]])]

\* one solver object solves a history of programs; the settings are fixed per object
HistLen == 1 + RN(w, 0, 1, MaxLen)
Equil == RS(w, 0, 2, <<3, 3, 3, 0, 1, 10>>)
\* few iterations only: no conclusive verdict needed, but none may be false
Iters == RS(w, 0, 3, <<100, 100, 100, 100, 100, 1, 3, 5, 7, 9>>)

Init == w \in 1..Walks /\ prog = <<>>
Next == /\ Len(prog) < HistLen
        /\ LET P == Make IN prog' = Append(prog, P @@ [strong |-> Strong(P) /\ Iters = 100, rs |-> Scaling(P)])
        /\ UNCHANGED w
Spec == Init /\ [][Next]_gv

Last == prog[Len(prog)]
Certified == prog # <<>> => LET P == Last IN
  CASE P.kind = "opt" -> OptCert(P, P.x, P.s, P.y, P.z)
    [] P.kind = "pinf" -> InfCert(P, P.y, P.z)
    [] P.kind = "dinf" -> UnbCert(P, P.x, P.z)
\* the oracle's theory, on a grid: nothing feasible beats the certified value, infeasible means infeasible
Oracle == (prog # <<>> /\ Last.n <= 2) => LET P == Last IN \A x \in [1..P.n -> -Grid..Grid] :
  CASE P.kind = "opt" -> Feasible(P, x) => VDot(P.c, x) >= P.val
    [] P.kind = "pinf" -> ~Feasible(P, x)
    [] OTHER -> Feasible(P, x) => Feasible(P, VAdd(x, P.z)) /\ VDot(P.c, VAdd(x, P.z)) < VDot(P.c, x)
EmitInv == (prog # <<>> /\ Len(prog) = HistLen) =>
  Emit([equil |-> Equil, iters |-> Iters, w |-> w,
        progs |-> [k \in 1..Len(prog) |-> LET P == prog[k] IN
                   [n |-> P.n, l |-> P.l, q |-> P.q, A |-> P.A, G |-> P.G, b |-> P.b, h |-> P.h, c |-> P.c,
                    kind |-> P.kind, val |-> P.val, strong |-> P.strong, rs |-> P.rs]]])
=============================================================================
