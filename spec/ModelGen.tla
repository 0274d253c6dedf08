------------------------------ MODULE ModelGen ------------------------------
(* Histories of modelling calls. Each program is built around a point xs that *)
(* is optimal by the KKT conditions (multipliers are drawn, the linear part of*)
(* the objective closes them), or is made infeasible by a combination of its  *)
(* own constraints. How each affine form is written down is drawn too.        *)
EXTENDS Modelling, Rand, TraceIO, FiniteSets
CONSTANTS Walks, Grid
VARIABLES w, stages
WE == INSTANCE WriteExpr
gv == <<w, stages>>

K == Len(stages) + 1
\* the program structure is fixed per walk; later stages draw anew
R(d, a, b) == RI(w, 0, d, a, b)
RK(d, a, b) == RI(w, K, d, a, b)
N == R(1, 1, 3)
XS == [i \in 1..N |-> R(10 + i, -2, 2)]
Aff(d, m) == [k |-> R(d, -m, m), a |-> [i \in 1..N |-> IF R(d + 10 + i, 0, 3) = 0 THEN 0 ELSE R(d + i, -2, 2)]]
\* same gradient, prescribed value at XS
At(f, v) == [f EXCEPT !.k = v - VDot(f.a, XS)]

\* ---- constraints ------------------------------------------------------------
\* mu: multiplier, grad: mu * gradient of g at XS, lin: an affine underestimate of g (g <= 0)
MkLin(d) ==
  LET f0 == Aff(d + 20, 3) s == RS(w, 0, d + 1, <<"<", ">", "=", "<">>) act == R(d + 2, 0, 2) # 0
      mu == IF s = "=" THEN R(d + 3, -2, 2) ELSE IF act THEN R(d + 3, 0, 2) ELSE 0
      v == IF s = "=" \/ act THEN 0 ELSE -R(d + 4, 1, 3)
      g == At(f0, v)
  IN [t |-> "lin", s |-> s, ts |-> <<>>, f |-> IF s = ">" THEN AScale(-1, g) ELSE g,
      mu |-> mu, grad |-> VScale(mu, g.a), lin |-> g, act |-> act /\ s # "=", dir |-> g.a, eq |-> s = "="]
MkQuad(d) ==
  LET nt == R(d + 1, 1, 3)
      ts == [i \in 1..nt |-> [c |-> R(d + 10 * i, 1, 2), q |-> At(Aff(d + 100 * i, 2), R(d + 10 * i + 1, -2, 2))]]
      f0 == Aff(d + 900, 2)
      qv == QVal(ts, XS) act == R(d + 2, 0, 2) # 0 mu == IF act THEN R(d + 3, 0, 2) ELSE 0
      f == At(f0, (IF act THEN 0 ELSE -R(d + 4, 1, 4)) - qv)
      dg == [j \in 1..N |-> f.a[j] + VSum([i \in 1..nt |-> 2 * ts[i].c * AVal(ts[i].q, XS) * ts[i].q.a[j]])]
  IN [t |-> "quad", s |-> "<", ts |-> ts, f |-> f, mu |-> mu, grad |-> VScale(mu, dg), lin |-> f, act |-> act, dir |-> dg, eq |-> FALSE]
Tails == << <<1, 3>>, <<1, -2>>, <<2, 3, 4>>, <<2, -4, 3>>, <<2, 0, -2>>, <<3, 1, 2, 2>>, <<3, -2, 1, 2>>, <<3, 2, -3, 6>> >>
MkSoc(d) ==
  LET tl == RS(w, 0, d + 1, Tails) nt == tl[1] u == [i \in 1..nt |-> tl[i + 1]]
      nrm == CHOOSE m \in 1..7 : m * m = VDot(u, u)
      ts == [i \in 1..nt |-> [c |-> 1, q |-> At(Aff(d + 100 * i, 2), u[i])]]
      f0 == Aff(d + 900, 2)
      act == R(d + 2, 0, 2) # 0 mu == IF act THEN R(d + 3, 0, 1) ELSE 0
      f == At(f0, (IF act THEN 0 ELSE -R(d + 4, 1, 4)) - nrm)
      \* nrm times the gradient
      dg == [j \in 1..N |-> nrm * f.a[j] + VSum([i \in 1..nt |-> u[i] * ts[i].q.a[j]])]
  IN [t |-> "soc", s |-> "<", ts |-> ts, f |-> f, mu |-> mu, grad |-> VScale(mu, dg), lin |-> f, act |-> act, dir |-> dg, eq |-> FALSE]
MkCon(d) == LET k == R(d, 1, 9) IN IF k <= 4 THEN MkLin(d) ELSE IF k <= 7 THEN MkQuad(d) ELSE MkSoc(d)
NBox == IF R(2, 1, 4) = 1 THEN 0 ELSE N
Box(i) == LET f == [k |-> 0, a |-> VUnit(N, i)] IN
  << [t |-> "lin", s |-> "<", ts |-> <<>>, f |-> [f EXCEPT !.k = -9], mu |-> 0, grad |-> VZero(N), lin |-> [f EXCEPT !.k = -9],
      act |-> FALSE, dir |-> f.a, eq |-> FALSE],
     [t |-> "lin", s |-> ">", ts |-> <<>>, f |-> [f EXCEPT !.k = 9], mu |-> 0, grad |-> VZero(N), lin |-> [k |-> -9, a |-> VNeg(f.a)],
      act |-> FALSE, dir |-> VNeg(f.a), eq |-> FALSE] >>
RECURSIVE Boxes(_)
Boxes(i) == IF i = 0 THEN <<>> ELSE Boxes(i - 1) \o Box(i)
Cons == [j \in 1..R(3, 0, 4) |-> MkCon(1000 + 3000 * j)] \o Boxes(NBox)

\* ---- objectives (drawn per stage; multipliers fixed by the constraints drawn per stage too) -----
Strict == RK(5, 0, 2) # 0
ObjTerms == (IF Strict THEN [i \in 1..N |-> [c |-> RK(20 + i, 1, 2), q |-> [k |-> -RK(30 + i, -3, 3), a |-> VUnit(N, i)]]] ELSE <<>>)
            \o [i \in 1..RK(6, 0, 2) |-> [c |-> RK(40 + i, 1, 2), q |-> At(Aff(20000 + 100 * i, 2), RK(50 + i, -2, 2))]]
\* scale of each multiplier at this stage (0, 1 or 2; equality multipliers may be negative)
MuK(j) == RK(60 + j, 0, 2)
ObjOf(cs) ==
  LET ts == ObjTerms
      gq == [j \in 1..N |-> VSum([i \in 1..Len(ts) |-> 2 * ts[i].c * AVal(ts[i].q, XS) * ts[i].q.a[j]])]
      gc == [j \in 1..N |-> VSum([i \in 1..Len(cs) |-> MuK(i) * cs[i].grad[j]])]
  IN [ts |-> ts, f |-> [k |-> RK(7, -3, 3), a |-> VNeg(VAdd(gq, gc))]]

\* a linear constraint that contradicts the others: -(sum z_j lin_j) + deficit <= 0
Breaker(cs) ==
  LET z == [j \in 1..Len(cs) |-> IF cs[j].eq THEN RK(80 + j, -1, 1) ELSE RK(80 + j, 0, 1)]
      L(j) == IF cs[j].s = ">" /\ cs[j].t = "lin" THEN AScale(-1, cs[j].f) ELSE cs[j].lin
      tot == [k |-> VSum([j \in 1..Len(cs) |-> z[j] * L(j).k]), a |-> [i \in 1..N |-> VSum([j \in 1..Len(cs) |-> z[j] * L(j).a[i]])]]
      f == [k |-> -tot.k + RK(99, 1, 4), a |-> VNeg(tot.a)]
  IN [t |-> "lin", s |-> "<", ts |-> <<>>, f |-> f, mu |-> 0, grad |-> VZero(N), lin |-> f, act |-> FALSE, dir |-> f.a, eq |-> FALSE]

\* interior point exists near XS: no equality among dependent rows is checked by "strong" in the trace spec
Slater(cs) == \E d \in [1..N -> -2..2] : \A i \in 1..Len(cs) :
                 /\ cs[i].eq => VDot(cs[i].dir, d) = 0
                 /\ cs[i].act => VDot(cs[i].dir, d) < 0
EqOk(cs) == LET E == {i \in 1..Len(cs) : cs[i].eq} IN
            /\ \A i \in E : cs[i].dir # VZero(N)
            /\ \A i, j \in E : i # j => \E p, q \in 1..N : cs[i].dir[p] * cs[j].dir[q] # cs[i].dir[q] * cs[j].dir[p]
            /\ Cardinality(E) <= 2
NonTrivial(cs) == \A i \in 1..Len(cs) : cs[i].lin.a # VZero(N) \/ cs[i].t # "lin"

\* ---- writing affine forms down -----------------------------------------------
Write(f, d) == WE!Write(w, N, f, d)
WriteTs(ts, d) == [i \in 1..Len(ts) |-> << ts[i].c, Write(ts[i].q, d + 600 * i) >>]
\* f = lhs - rhs with rhs drawn
WriteCon(c, d) ==
  LET rhs == IF R(d, 0, 1) = 0 THEN AConst(R(d + 1, -2, 2), N) ELSE Aff(d + 2, 2)
      tl == Write(AAdd(c.f, rhs), d + 100) tr == Write(rhs, d + 300)
  IN [op |-> c.t, s |-> c.s, ts |-> WriteTs(c.ts, d + 400), lhs |-> tl, rhs |-> tr]
WriteObj(o, d) ==
  LET rhs == Aff(d + 2, 2) IN
  [op |-> "obj", s |-> "min", ts |-> WriteTs(o.ts, d + 400), lhs |-> Write(ASub(o.f, rhs), d + 100), rhs |-> Write(rhs, d + 300)]

\* ---- stages -------------------------------------------------------------------
\* 1 build + objective + optimise; later: new objective on the same model | a breaking constraint
Kind == RK(4, 1, 4)
Stage ==
  LET cs == Cons
      brk == (K = 1 /\ Kind = 1) \/ (K > 1 /\ Kind <= 1)
      all == IF brk THEN Append(cs, Breaker(cs)) ELSE cs
      o == ObjOf(cs)
  IN [cons |-> IF K = 1 THEN all ELSE (IF brk THEN <<Breaker(cs)>> ELSE <<>>), all |-> all, obj |-> o,
      kind |-> IF brk THEN "pinf" ELSE "opt", val |-> ObjVal(o, XS), uniq |-> Strict,
      strong |-> NBox = N /\ EqOk(cs) /\ NonTrivial(all) /\ Slater(cs)]
Ended == stages # <<>> /\ stages[Len(stages)].kind = "pinf"
NStages == R(8, 1, 3)
Init == w \in 1..Walks /\ stages = <<>>
Next == ~Ended /\ Len(stages) < NStages /\ stages' = Append(stages, Stage) /\ UNCHANGED w
Spec == Init /\ [][Next]_gv

\* ---- the oracle is sound: checked on the integer grid ---------------------------
Sound == stages # <<>> => LET S == stages[Len(stages)] IN
  /\ S.kind = "opt" => SatAll(S.all, XS)
  /\ N <= 2 => \A x \in [1..N -> -Grid..Grid] :
       SatAll(S.all, x) => S.kind = "opt" /\ ObjVal(S.obj, x) >= S.val /\ (S.uniq /\ x # XS => ObjVal(S.obj, x) > S.val)
\* every written tree means what it should
WriteStage(k) == LET S == stages[k] IN
  [i \in 1..Len(S.cons) |-> WriteCon(S.cons[i], 1000 * k + 2500 * i)]
  \o << WriteObj(S.obj, 30000 + 1000 * k), [op |-> "optimize", kind |-> S.kind, val |-> S.val, strong |-> S.strong, uniq |-> S.uniq, stage |-> k] >>
RECURSIVE Ops(_)
Ops(k) == IF k = 0 THEN <<>> ELSE Ops(k - 1) \o WriteStage(k)
Vars == [i \in 1..N |-> [op |-> "var", type |-> "c", lb |-> -50, ub |-> 50, guess |-> R(300 + i, -4, 4)]]
Evals == [i \in 1..3 |-> [op |-> "eval", lhs |-> WE!Tree(w, N, 35000 + 500 * i, 3)]]
WrittenRight == (stages # <<>> /\ (Ended \/ Len(stages) = NStages)) =>
  \A k \in 1..Len(stages) : LET S == stages[k] W == WriteStage(k) IN
    /\ \A i \in 1..Len(S.cons) : /\ ASub(Sem(W[i].lhs, N), Sem(W[i].rhs, N)) = S.cons[i].f
                                 /\ \A j \in 1..Len(S.cons[i].ts) : Sem(W[i].ts[j][2], N) = S.cons[i].ts[j].q
    /\ LET O == W[Len(S.cons) + 1] IN AAdd(Sem(O.lhs, N), Sem(O.rhs, N)) = S.obj.f
EmitInv == (stages # <<>> /\ (Ended \/ Len(stages) = NStages)) =>
  Emit([w |-> w, n |-> N, xs |-> XS, reuse |-> R(9, 0, 3), ops |-> Vars \o Evals \o Ops(Len(stages))])
=============================================================================
