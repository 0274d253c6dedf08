------------------------------- MODULE BinGen -------------------------------
(* Programs with binary variables whose optimum is computed exactly by        *)
(* enumerating every 0/1 assignment: continuous variables are eliminated by   *)
(* construction (x >= max of affine forms of the binaries at non-negative     *)
(* cost, or a squared distance to such a form).                               *)
EXTENDS Modelling, Rand, TraceIO, FiniteSets
CONSTANTS Walks, MaxBin
VARIABLES w, D, S           \* walk, drawn data, solution (computed in separate steps)
WE == INSTANCE WriteExpr
gv == <<w, D, S>>
P == D[1]
R(d, a, b) == RI(w, 0, d, a, b)
\* ---- step 1: everything that is drawn ------------------------------------------
DrawNB == R(1, 1, MaxBin)
DrawNC == R(2, 0, 2)
DrawIsBin(nb, n) == LET key(i) == R(100 + i, 0, 997) * 10 + i
                        rank(i) == Cardinality({ j \in 1..n : key(j) < key(i) }) + 1
                    IN [i \in 1..n |-> rank(i) <= nb]
RECURSIVE Where(_, _, _)
Where(f, v, i) == IF i = 0 THEN <<>> ELSE IF f[i] = v THEN Append(Where(f, v, i - 1), i) ELSE Where(f, v, i - 1)
NB == P.nb
NC == P.nc
N == P.n
IsBin == P.isbin
BinIdx == P.bi
ConIdx == P.ci
Shape == LET nb == DrawNB nc == DrawNC n == nb + nc ib == DrawIsBin(nb, n) IN
  [nb |-> nb, nc |-> nc, n |-> n, isbin |-> ib, bi |-> Where(ib, TRUE, n), ci |-> Where(ib, FALSE, n)]
Assign == [1..NB -> 0..1]
Point(b) == [i \in 1..N |-> IF IsBin[i] THEN b[CHOOSE j \in 1..NB : BinIdx[j] = i] ELSE 0]
\* affine form over the binaries
AffB(d, m, c) == [k |-> R(d, -m, m), a |-> [i \in 1..N |-> IF IsBin[i] /\ R(d + 10 + i, 0, 3) # 0 THEN R(d + i, -c, c) ELSE 0]]

MkBin(d) ==
  LET k == R(d, 1, 8) IN
  CASE k <= 4 -> [t |-> "lin", s |-> RS(w, 0, d + 1, <<"<", ">">>), ts |-> <<>>, f |-> AffB(d + 20, 3, 5)]
    [] k = 5 -> [t |-> "lin", s |-> "=", ts |-> <<>>, f |-> AffB(d + 20, 2, 2)]
    [] k = 6 -> [t |-> "quad", s |-> "<", ts |-> [i \in 1..R(d + 2, 1, 2) |-> [c |-> R(d + 3 + i, 1, 2), q |-> AffB(d + 100 * i, 1, 2)]],
                 f |-> AddK(AffB(d + 400, 2, 3), -R(d + 9, 0, 6))]
    [] OTHER -> [t |-> "soc", s |-> "<", ts |-> [i \in 1..R(d + 2, 1, 2) |-> [c |-> 1, q |-> AffB(d + 100 * i, 1, 2)]],
                 f |-> AddK(AffB(d + 400, 2, 3), -R(d + 9, 0, 4))]
BinCons == [j \in 1..R(3, 0, 4) |-> MkBin(1000 + 1000 * j)]

\* continuous variable c (1..NC): mode 1 lower bounds at cost, 2 squared distance, 3 lower and upper bound
DrawLows(c) == [r \in 1..R(50 + c, 1, 2) |-> AffB(8000 + 500 * c + 100 * r, 3, 3)]
Mode(c) == P.mode[c]
Lows(c) == P.lows[c]
Upp(c) == P.upp[c]
Cost(c) == P.cost[c]
Tgt(c) == P.tgt[c]
Unit(c) == AVar(ConIdx[c], N)
MaxLow(c, x) == SeqMax([r \in 1..Len(Lows(c)) |-> AVal(Lows(c)[r], x)])
ConVal(c, x) == IF Mode(c) = 2 THEN AVal(Tgt(c), x) ELSE MaxLow(c, x)
ConsOf(c) ==
  IF Mode(c) = 2 THEN <<>>
  ELSE [r \in 1..Len(Lows(c)) |-> [t |-> "lin", s |-> ">", ts |-> <<>>, f |-> ASub(Unit(c), Lows(c)[r])]]
       \o (IF Mode(c) = 3 THEN << [t |-> "lin", s |-> "<", ts |-> <<>>, f |-> ASub(Unit(c), AConst(Upp(c), N))] >> ELSE <<>>)
RECURSIVE ConCons(_)
ConCons(c) == IF c = 0 THEN <<>> ELSE ConCons(c - 1) \o ConsOf(c)
DrawCons == IF R(4, 0, 1) = 0 THEN BinCons \o ConCons(NC) ELSE ConCons(NC) \o BinCons

\* unbounded: a continuous variable with a negative cost and no upper bound (mode 1 only)
DrawUnb == NC > 0 /\ Mode(1) = 1 /\ R(5, 1, 8) = 1
RECURSIVE ObjF(_)
ObjF(c) == IF c = 0 THEN AffB(9000, 2, 6)
           ELSE IF Mode(c) = 2 THEN ObjF(c - 1)
           ELSE AAdd(ObjF(c - 1), AScale(IF P.unb /\ c = 1 THEN -Cost(c) ELSE Cost(c), Unit(c)))
RECURSIVE ObjQ(_)
ObjQ(c) == IF c = 0 THEN [i \in 1..R(6, 0, 1) |-> [c |-> R(7, 1, 2), q |-> AffB(9100, 1, 2)]]
           ELSE IF Mode(c) = 2 THEN Append(ObjQ(c - 1), [c |-> Cost(c), q |-> ASub(Unit(c), Tgt(c))]) ELSE ObjQ(c - 1)
Cons == P.cons
Obj == P.obj
\* ---- step 2: the optimum by enumeration -----------------------------------------
Full(b) == LET x == Point(b) IN [i \in 1..N |-> IF IsBin[i] THEN x[i] ELSE ConVal(CHOOSE c \in 1..NC : ConIdx[c] = i, x)]
Solved ==
  LET feas == { b \in Assign : SatAll(Cons, Full(b)) }
      vals == { ObjVal(Obj, Full(b)) : b \in feas }
      kind == IF feas = {} THEN "pinf" ELSE IF P.unb THEN "dinf" ELSE "opt"
  IN [feas |-> feas, kind |-> kind, val |-> IF kind = "opt" THEN CHOOSE m \in vals : \A s \in vals : m <= s ELSE 0]
done == S # <<>>
Feas == S[1].feas
Kind == S[1].kind
Val == S[1].val
\* elimination is exact: moving a continuous variable off its value never helps (checked on a window)
Elim == done => (N <= 4 => \A b \in Assign, c \in 1..NC, dx \in {-2, -1, 1, 2} :
   LET x == Full(b) y == [x EXCEPT ![ConIdx[c]] = @ + dx] IN
   (~P.unb /\ SatAll(Cons, y)) => (b \in Feas /\ ObjVal(Obj, y) >= ObjVal(Obj, x)))

NonTrivial == \A i \in 1..Len(Cons) : Cons[i].f.a # VZero(N) \/ Cons[i].t # "lin"
WriteTs(ts, d) == [i \in 1..Len(ts) |-> << ts[i].c, WE!Write(w, N, ts[i].q, d + 600 * i) >>]
WriteCon(c, d) == LET rhs == AConst(R(d + 1, -2, 2), N) IN
  [op |-> c.t, s |-> c.s, ts |-> WriteTs(c.ts, d + 400), lhs |-> WE!Write(w, N, AAdd(c.f, rhs), d + 100), rhs |-> WE!Write(w, N, rhs, d + 300)]
Ops == [i \in 1..N |-> [op |-> "var", type |-> IF IsBin[i] THEN "b" ELSE "c", lb |-> IF IsBin[i] THEN 0 ELSE -50, ub |-> IF IsBin[i] THEN 1 ELSE 50, guess |-> 0]]
       \o [i \in 1..Len(Cons) |-> WriteCon(Cons[i], 10000 + 1000 * i)]
       \o << [op |-> "obj", s |-> "min", ts |-> WriteTs(Obj.ts, 30000), lhs |-> WE!Write(w, N, Obj.f, 31000), rhs |-> <<"c", 0>>] >>
       \o << [op |-> "optimize", kind |-> Kind, val |-> Val, strong |-> NonTrivial, uniq |-> FALSE, unb |-> P.unb] >>
Init == w \in 1..Walks /\ D = <<>> /\ S = <<>>
Draw1 == D = <<>> /\ D' = <<Shape>> /\ UNCHANGED <<w, S>>
Draw2 == /\ D # <<>> /\ "mode" \notin DOMAIN P
         /\ D' = << P @@ [mode |-> [c \in 1..NC |-> R(40 + c, 1, 3)], lows |-> [c \in 1..NC |-> DrawLows(c)], upp |-> [c \in 1..NC |-> R(60 + c, -1, 6)],
                          cost |-> [c \in 1..NC |-> R(70 + c, 1, 3)], tgt |-> [c \in 1..NC |-> AffB(9500 + 100 * c, 3, 3)]] >>
         /\ UNCHANGED <<w, S>>
Draw3 == /\ D # <<>> /\ "mode" \in DOMAIN P /\ "cons" \notin DOMAIN P
         /\ D' = << P @@ [cons |-> DrawCons, unb |-> DrawUnb] >> /\ UNCHANGED <<w, S>>
Draw4 == /\ D # <<>> /\ "cons" \in DOMAIN P /\ "obj" \notin DOMAIN P
         /\ D' = << P @@ [obj |-> [ts |-> ObjQ(NC), f |-> ObjF(NC)]] >> /\ UNCHANGED <<w, S>>
Solve == /\ D # <<>> /\ "obj" \in DOMAIN P /\ S = <<>> /\ S' = <<Solved>> /\ UNCHANGED <<w, D>>
Next == Draw1 \/ Draw2 \/ Draw3 \/ Draw4 \/ Solve
Spec == Init /\ [][Next]_gv
EmitInv == done => Emit([w |-> w, n |-> N, isbin |-> IsBin, ops |-> Ops, reuse |-> R(9, 0, 5), equil |-> RS(w, 0, 8, <<3, 3, 0, 1>>),
                         feas |-> { [b |-> Full(b), v |-> ObjVal(Obj, Full(b))] : b \in Feas }, bnbiters |-> RS(w, 0, 80, <<100, 100, 100, 100, 2, 3, 4>>)])
=============================================================================
