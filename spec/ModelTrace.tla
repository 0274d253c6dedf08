----------------------------- MODULE ModelTrace -----------------------------
(* Observations of the modelling layer judged by the meaning of the program.  *)
EXTENDS TraceIO, Modelling
VARIABLE l
Opt(e) == e \in {"Optimal", "OptimalInacc"}
PInf(e) == e \in {"PrimalInf", "PrimalInfInacc"}
N(r) == Len(r.x)
Norm1(v) == VSum(VAbs(v))
\* affine constraint at the observed point (1e-4), in exact integers
LinOk(c, x, n, tol) ==
  LET f == ASub(Sem(c.lhs, n), Sem(c.rhs, n))
      v == 10000 * f.k + VDot(f.a, x)
      t == tol * (1 + Norm1(f.a)) IN
  CASE c.s = "<" -> v <= t [] c.s = ">" -> v >= -t [] OTHER -> Abs(v) <= t
Below(v, t) == IsNum(v) /\ v <= t

JudgeOpt(r) ==
  LET o == r.o
      t == IF r.exit = "OptimalInacc" THEN 100000 ELSE 60
      opt == Opt(r.exit) IN
  [verdict |-> (opt => o.kind = "opt") /\ (PInf(r.exit) => o.kind = "pinf") /\ (o.strong => r.exit # "DualInf"),
   conclusive |-> o.strong => (IF o.kind = "opt" THEN opt ELSE PInf(r.exit)),
   feasible |-> opt => \A i \in 1..Len(r.viol) : Below(r.viol[i], t),
   objective |-> opt => Below(Abs(r.objerr), t),
   linear |-> (opt /\ AllNum(r.x) /\ VMaxAbs(r.x) < 1000000) => \A i \in 1..Len(r.lin) : LinOk(r.lin[i], r.x, N(r), IF r.exit = "Optimal" THEN 3 ELSE 200),
   point |-> (r.exit = "Optimal" /\ o.uniq) => \A i \in 1..N(r) : Near(r.x[i], 10000 * r.xs[i], 50)]
JudgeEval(r) ==
  LET f == Sem(r.t, N(r)) IN
  IF ~AllNum(r.x) \/ VMaxAbs(r.x) > 600000 THEN [num |-> TRUE]
  ELSE [value |-> Near(r.v, 10000 * f.k + VDot(f.a, r.x), Norm1(f.a) + 1), square |-> Near(r.sqerr, 0, 20)]
JudgeVar(r) == [lb |-> r.lb = r.o.lb, ub |-> r.ub = r.o.ub, guess |-> r.guess = r.o.guess, x |-> r.x = r.guess]
Judge(r) == CASE r.event = "optimize" -> JudgeOpt(r) [] r.event = "eval" -> JudgeEval(r) [] r.event = "var" -> JudgeVar(r)
              [] OTHER -> [ran |-> FALSE]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
