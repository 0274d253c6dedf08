------------------------------ MODULE BinTrace ------------------------------
(* Verdicts and points returned for programs with binary variables, judged by *)
(* the exact enumeration of all assignments carried by the scenario:          *)
(*   feas  = the feasible assignments with the optimal value of each           *)
(*   o.kind, o.val = verdict and value of the program                          *)
EXTENDS TraceIO, FiniteSets
VARIABLE l
Opt(e) == e \in {"Optimal", "OptimalInacc"}
PInf(e) == e \in {"PrimalInf", "PrimalInfInacc"}
\* binaries (1e-4 units) are integral and the assignment they name is feasible
Integral(r) == \A i \in 1..Len(r.x) : r.isbin[i] => (Abs(r.x[i]) <= 2 \/ Abs(r.x[i] - 10000) <= 2)
Named(r) == { f \in 1..Len(r.feas) : \A i \in 1..Len(r.x) : r.isbin[i] => Abs(r.x[i] - 10000 * r.feas[f].b[i]) <= 5000 }
Judge(r) ==
  IF r.event = "var" THEN [ok |-> TRUE]
  ELSE IF r.event # "optimize" THEN [ran |-> FALSE]
  ELSE LET o == r.o opt == Opt(r.exit) full == r.exit = "Optimal" many == r.bnbiters >= 100 IN
  [verdict |-> /\ opt => o.kind = "opt" \/ (o.kind = "dinf" /\ ~full)
               /\ r.exit = "PrimalInf" => (o.kind # "opt" \/ ~r.strong)
               /\ r.exit = "DualInf" => (o.kind = "dinf" \/ (o.kind = "pinf" /\ r.unb)),
   conclusive |-> (r.strong /\ many /\ o.kind # "dinf") => (r.exit = (CASE o.kind = "opt" -> "Optimal" [] o.kind = "pinf" -> "PrimalInf" [] OTHER -> "DualInf")
                                        \/ (o.kind = "pinf" /\ r.unb /\ r.exit = "DualInf")),
   integral |-> opt => Integral(r),
   assignment |-> opt => Named(r) # {},
   feasible |-> opt => \A i \in 1..Len(r.viol) : IsNum(r.viol[i]) /\ r.viol[i] <= (IF full THEN 100 ELSE 100000),
   \* objective (1e-6 units) of the assignment it names, and globally optimal to the configured gap
   own |-> opt => \A f \in Named(r) : IsNum(r.objerr) /\ (Abs(r.objerr - 1000000 * (r.feas[f].v - o.val)) <= 2000 \/ r.objerr > 1000000 * (r.feas[f].v - o.val)),
   optimal |-> full => (IsNum(r.objerr) /\ Abs(r.objerr) <= 2000)]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
