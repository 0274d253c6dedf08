----------------------------- MODULE ConicTrace -----------------------------
(* What the solver said and returned, judged against what is known about each *)
(* program: its kind (from the constructed certificate) and, where the verdict*)
(* claims something, the numbers that prove the claim.                        *)
EXTENDS TraceIO, LinAlg
VARIABLE l
Tight == 100          \* 1e-6

Opt(e) == e \in {"Optimal", "OptimalInacc"}
PInf(e) == e \in {"PrimalInf", "PrimalInfInacc"}
DInf(e) == e \in {"DualInf", "DualInfInacc"}
Inacc(e) == e \in {"OptimalInacc", "PrimalInfInacc", "DualInfInacc"}
Exits == {"Optimal", "OptimalInacc", "PrimalInf", "PrimalInfInacc", "DualInf", "DualInfInacc",
          "ReachMaxIters", "NotConverged", "Indeterminate", "PrSearchDirection", "PrSlacksLeaveCone", "PrProjection"}

\* integer recomputation of A x = b (x observed at 1e-4), independent of the harness' arithmetic
Recheck(r) == \/ r.corpus \/ ~AllNum(r.x) \/ VMaxAbs(r.x) > 10000000
              \/ \A i \in 1..Len(r.A) : Abs(VDot(r.A[i], r.x) - 10000 * r.b[i]) <= 200
Below(v, t) == IsNum(v) /\ v <= t
Judge(r) ==
  IF r.event # "solve" THEN [ran |-> FALSE]
  ELSE LET k == IF Inacc(r.exit) THEN 5000 ELSE 1      \* inaccurate verdicts: 1e-4 relative to the data
           t == Tight * k
           u == IF r.strong THEN 20 ELSE 60 IN
   [exit |-> r.exit \in Exits,
    \* --- the verdict itself
    optimal |-> Opt(r.exit) => r.kind = "opt",
    primalinf |-> PInf(r.exit) => r.kind = "pinf",
    dualinf |-> DInf(r.exit) => (r.kind = "dinf" \/ (r.kind = "pinf" /\ ~r.strong)),
    conclusive |-> r.strong => \/ r.kind = "opt" /\ Opt(r.exit)
                               \/ r.kind = "pinf" /\ PInf(r.exit)
                               \/ r.kind = "dinf" /\ DInf(r.exit),
    \* --- what is returned with it
    feasible |-> Opt(r.exit) => Below(r.req, t) /\ Below(r.rin, 5 * t) /\ Below(r.scone, t),
    dualfeasible |-> Opt(r.exit) => Below(r.rdual, 10 * t) /\ Below(r.zcone, t),
    objective |-> Opt(r.exit) => Below(Abs(r.objerr), u * t) /\ Below(Abs(r.dualobj), 2 * u * t),
    gap |-> Opt(r.exit) => Below(r.gap, 2 * u * t),
    farkas |-> PInf(r.exit) => r.farkassgn = -1 /\ Below(r.farkas, 20 * t) /\ Below(r.farkascone, t),
    ray |-> DInf(r.exit) => r.raysgn = -1 /\ Below(r.ray, t) /\ Below(r.raycone, t),
    recheck |-> (Opt(r.exit) /\ ~Inacc(r.exit)) => Recheck(r)]

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
