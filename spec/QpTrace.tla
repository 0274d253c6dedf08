------------------------------ MODULE QpTrace ------------------------------
(* Answers of the quadratic program solver against the certified ones.        *)
(* x in units of 1e-7.                                                        *)
EXTENDS TraceIO, LinAlg
VARIABLE l
Judge(r) ==
  IF r.event # "solve" THEN [ran |-> FALSE]
  ELSE [verdict |-> r.ok = r.feas, flag |-> r.flag = r.ok, kept |-> r.kept,
        minimiser |-> r.feas => NearSeq(r.x, VScale(10000000, r.want), 20),
        check |-> r.feas /\ r.ok => r.check /\ r.offcheck,
        condition |-> r.feas /\ r.ok => Near(r.cond, 0, 5) /\ r.offcond]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
