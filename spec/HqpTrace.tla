------------------------------ MODULE HqpTrace ------------------------------
(* Violations of every rank at the point returned for a hierarchy, against    *)
(* the certified optimal ones (r, v). Residuals in units of 1e-6.             *)
EXTENDS TraceIO, LinAlg
VARIABLE l
Tol == 300
RankOk(o, e) == NearSeq(o.r, VScale(1000000, e.r), Tol) /\ NearSeq(o.v, VScale(1000000, e.v), Tol)
FirstBad(r) == { k \in 1..Len(r.ranks) : ~RankOk(r.ranks[k], r.want[k]) }
Judge(r) ==
  IF r.event # "solved" THEN [ran |-> FALSE]
  ELSE [verdict |-> r.ok, size |-> r.size, finite |-> AllNum(r.x),
        ranks |-> Len(r.ranks) = Len(r.want),
        optimal |-> (Len(r.ranks) = Len(r.want)) => FirstBad(r) = {},
        kept |-> r.kept]
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
