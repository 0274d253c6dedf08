---------------------------- MODULE HandoffTrace -----------------------------
(* What the solver must deliver under every schedule of its two threads: each *)
(* hierarchy solved optimally (certified violations), the null space of       *)
(* exactly the equalities so far after every rank, no deadlock, and no thread *)
(* or lock left behind once the solver is destroyed.                          *)
EXTENDS TraceIO, LinAlg
VARIABLE l
Tol == 300
RankOk(o, e) == NearSeq(o.r, VScale(1000000, e.r), Tol) /\ NearSeq(o.v, VScale(1000000, e.v), Tol)
Judge(r) ==
  CASE r.event = "solved" -> [verdict |-> r.ok, size |-> r.size, finite |-> AllNum(r.x),
                              optimal |-> Len(r.ranks) = Len(r.want) /\ \A k \in 1..Len(r.ranks) : RankOk(r.ranks[k], r.want[k]),
                              nullspace |-> r.nul = [k \in 1..Len(r.want) |-> r.want[k].nul]]
    [] r.event = "end" -> [joined |-> r.left = 0, unlocked |-> r.held = 0, locking |-> r.misuse = 0, all |-> r.solved = r.expected]
    [] OTHER -> [ran |-> FALSE]      \* deadlock, livelock, crash, nothing
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Judge(Trace[l])))
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
