-------------------------- MODULE VarLayoutTrace ----------------------------
EXTENDS VarLayout, TraceIO

VARIABLE l
tvars == <<blocks, next, l>>
T == Trace[l]
TInit == Init /\ l = 1

ApplyOp(o) ==
  CASE o.op = "declare" -> Declare(o.rows, o.cols, o.type, o.bk, o.lb, o.ub, o.gk, o.g)
    [] o.op = "setguess" -> SetGuess(o.b, o.v)
    [] o.op = "freeze" -> Freeze(o.b, o.j)
    [] o.op = "setfreeze" -> SetFreeze(o.b, o.j, o.k, o.v)

\* what the code showed of block b after the action, against the model
Clauses(obs, b) ==
  LET blk == blocks'[b] IN
  [ start |-> obs.start = blk.start, shape |-> obs.rows = blk.rows /\ obs.cols = blk.cols /\ obs.num = blk.rows * blk.cols,
    type |-> obs.type = blk.type, lower |-> obs.lb = blk.lb, upper |-> obs.ub = blk.ub,
    guess |-> obs.guess = blk.guess /\ obs.guess2 = blk.guess /\ obs.guess3 = blk.guess,
    ids |-> \A r \in 1..Len(obs.ids) : \A c \in 1..Len(obs.ids[r]) :
              obs.ids[r][c] = blk.start + Clamp(c - 3, blk.cols) * blk.rows + Clamp(r - 3, blk.rows) ]

Begin == T.event = "begin" /\ blocks' = <<>> /\ next' = 0
Step == /\ T.event = "op"
        /\ ApplyOp(T.op)
        /\ Report(l, (IF T.next = next' THEN {} ELSE {"next"}) \cup
                     (IF Len(T.blocks) = Len(blocks') THEN UNION { Failing(Clauses(T.blocks[b], b)) : b \in 1..Len(blocks') }
                      ELSE {"count"}))
Bad == T.event \notin {"begin", "op"} /\ Report(l, {T.event}) /\ UNCHANGED vars
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Step \/ Bad)
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
