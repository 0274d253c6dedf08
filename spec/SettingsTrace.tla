---------------------------- MODULE SettingsTrace ----------------------------
(* The recorded history of one settings object, replayed in Settings: after   *)
(* every operation each parameter must read as the state says.                *)
EXTENDS Settings, TraceIO
VARIABLES l, val, cls
tvars == <<l, val, cls>>
T == Trace[l]
TInit == l = 1 /\ val = <<>> /\ cls = "none"

Ok == T.op.op = "set" \/ Complete(cls, T.op.F)
Rejected == T.threw \/ T.said
Step(v2) == /\ val' = v2 /\ UNCHANGED cls
Mismatch(v2) == {e \in DOMAIN v2 : v2[e] # "?" /\ (e \notin DOMAIN T.dump \/ T.dump[e] # v2[e])}
Do == /\ T.event = "op"
      /\ LET good == T.op.op = "load" /\ Complete(cls, T.op.F)
             v2 == IF T.op.op = "set" THEN Put(cls, val, T.op.e, IF T.op.t \in {"vn", "ivec", "xvec"} /\ T.op.e \in DOMAIN val /\ val[T.op.e] = "?" THEN "?"   \* of unknown length
                     ELSE IF T.op.t \in {"str", "heur"} THEN T.op.v ELSE ToString(T.op.v))
                   ELSE IF good THEN Load(cls, val, T.op.F, T.op.name)
                   ELSE Reject(cls, val)
             foreign == T.op.op = "set" /\ T.op.e \in Range(Foreign(cls))
         IN /\ Step(v2)
            /\ Report(l, Mismatch(v2)
                 \cup (IF T.op.op = "load" /\ ~good /\ ~Rejected THEN {"incomplete file accepted"} ELSE {})
                 \cup (IF good /\ T.threw THEN {"complete file rejected"} ELSE {})
                 \cup (IF T.op.op = "set" /\ foreign /\ ~T.threw THEN {"unknown parameter accepted"} ELSE {})
                 \cup (IF T.op.op = "set" /\ ~foreign /\ T.threw THEN {"parameter cannot be set"} ELSE {}))
Begin == T.event = "begin" /\ cls' = T.cls /\ val' = Blank(T.cls)
Bad == T.event \notin {"begin", "op"} /\ Report(l, {T.event}) /\ UNCHANGED <<val, cls>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Do \/ Bad)
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
