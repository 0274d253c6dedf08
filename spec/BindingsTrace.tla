--------------------------- MODULE BindingsTrace ----------------------------
(* Replays a recorded history on the store and compares, after every          *)
(* operation, what the C++ interface and what the Python names show.          *)
EXTENDS Bindings, TraceIO
VARIABLE l
tvars == <<kind, free, seqs, held, l>>
T == Trace[l]
TInit == kind = "dyn" /\ free = <<>> /\ seqs = [s |-> <<>>, t |-> <<>>] /\ held = 0 /\ l = 1

Tol == 2
\* the same rotation: a quaternion and its negative
SameRot(a, b) == NearSeq(a, b, Tol) \/ NearSeq(a, [i \in 1..4 |-> -b[i]], Tol)
SameCpp(k, m, c) == DOMAIN c = DOMAIN m /\ \A x \in DOMAIN m : IF k = "cnt" /\ x = "ori" THEN SameRot(c[x], m[x]) ELSE NearSeq(c[x], m[x], Tol)
SamePy(k, m, p) == \A i \in 1..Len(RowTab[k]) :
  LET r == RowTab[k][i] IN r[3] = "w" \/ (r[1] \in DOMAIN p /\ \E v \in {Read(k, m, r[1])} : NearSeq(p[r[1]], v, Tol))
Show(k, m, o) == (IF SameCpp(k, m, o.c) THEN {} ELSE {"cpp"}) \cup (IF SamePy(k, m, o.p) THEN {} ELSE {"python"})
ShowSeq(k, s, o) == IF Len(o.e) # Len(s) \/ o.csize # Len(s) \/ o.psize # Len(s) THEN {"size"} ELSE UNION { Show(k, s[i], o.e[i]) : i \in 1..Len(s) }

Apply(o) ==
  CASE o.op = "py" -> PySet(o.at, o.i, o.n, o.v)
    [] o.op = "c" -> CppSet(o.at, o.i, o.n, o.v)
    [] o.op = "assign" -> Assign(o.at, o.i, o.n)
    [] o.op = "append" -> Append1(o.at, o.n)
    [] o.op = "drop" -> DropLast(o.at)
    [] o.op = "copyseq" -> CopySeq(o.at, IF o.at = "s" THEN "t" ELSE "s")
    [] o.op = "clean" -> Clean(o.at)
    [] o.op = "resize" -> Resize(o.at, o.i, o.m)
    [] o.op = "hold" -> Hold(o.i)
    [] o.op = "part" -> SetPart(o.at, o.i, o.n)
    [] o.op = "call" -> UNCHANGED vars
MemP(at, i) == IF at \in {"s", "t"} THEN seqs'[at][i] ELSE IF at = "h" THEN seqs'["s"][held'] ELSE free'[at]
Point == {"py", "c", "assign", "hold", "part"}

\* a call of the kinematics interface from C++ reaches the Python method of that name
\* with the arguments in their places, and its result reaches the caller
CallOk(o, r) ==
  LET v == o.v IN
  [ method |-> r.method = o.n,
    args |-> CASE o.n = "log" -> NearSeq(r.quat, v[1], Tol)
               [] o.n = "initialize" -> r.int = 4711
               [] o.n = "diff" -> SameCpp("kin", free[o.x], r.x) /\ SameCpp("kin", free[o.y], r.y) /\ Near(r.dt, o.dt, Tol)
               [] OTHER -> SameCpp("kin", free[o.x], r.x) /\ Near(r.dt, o.dt, Tol),
    result |-> CASE o.n = "log" -> NearSeq(r.ret, v[2], Tol)
                 [] o.n \in {"integrate", "update", "diff"} -> SameCpp("kin", free[o.ret], r.ret)
                 [] OTHER -> TRUE ]

Begin == /\ T.event = "begin"
         /\ kind' = T.s.kind /\ free' = T.s.free /\ seqs' = [s |-> <<>>, t |-> <<>>] /\ held' = 0
Op == /\ T.event = "op"
      /\ Apply(T.o)
      /\ Report(l, IF T.o.op = "call" THEN Failing(CallOk(T.o, T.r))
                   ELSE IF T.o.op \in Point THEN Show(KindAt(T.o.at), MemP(T.o.at, T.o.i), T.r)
                   ELSE ShowSeq(kind, seqs'[T.o.at], T.r))
End == /\ T.event = "end" /\ UNCHANGED vars
       /\ Report(l, UNION { { x \o "-end" : x \in Show(FreeKind(f), free[f], T.free[f]) } : f \in DOMAIN free } \cup
                    (IF T.seqs THEN UNION { { x \o "-end" : x \in ShowSeq(kind, seqs[q], T.r[q]) } : q \in {"s", "t"} } ELSE {}))
\* every name of an enumeration stands for the C++ constant of that name
Enums == /\ T.event = "enums" /\ UNCHANGED vars
         /\ Report(l, (IF \A x \in DOMAIN T.c : x \in DOMAIN T.p THEN {} ELSE {"enum-missing"}) \cup
                      (IF \A x \in DOMAIN T.c : x \in DOMAIN T.p => T.p[x] = T.c[x] THEN {} ELSE {"enum-value"}) \cup
                      (IF T.effs = <<T.c["EffId.right_foot"], T.c["EffId.left_foot"], T.c["EffId.right_hand"], T.c["EffId.left_hand"]>> THEN {} ELSE {"enum-effector"}))
Bad == T.event \notin {"begin", "op", "end", "enums"} /\ Report(l, {T.event}) /\ UNCHANGED vars
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Op \/ End \/ Enums \/ Bad)
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
