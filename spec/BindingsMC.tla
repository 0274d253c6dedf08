----------------------------- MODULE BindingsMC -----------------------------
(* Every short history of a small store (states with a posture part, two      *)
(* sequences, one element held): the guarantees stated as action properties.  *)
EXTENDS Bindings
CONSTANTS Depth
VARIABLES act, clock
mvars == <<kind, free, seqs, held, act, clock>>
Cells == {"com", "lmom", "bp", "bq", "q"}
M0(b) == [c \in Cells |-> <<b>>]
MInit == /\ kind = "kin" /\ held = 0 /\ clock = 1 /\ act = [op |-> "init"]
         /\ free = [a |-> M0(1), b |-> M0(2), p |-> [c \in {"bp", "bq", "q"} |-> <<3>>]]
         /\ seqs = [s |-> <<>>, t |-> <<>>]
V == <<100 + clock>>
Places == ({"a", "b", "p"} \X {1}) \cup { <<q, i>> : q \in {"s", "t"}, i \in 1..2 } \cup {<<"h", 1>>}
Exists(pl) == IF pl[1] \in {"s", "t"} THEN pl[2] <= Len(seqs[pl[1]]) ELSE IF pl[1] = "h" THEN held # 0 ELSE TRUE
Names(k) == IF k = "kin" THEN {"com", "lmom", "robot_posture.base_position", "robot_posture.joint_positions"} ELSE {"base_position", "joint_positions"}
DoPy == \E pl \in Places : Exists(pl) /\ \E nm \in Names(KindAt(pl[1])) :
  PySet(pl[1], pl[2], nm, <<V>>) /\ act' = [op |-> "py", at |-> pl[1], i |-> pl[2], n |-> nm, v |-> V]
DoCpp == \E pl \in Places : Exists(pl) /\ \E c \in {"lmom", "q"} :
  c \in DOMAIN Mem(pl[1], pl[2]) /\ CppSet(pl[1], pl[2], c, V) /\ act' = [op |-> "c", at |-> pl[1], i |-> pl[2], n |-> c, v |-> V]
DoAssign == \E q \in {"s", "t"}, i \in 1..2, o \in {"a", "b"} : i <= Len(seqs[q]) /\ Assign(q, i, o) /\ act' = [op |-> "assign", at |-> q, i |-> i, n |-> o]
DoAppend == \E q \in {"s", "t"}, o \in {"a", "b"} : Len(seqs[q]) < 2 /\ Append1(q, o) /\ act' = [op |-> "append", at |-> q, i |-> 1, n |-> o]
DoDrop == \E q \in {"s", "t"} : seqs[q] # <<>> /\ DropLast(q) /\ act' = [op |-> "drop", at |-> q]
DoCopy == \E q \in {"s", "t"} : CopySeq(q, IF q = "s" THEN "t" ELSE "s") /\ act' = [op |-> "copyseq", at |-> q]
DoHold == \E i \in 1..Len(seqs["s"]) : Hold(i) /\ act' = [op |-> "hold", at |-> "s", i |-> i]
DoPart == \E pl \in Places \ {<<"p", 1>>} : Exists(pl) /\ SetPart(pl[1], pl[2], "p") /\ act' = [op |-> "part", at |-> pl[1], i |-> pl[2]]
DoResize == \E q \in {"s", "t"} : Resize(q, 2, <<M0(V[1]), M0(V[1] + 50)>>) /\ act' = [op |-> "resize", at |-> q]
MNext == clock <= Depth /\ clock' = clock + 1 /\ (DoPy \/ DoCpp \/ DoAssign \/ DoAppend \/ DoDrop \/ DoCopy \/ DoHold \/ DoPart \/ DoResize)
MSpec == MInit /\ [][MNext]_mvars

MemP(at, i) == IF at \in {"s", "t"} THEN seqs'[at][i] ELSE IF at = "h" THEN seqs'["s"][held'] ELSE free'[at]
\* the element a place denotes, as <<container, index>>
Elem(at, i) == IF at = "h" THEN <<"s", held>> ELSE <<at, i>>
All == ({"a", "b", "p"} \X {1}) \cup { <<q, i>> : q \in {"s", "t"}, i \in 1..2 }
Shares(k, x, y) == \E i \in 1..Len(Row(k, x)[2]), j \in 1..Len(Row(k, y)[2]) : Row(k, x)[2][i] = Row(k, y)[2][j]
\* a write is read back, changes no other name of the object, and no other object
ReadBack == act'.op = "py" => Read(KindAt(act'.at), MemP(act'.at, act'.i), act'.n) = act'.v
Frame == act'.op = "py" => \A y \in Names(KindAt(act'.at)) :
           Shares(KindAt(act'.at), act'.n, y) \/ Read(KindAt(act'.at), MemP(act'.at, act'.i), y) = Read(KindAt(act'.at), Mem(act'.at, act'.i), y)
Others == act'.op \in {"py", "c", "assign", "part"} =>
           \A pl \in All : Exists(pl) /\ pl # Elem(act'.at, act'.i) => MemP(pl[1], pl[2]) = Mem(pl[1], pl[2])
\* what is held is the element, not a copy of it
Live == held # 0 => held <= Len(seqs["s"]) /\ Mem("h", 1) = seqs["s"][held]
Copies == act'.op = "copyseq" => seqs'["s"] = seqs'["t"] /\ free' = free
Steps == [][ReadBack /\ Frame /\ Others /\ Copies]_mvars
=============================================================================
