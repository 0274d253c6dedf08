---------------------------- MODULE BindingsGen -----------------------------
(* Random histories of the store, to be replayed on the Python modules.       *)
EXTENDS Bindings, TraceIO, Rand
CONSTANTS Walks, Kind, Depth
VARIABLES walk, log, n
gvars == <<kind, free, seqs, held, walk, log, n>>

U == 125000
Quats == << <<0,0,0,1000000>>, <<500000,500000,500000,500000>>, <<-500000,500000,-500000,500000>>, <<600000,0,0,800000>>, <<0,800000,0,600000>>, <<0,0,-600000,800000>>,
            <<280000,0,0,960000>>, <<0,0,960000,280000>>, <<0,360000,480000,800000>>, <<-480000,600000,0,640000>>, <<1000000,0,0,0>>, <<0,0,1000000,0>> >>
\* value of a cell type; nj joints
Val(t, nj, D(_, _)) ==
  LET num(i) == (D(i, 129) - 64) * U
      vec(k) == [i \in 1..k |-> num(i)] IN
  CASE t = "d" -> <<num(1)>> [] t = "b" -> <<D(1, 2)>> [] t = "i" -> <<D(1, 200)>> [] t = "c" -> <<D(1, 3)>>
    [] t = "q" -> Quats[1 + D(1, Len(Quats))] [] t = "2" -> vec(2) [] t = "3" -> vec(3) [] t = "4" -> vec(4) [] t = "n" -> vec(nj)
    [] t = "v" -> vec(1 + D(40, 4))
    [] t = "m" -> LET r == 1 + D(40, 3)  c == 1 + D(41, 3) IN <<r, c>> \o vec(r * c)
    [] t = "s" -> [i \in 1..(1 + D(40, 5)) |-> 97 + D(i, 26)]
    [] t = "C" -> LET a == 1 + D(40, 3)  b == 1 + D(41, 3) IN <<a>> \o vec(a) \o (IF D(42, 2) = 0 THEN <<>> ELSE <<b>> \o vec(b))
TypeOf(k, c) == (CHOOSE x \in { CellTab[k][i] : i \in 1..Len(CellTab[k]) } : x[1] = c)[2]
\* all cells of an object
Fill(k, nj, s) == LET cs == CellTab[k] IN
  [c \in { cs[i][1] : i \in 1..Len(cs) } |->
     LET i == CHOOSE j \in 1..Len(cs) : cs[j][1] = c IN Val(cs[i][2], nj, LAMBDA d, r : RN(walk, s, i * 50 + d, r))]
  @@ (IF k = "setting" THEN [c \in { "Vector_" \o SetVecN[i] : i \in 1..Len(SetVecN) } |-> <<>>] ELSE <<>>)

Frees == IF Kind = "kin" THEN <<"a", "b", "p", "v", "w">> ELSE IF Kind = "iface" THEN <<"a", "b", "k">> ELSE IF Kind = "setting" THEN <<"a">> ELSE <<"a", "b">>
MainKind == IF Kind = "iface" THEN "kin" ELSE Kind
HasSeq == Kind \in {"dyn", "cnt", "kin"}
FK(o) == CASE o \in {"a", "b"} -> MainKind [] o = "p" -> "posture" [] o = "v" -> "velocity" [] o = "w" -> "acceleration" [] o = "k" -> "iface"
GInit ==
  /\ walk \in 1..Walks
  /\ n = 1 + RN(walk, 0, 1, 4)
  /\ kind = MainKind /\ held = 0
  /\ free = [o \in { Frees[i] : i \in 1..Len(Frees) } |-> Fill(FK(o), n, 1000 + (CHOOSE i \in 1..Len(Frees) : Frees[i] = o))]
  /\ seqs = [s |-> <<>>, t |-> <<>>]
  /\ log = <<>>
Log(r) == log' = Append(log, r) /\ UNCHANGED <<walk, n>>

\* an existing place
Step ==
  LET st == Len(log)
      D(i, r) == RN(walk, st, i, r)
      places == Cat([i \in 1..Len(Frees) |-> << <<Frees[i], 1>> >>]) \o [i \in 1..Len(seqs["s"]) |-> <<"s", i>>] \o [i \in 1..Len(seqs["t"]) |-> <<"t", i>>] \o
                (IF held = 0 THEN <<>> ELSE << <<"h", 1>>, <<"h", 1>> >>)
      pl == places[1 + D(2, Len(places))]
      at == pl[1]   ix == pl[2]   k == KindAt(at)
      wr == SelectSeq(RowTab[k], LAMBDA r : r[3] # "r")
      row == wr[1 + D(3, Len(wr))]
      vals == [i \in 1..Len(row[2]) |-> Val(TypeOf(k, row[2][i]), n, LAMBDA d, r : RN(walk, st, 100 + i * 50 + d, r))]
      cs == CellTab[k]
      cell == cs[1 + D(4, Len(cs))]
      cv == Val(cell[2], n, LAMBDA d, r : RN(walk, st, 100 + d, r))
      sq == <<"s", "t">>[1 + D(5, 2)]
      src == <<"a", "b">>[1 + D(6, 2)]
      a == D(1, 16)
      part == <<"p", "v", "w">>[1 + D(7, 3)]
      PySet1 == PySet(at, ix, row[1], vals) /\ Log([op |-> "py", at |-> at, i |-> ix, n |-> row[1], v |-> vals])
      CSet1 == CppSet(at, ix, cell[1], cv) /\ Log([op |-> "c", at |-> at, i |-> ix, n |-> cell[1], v |-> cv]) IN
  IF Kind = "iface" /\ a >= 6
  THEN LET f == <<"display", "log", "integrate", "update", "diff", "initialize">>[1 + D(8, 6)] IN
       /\ UNCHANGED vars
       /\ Log([op |-> "call", at |-> "k", i |-> 1, n |-> f, x |-> <<"a", "b">>[1 + D(9, 2)], y |-> <<"a", "b">>[1 + D(10, 2)], ret |-> src, dt |-> (1 + D(11, 40)) * U,
               v |-> <<Val(IF f = "log" /\ TRUE THEN "q" ELSE "3", n, LAMBDA d, r : RN(walk, st, 100 + d, r)), Val("3", n, LAMBDA d, r : RN(walk, st, 200 + d, r))>>])
  ELSE IF ~HasSeq \/ a < 8 THEN (IF a % 3 = 0 THEN CSet1 ELSE PySet1)
  ELSE IF a <= 9 THEN (IF Kind = "cnt" THEN /\ Append1(sq, src) /\ Log([op |-> "append", at |-> sq, i |-> 1, n |-> src])
             ELSE LET num == 1 + D(8, 3)  m == [j \in 1..num |-> Fill(kind, n, 2000 + 40 * st + j)] IN Resize(sq, num, m) /\ Log([op |-> "resize", at |-> sq, i |-> num, m |-> m]))
  ELSE IF a = 10 THEN (IF seqs[sq] # <<>> THEN LET i == 1 + D(8, Len(seqs[sq])) IN Assign(sq, i, src) /\ Log([op |-> "assign", at |-> sq, i |-> i, n |-> src]) ELSE PySet1)
  ELSE IF a = 11 THEN (IF Kind = "kin" /\ k = "kin" THEN SetPart(at, ix, part) /\ Log([op |-> "part", at |-> at, i |-> ix, n |-> part]) ELSE PySet1)
  ELSE IF a = 12 THEN (IF seqs["s"] # <<>> THEN LET i == 1 + D(8, Len(seqs["s"])) IN Hold(i) /\ Log([op |-> "hold", at |-> "s", i |-> i]) ELSE PySet1)
  ELSE IF a = 13 THEN (IF Kind = "cnt" THEN (IF seqs[sq] # <<>> THEN DropLast(sq) /\ Log([op |-> "drop", at |-> sq, i |-> 1]) ELSE PySet1)
                                       ELSE CopySeq(sq, IF sq = "s" THEN "t" ELSE "s") /\ Log([op |-> "copyseq", at |-> sq, i |-> 1]))
  ELSE IF a = 14 /\ D(9, 3) = 0 /\ Kind # "cnt" THEN Clean(sq) /\ Log([op |-> "clean", at |-> sq, i |-> 1])
  ELSE IF a = 14 /\ Len(seqs[sq]) < 4 THEN Append1(sq, src) /\ Log([op |-> "append", at |-> sq, i |-> 1, n |-> src])
  ELSE PySet1
GNext == Len(log) < Depth /\ Step
GSpec == GInit /\ [][GNext]_gvars
\* contents at the start, then the history
Start == [o \in { Frees[i] : i \in 1..Len(Frees) } |-> Fill(FK(o), n, 1000 + (CHOOSE i \in 1..Len(Frees) : Frees[i] = o))]
\* the names that can be read, per kind of object
RowsInv == log = <<>> => Emit([rows |-> [k \in Kinds |-> { RowTab[k][i][1] : i \in { j \in 1..Len(RowTab[k]) : RowTab[k][j][3] # "w" } }]])
EmitInv == Len(log) = Depth => Emit([kind |-> MainKind, n |-> n, free |-> Start, ops |-> log])
=============================================================================
