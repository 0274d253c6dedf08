--------------------------- MODULE VarLayoutGen -----------------------------
(* Behaviours of VarLayout, with their action log, to be replayed on the code *)
EXTENDS VarLayout, TraceIO, Rand

CONSTANTS Shapes, Depth, MaxBlocks
ShapesExh == {<<1,1>>, <<1,3>>, <<3,1>>, <<2,3>>}
ShapesSim == (1..4) \X (1..4)
CONSTANT Walks
VARIABLES log, walk
gvars == <<blocks, next, log, walk>>
GInit == Init /\ log = <<>> /\ walk \in 1..Walks
V == 100 + 10 * Len(log)
GNext ==
  /\ Len(log) < Depth /\ UNCHANGED walk
  /\ \/ /\ Len(blocks) < MaxBlocks
        /\ \E sh \in Shapes, bk \in {"s", "v", "m"}, gk \in {"n", "s", "m"} :
             /\ ~(gk = "s" /\ bk # "s")
             /\ LET ty == IF (sh[1] + Len(log)) % 3 = 0 THEN "B" ELSE "C" IN
                /\ Declare(sh[1], sh[2], ty, bk, -V, V + 1, gk, V + 5)
                /\ log' = Append(log, [op |-> "declare", rows |-> sh[1], cols |-> sh[2], type |-> ty,
                                       bk |-> bk, lb |-> -V, ub |-> V + 1, gk |-> gk, g |-> V + 5])
     \/ \E b \in 1..Len(blocks) :
          \/ SetGuess(b, V) /\ log' = Append(log, [op |-> "setguess", b |-> b, v |-> V])
          \/ \E j \in 1..blocks[b].cols :
               \/ Freeze(b, j) /\ log' = Append(log, [op |-> "freeze", b |-> b, j |-> j])
               \/ \E k \in {"s", "v"} : SetFreeze(b, j, k, V)
                     /\ log' = Append(log, [op |-> "setfreeze", b |-> b, j |-> j, k |-> k, v |-> V])
\* Random walks: one pseudo-random action per step.
RandNext ==
  /\ Len(log) < Depth /\ UNCHANGED walk
  /\ LET D(i, n) == RN(walk, Len(log), i, n)
         k == 1 + D(1, 8)
         sh == <<1 + D(2, 4), 1 + D(3, 4)>>
         bk == <<"s", "v", "m">>[1 + D(4, 3)]
         gk == IF bk = "s" THEN <<"n", "s", "m">>[1 + D(5, 3)] ELSE <<"n", "m">>[1 + D(5, 2)]
         ty == <<"C", "B">>[1 + D(6, 2)] IN
     IF blocks = <<>> \/ (k <= 3 /\ Len(blocks) < MaxBlocks)
     THEN /\ Declare(sh[1], sh[2], ty, bk, -V, V + 1, gk, V + 5)
          /\ log' = Append(log, [op |-> "declare", rows |-> sh[1], cols |-> sh[2], type |-> ty,
                                 bk |-> bk, lb |-> -V, ub |-> V + 1, gk |-> gk, g |-> V + 5])
     ELSE LET b == 1 + D(7, Len(blocks))
              j == 1 + D(8, blocks[b].cols)
              q == <<"s", "v">>[1 + D(9, 2)] IN
          \/ k <= 4 /\ SetGuess(b, V) /\ log' = Append(log, [op |-> "setguess", b |-> b, v |-> V])
          \/ k \in 5..6 /\ Freeze(b, j) /\ log' = Append(log, [op |-> "freeze", b |-> b, j |-> j])
          \/ k \in 7..8 /\ SetFreeze(b, j, q, V)
                /\ log' = Append(log, [op |-> "setfreeze", b |-> b, j |-> j, k |-> q, v |-> V])
RSpec == GInit /\ [][RandNext]_gvars
GSpec == GInit /\ [][GNext]_gvars
EmitInv == Len(log) = Depth => Emit([ops |-> log])
=============================================================================
