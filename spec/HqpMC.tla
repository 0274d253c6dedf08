------------------------------- MODULE HqpMC --------------------------------
(* On all small hierarchies of two ranks: a certified point is beaten by no   *)
(* lattice point, and all certified points violate every rank alike.          *)
EXTENDS Hqp, TLC
CONSTANTS CoefMax, ConstMax, Size, First, Total
VARIABLES h, stage
Co == -CoefMax..CoefMax
Cn == -ConstMax..ConstMax
N == 2
Rows == { <<c, d>> : c \in 0..CoefMax, d \in Co }
Empty == [B |-> <<>>, b |-> <<>>, A |-> <<>>, a |-> <<>>]
Init == h = <<Empty, Empty>> /\ stage = 0
Rank == IF stage < First THEN 1 ELSE 2
AddEq == stage < Total /\ stage' = stage + 1 /\ \E r \in Rows, c \in Cn : h' = [h EXCEPT ![Rank].B = Append(@, r), ![Rank].b = Append(@, c)]
AddIn == stage < Total /\ stage' = stage + 1 /\ \E r \in Rows, c \in Cn, s \in {-1, 1} : h' = [h EXCEPT ![Rank].A = Append(@, VScale(s, r)), ![Rank].a = Append(@, c)]
Skip == stage < Total /\ stage' = stage + 1 /\ UNCHANGED h
Next == AddEq \/ AddIn \/ Skip
Spec == Init /\ [][Next]_<<h, stage>>
Pts == { <<x, y>> : x \in -Size..Size, y \in -Size..Size }
Vecs(k) == IF k = 0 THEN { <<>> } ELSE IF k = 1 THEN { <<i>> : i \in -2..2 } ELSE { <<i, j>> : i \in -2..2, j \in -2..2 }
Sound == stage = Total =>
  \A x \in Pts :
     (RankCert(h, 1, x, <<>>, N) /\ \E nu \in Vecs(Len(h[1].B)), lam \in Vecs(Len(h[1].A)) : RankCert(h, 2, x, << [nu |-> nu, lam |-> lam] >>, N))
       => \A y \in Pts : ~LexLess(h, 1, y, x) /\ (LexLess(h, 1, x, y) \/ \A k \in 1..2 : EqRes(h[k], x) = EqRes(h[k], y) /\ Viol(h[k], x) = Viol(h[k], y))
=============================================================================
