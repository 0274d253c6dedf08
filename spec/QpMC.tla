-------------------------------- MODULE QpMC --------------------------------
(* The certificates of Qp decide small programs exhaustively: on a lattice no *)
(* feasible point beats a KKT point, two KKT points are equal, and a program  *)
(* with a Farkas certificate has no feasible lattice point; reordering and    *)
(* adding implied rows keeps the KKT point.                                   *)
EXTENDS Qp, TLC
CONSTANTS CoefMax, ConstMax, Size, MaxRows
Coef == -CoefMax..CoefMax
Const == -ConstMax..ConstMax
Window == -Size..Size
VARIABLES p, stage
Rows == { <<c, d>> : c \in Coef, d \in Coef }
Init == /\ stage = 0
        /\ \E h11 \in {1, 3}, h12 \in {-1, 0}, g1 \in Const, g2 \in {0, 1} :
             p = [n |-> 2, H |-> << <<h11, h12>>, <<h12, 2>> >>, g |-> <<g1, g2>>, E |-> <<>>, e |-> <<>>, A |-> <<>>, a |-> <<>>]
AddEq == /\ stage = 0 /\ \E r \in Rows, c \in Const : p' = [p EXCEPT !.E = <<r>>, !.e = <<c>>] /\ stage' = 1
NoEq == stage = 0 /\ stage' = 1 /\ UNCHANGED p
AddRow == /\ stage \in 1..MaxRows /\ \E r \in Rows, c \in Const : p' = WithRows(p, <<r>>, <<c>>) /\ stage' = stage + 1
Next == AddEq \/ NoEq \/ AddRow
Spec == Init /\ [][Next]_<<p, stage>>
Pts == { <<x, y>> : x \in Window, y \in Window }
Mults(k, S) == IF k = 0 THEN { <<>> } ELSE IF k = 1 THEN { <<s>> : s \in S } ELSE { <<s, t>> : s \in S, t \in S }
Kkts == { x \in Pts : Feasible(p, x) /\ \E nu \in Mults(Len(p.E), -2..2), lam \in Mults(Len(p.A), 0..2) : IsKkt(p, x, nu, lam) }
Optimal == \A x \in Kkts : \A y \in Pts : (y # x /\ Feasible(p, y)) => Val2(p, y) > Val2(p, x)
Unique == \A x \in Kkts, y \in Kkts : x = y
Infeasible == (\E mu \in Mults(Len(p.E), -2..2), y \in Mults(Len(p.A), 0..2) : IsFarkas(p, mu, y)) => ~ \E x \in Pts : Feasible(p, x)
=============================================================================
