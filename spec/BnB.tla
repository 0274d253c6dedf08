--------------------------------- MODULE BnB ---------------------------------
(* Branch and bound over 0/1 vectors, with an adversarial relaxation: solving *)
(* a node may return any lower bound on its leaves' values, may happen to     *)
(* return an integral point (then the bound is attained), may offer any       *)
(* feasible leaf as rounded incumbent, and reports infeasible nodes as such   *)
(* (a node without feasible leaves may also look feasible). The search of     *)
(* BnBSolver.cpp must then end with the optimal value, or without incumbent   *)
(* exactly when no leaf is feasible.                                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS K, Vals          \* binaries; leaf values are drawn from Vals or "inf"eas
Inf == 1000
Leaves == [1..K -> 0..1]
VARIABLES f,               \* value of each leaf (Inf = infeasible)
          nodes,           \* sequence of [fix, lb, st]: fix in [1..K -> {-1,0,1}]
          ub, best, cur, pc
vars == <<f, nodes, ub, best, cur, pc>>
Under(fix) == { x \in Leaves : \A i \in 1..K : fix[i] # -1 => fix[i] = x[i] }
MinOf(fix) == LET S == { f[x] : x \in Under(fix) } IN CHOOSE m \in S : \A s \in S : m <= s
Free(fix) == { i \in 1..K : fix[i] = -1 }
Min(a, b) == IF a < b THEN a ELSE b

\* possible outcomes of bounding a node: lb, branching variable (0: leaf or closed), value and point offered
Outcomes(fix) ==
  LET m == MinOf(fix) feas == { x \in Under(fix) : f[x] < Inf } IN
  (IF m = Inf THEN { [lb |-> Inf, br |-> 0, off |-> Inf, pt |-> <<>>] } ELSE {})
  \cup { [lb |-> m, br |-> 0, off |-> m, pt |-> x] : x \in { y \in feas : f[y] = m } }
  \cup { [lb |-> l, br |-> i, off |-> o[1], pt |-> o[2]] :
           l \in { v \in Vals : v <= m }, i \in Free(fix), o \in { <<Inf, <<>> >> } \cup { <<f[x], x>> : x \in feas } }

Solve(nd, out) == [nd EXCEPT !.lb = out.lb, !.br = out.br, !.st = IF out.br = 0 THEN "closed" ELSE "open"]
Init == /\ f \in [Leaves -> Vals \cup {Inf}]
        /\ nodes = <<[fix |-> [i \in 1..K |-> -1], lb |-> -Inf, br |-> 0, st |-> "new"]>>
        /\ ub = Inf /\ best = <<>> /\ cur = 1 /\ pc = "root"
Take(out) == IF out.off < ub THEN ub' = out.off /\ best' = out.pt ELSE UNCHANGED <<ub, best>>
Root == /\ pc = "root" /\ \E out \in Outcomes(nodes[1].fix) :
             /\ nodes' = <<Solve(nodes[1], out)>> /\ Take(out)
        /\ pc' = "loop" /\ UNCHANGED <<f, cur>>
Lb == LET S == { nodes[i].lb : i \in 1..Len(nodes) } IN CHOOSE m \in S : \A s \in S : m <= s
Open == { i \in 1..Len(nodes) : nodes[i].st = "open" /\ nodes[i].lb < Inf }
Select == IF Open = {} THEN 0 ELSE CHOOSE i \in Open : \A j \in Open : nodes[i].lb < nodes[j].lb \/ (nodes[i].lb = nodes[j].lb /\ i <= j)
Loop == /\ pc = "loop"
        /\ IF ub > Lb /\ Select # 0
           THEN LET i == Select nd == nodes[i]
                    z == [nd EXCEPT !.fix[nd.br] = 0] o == [nd EXCEPT !.fix[nd.br] = 1] IN
                /\ nodes' = Append([nodes EXCEPT ![i] = z], o) /\ cur' = i /\ pc' = "zero"
           ELSE /\ pc' = "done" /\ UNCHANGED <<nodes, cur>>
        /\ UNCHANGED <<f, ub, best>>
Zero == /\ pc = "zero" /\ \E out \in Outcomes(nodes[cur].fix) : nodes' = [nodes EXCEPT ![cur] = Solve(@, out)] /\ Take(out)
        /\ pc' = "one" /\ UNCHANGED <<f, cur>>
One == /\ pc = "one" /\ \E out \in Outcomes(nodes[Len(nodes)].fix) : nodes' = [nodes EXCEPT ![Len(nodes)] = Solve(@, out)] /\ Take(out)
       /\ pc' = "loop" /\ UNCHANGED <<f, cur>>
Next == Root \/ Loop \/ Zero \/ One
Spec == Init /\ [][Next]_vars

\* the leaves of the tree partition the 0/1 vectors; every bound is a bound
Partition == pc \in {"loop", "done"} => \A x \in Leaves : Cardinality({ i \in 1..Len(nodes) : x \in Under(nodes[i].fix) }) = 1
Bounds == pc \in {"loop", "done"} => \A i \in 1..Len(nodes) : nodes[i].lb <= MinOf(nodes[i].fix)
Incumbent == (ub = Inf) = (best = <<>>) /\ (best # <<>> => f[best] = ub)
Optimal == pc = "done" => ub = MinOf([i \in 1..K |-> -1])
Terminates == Len(nodes) <= 2 ^ K
=============================================================================
