------------------------------ MODULE HandoffMC ------------------------------
(* Every interleaving, with any number of spurious wake-ups, of the hand-off  *)
(* for all histories of up to MaxProbs hierarchies of up to MaxRanks ranks.   *)
EXTENDS Handoff
CONSTANTS MaxProbs, MaxRanks
Kinds == {"eq", "in", "none", "skip"}
RankSeqs == UNION { [1..n -> Kinds] : n \in 0..MaxRanks }
\* the null space can only be exhausted after equalities
Real(s) == \A i \in 1..Len(s) : s[i] = "skip" => (\E j \in 1..i - 1 : s[j] = "eq") /\ \A j \in i..Len(s) : s[j] # "eq"
Probs == [init : BOOLEAN, ranks : { s \in RankSeqs : Real(s) }]
Hists == UNION { { h \in [1..n -> Probs] : n > 0 => (h[1].init /\ \A i \in 1..n : h[i].init \/ h[i].ranks # <<>>) } : n \in 0..MaxProbs }
Init == \E h \in Hists : Start(h)
Spec == Init /\ [][Next]_vars /\ Fair
=============================================================================
