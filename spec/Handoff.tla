------------------------------ MODULE Handoff -------------------------------
(* The hand-off between the solver thread M and its null-space thread W: one  *)
(* mutex, one condition for each direction, a computed flag and a stop flag.  *)
(* Each action is one synchronisation call together with the code up to the   *)
(* next one. B, K name the rank whose matrices they hold. P is the history of *)
(* hierarchies solved with the object, [init |-> is the solver initialised    *)
(* (anew) before it, ranks |-> kinds of its ranks]: "eq" with equalities,     *)
(* "in" with inequalities only, "none" empty, "skip" without inequalities     *)
(* after the null space is exhausted.                                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES P, pcM, pcW, owner, computed, stop, waiting, B, K, q, r, used
vars == <<P, pcM, pcW, owner, computed, stop, waiting, B, K, q, r, used>>
\* waiting: subset of {"M", "W"} asleep on their condition (M on svd2problem, W on problem2svd)
LastEq(ks, k) == LET S == { i \in 1..k : ks[i] = "eq" } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* the synchronisation call that starts the next thing to do at rank r0 of problem q0
RECURSIVE At(_, _, _)
At(p, q0, r0) ==
  IF q0 > Len(p) THEN [pc |-> "end", q |-> q0, r |-> 1]
  ELSE IF r0 = 0 THEN (IF p[q0].init THEN [pc |-> "init", q |-> q0, r |-> 0] ELSE IF p[q0].ranks = <<>> THEN At(p, q0 + 1, 0) ELSE [pc |-> "rlock", q |-> q0, r |-> 0])
  ELSE IF r0 > Len(p[q0].ranks) THEN At(p, q0 + 1, 0)
  ELSE IF p[q0].ranks[r0] = "none" THEN At(p, q0, r0 + 1)
  ELSE [pc |-> IF p[q0].ranks[r0] = "skip" THEN "slock" ELSE "lock1", q |-> q0, r |-> r0]
\* with no thread to stop, initialising goes on with the spawn and the end with nothing
Resolve(a) == IF pcW = "none" THEN (CASE a.pc = "init" -> "spawn" [] a.pc = "end" -> "done" [] OTHER -> a.pc)
              ELSE IF a.pc \in {"init", "end"} THEN "stopLock" ELSE a.pc
Go(a) == pcM' = Resolve(a) /\ q' = a.q /\ r' = a.r
Start(p) == LET a == At(p, 1, 0) IN
  /\ P = p /\ q = a.q /\ r = a.r /\ pcM = (CASE a.pc = "init" -> "spawn" [] a.pc = "end" -> "done" [] OTHER -> a.pc)
  /\ pcW = "none" /\ owner = "none" /\ computed = TRUE /\ stop = FALSE /\ waiting = {} /\ B = 0 /\ K = 0 /\ used = [i \in 1..Len(p) |-> <<>>]
Free == owner = "none"
ks == P[q].ranks
\* ---- solver thread -----------------------------------------------------------
MSpawn == /\ pcM = "spawn" /\ pcW' = "begin" /\ stop' = FALSE /\ computed' = TRUE
          /\ IF P[q].ranks # <<>> THEN pcM' = "rlock" /\ UNCHANGED <<q, r>>
             ELSE LET a == At(P, q + 1, 0) IN pcM' = (IF a.pc \in {"init", "end"} THEN "stopLock" ELSE a.pc) /\ q' = a.q /\ r' = a.r
          /\ UNCHANGED <<P, owner, waiting, B, K, used>>
MRLock == pcM = "rlock" /\ Free /\ owner' = "M" /\ pcM' = "runlock" /\ computed' = TRUE /\ B' = 0 /\ K' = 0 /\ UNCHANGED <<P, pcW, stop, waiting, q, r, used>>
MRUnlock == pcM = "runlock" /\ owner' = "none" /\ Go(At(P, q, 1)) /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, used>>
MSLock == pcM = "slock" /\ Free /\ owner' = "M" /\ pcM' = "sunlock" /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, q, r, used>>
MSUnlock == pcM = "sunlock" /\ owner' = "none" /\ Go(At(P, q, r + 1)) /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, used>>
MLock1 == /\ pcM = "lock1" /\ Free /\ owner' = "M" /\ pcM' = "bcast"
          /\ used' = [used EXCEPT ![q] = Append(@, [rank |-> r, null |-> K])]          \* projection of rank r
          /\ B' = (IF ks[r] = "eq" THEN r ELSE B) /\ computed' = FALSE /\ UNCHANGED <<P, pcW, stop, waiting, K, q, r>>
MBcast == pcM = "bcast" /\ waiting' = waiting \ {"W"} /\ pcM' = "unlock1" /\ UNCHANGED <<P, pcW, owner, computed, stop, B, K, q, r, used>>
MUnlock1 == pcM = "unlock1" /\ owner' = "none" /\ pcM' = "lock2" /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, q, r, used>>
MLock2 == pcM = "lock2" /\ Free /\ owner' = "M" /\ pcM' = (IF computed THEN "unlock2" ELSE "wait") /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, q, r, used>>
MWait == pcM = "wait" /\ owner' = "none" /\ waiting' = waiting \cup {"M"} /\ pcM' = "asleep" /\ UNCHANGED <<P, pcW, computed, stop, B, K, q, r, used>>
MWake == pcM = "asleep" /\ "M" \notin waiting /\ Free /\ owner' = "M" /\ pcM' = (IF computed THEN "unlock2" ELSE "wait") /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, q, r, used>>
MUnlock2 == pcM = "unlock2" /\ owner' = "none" /\ Go(At(P, q, r + 1)) /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, used>>
MStopLock == pcM = "stopLock" /\ Free /\ owner' = "M" /\ stop' = TRUE /\ pcM' = "stopBcast" /\ UNCHANGED <<P, pcW, computed, waiting, B, K, q, r, used>>
MStopBcast == pcM = "stopBcast" /\ waiting' = waiting \ {"W"} /\ pcM' = "stopUnlock" /\ UNCHANGED <<P, pcW, owner, computed, stop, B, K, q, r, used>>
MStopUnlock == pcM = "stopUnlock" /\ owner' = "none" /\ pcM' = "join" /\ UNCHANGED <<P, pcW, computed, stop, waiting, B, K, q, r, used>>
MJoin == pcM = "join" /\ pcW = "done" /\ pcM' = (IF q > Len(P) THEN "done" ELSE "spawn") /\ UNCHANGED <<P, pcW, owner, computed, stop, waiting, B, K, q, r, used>>
\* ---- null-space thread ---------------------------------------------------------
WBegin == pcW = "begin" /\ pcW' = (IF stop THEN "done" ELSE "lock") /\ UNCHANGED <<P, pcM, owner, computed, stop, waiting, B, K, q, r, used>>
Decide == IF ~stop /\ computed THEN "wait" ELSE IF stop THEN "unlockStop" ELSE "bcast"
Work == /\ pcW' = Decide
        /\ K' = (IF Decide = "bcast" /\ B # 0 THEN B ELSE K) /\ computed' = (computed \/ Decide = "bcast")
WLock == pcW = "lock" /\ Free /\ owner' = "W" /\ Work /\ UNCHANGED <<P, pcM, stop, waiting, B, q, r, used>>
WWait == pcW = "wait" /\ owner' = "none" /\ waiting' = waiting \cup {"W"} /\ pcW' = "asleep" /\ UNCHANGED <<P, pcM, computed, stop, B, K, q, r, used>>
WWake == pcW = "asleep" /\ "W" \notin waiting /\ Free /\ owner' = "W" /\ Work /\ UNCHANGED <<P, pcM, stop, waiting, B, q, r, used>>
WBcast == pcW = "bcast" /\ waiting' = waiting \ {"M"} /\ pcW' = "unlock" /\ UNCHANGED <<P, pcM, owner, computed, stop, B, K, q, r, used>>
WUnlock == pcW = "unlock" /\ owner' = "none" /\ pcW' = (IF stop THEN "done" ELSE "lock") /\ UNCHANGED <<P, pcM, computed, stop, waiting, B, K, q, r, used>>
WUnlockStop == pcW = "unlockStop" /\ owner' = "none" /\ pcW' = "done" /\ UNCHANGED <<P, pcM, computed, stop, waiting, B, K, q, r, used>>
\* ---- wake-ups nobody asked for -------------------------------------------------
Spurious(t) == t \in waiting /\ waiting' = waiting \ {t} /\ UNCHANGED <<P, pcM, pcW, owner, computed, stop, B, K, q, r, used>>
MStep == MSpawn \/ MRLock \/ MRUnlock \/ MSLock \/ MSUnlock \/ MLock1 \/ MBcast \/ MUnlock1 \/ MLock2 \/ MWait \/ MWake \/ MUnlock2 \/ MStopLock \/ MStopBcast \/ MStopUnlock \/ MJoin
WStep == WBegin \/ WLock \/ WWait \/ WWake \/ WBcast \/ WUnlock \/ WUnlockStop
Finished == pcM = "done" /\ UNCHANGED vars
Next == MStep \/ WStep \/ (\E t \in {"M", "W"} : Spurious(t)) \/ Finished
Fair == /\ WF_vars(MSpawn \/ MRUnlock \/ MSUnlock \/ MBcast \/ MUnlock1 \/ MWait \/ MUnlock2 \/ MStopBcast \/ MStopUnlock \/ MJoin)
        /\ WF_vars(WBegin \/ WWait \/ WBcast \/ WUnlock \/ WUnlockStop)
        /\ SF_vars(MRLock) /\ SF_vars(MSLock) /\ SF_vars(MLock1) /\ SF_vars(MLock2) /\ SF_vars(MWake) /\ SF_vars(MStopLock) /\ SF_vars(WLock) /\ SF_vars(WWake)
\* ---- what the hand-off guarantees ------------------------------------------------
TypeOK == owner \in {"none", "M", "W"} /\ waiting \subseteq {"M", "W"}
\* every rank is projected with the null space of the last equality rank before it
RightNullSpace == \A j \in 1..Len(P) : \A i \in 1..Len(used[j]) : used[j][i].null = LastEq(P[j].ranks, used[j][i].rank - 1)
\* B is not rewritten while W reads it, K not while M reads it
Exclusive == (pcW \in {"bcast", "unlock", "unlockStop"} => owner = "W") /\ (pcM \in {"runlock", "sunlock", "bcast", "unlock1", "unlock2", "stopBcast", "stopUnlock"} => owner = "M")
JoinedAtEnd == pcM = "done" => pcW \in {"done", "none"}
Terminates == <>(pcM = "done")
=============================================================================
