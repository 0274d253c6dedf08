----------------------------- MODULE HandoffGen ------------------------------
(* Schedules of Handoff for given histories, with bounded numbers of          *)
(* preemptions and of wake-ups nobody asked for: every behaviour is emitted   *)
(* as the sequence of threads that take the steps ("m", "w": that thread is   *)
(* woken for no reason). The other mode draws schedules at random.            *)
EXTENDS Handoff, Rand, TraceIO
CONSTANTS Preempt, Spur, Walks
VARIABLES hist, last, pre, spu, w
gvars == <<vars, hist, last, pre, spu, w>>
Patterns == ndJsonDeserialize(IOEnv.PATTERNS)
GInit ==
  /\ \/ (w = 0 /\ \E i \in 1..Len(Patterns) : Start(Patterns[i].probs))
     \/ (w \in 1..Walks /\ Start(Patterns[1 + (w % Len(Patterns))].probs))
  /\ hist = <<>> /\ last = "M" /\ pre = 0 /\ spu = 0
\* steps of the other thread while this one could go on
Budget(t, other) == pre' = pre + (IF last # t /\ other THEN 1 ELSE 0) /\ (w = 0 => pre' <= Preempt)
EM == pcM # "done" /\ ENABLED MStep
EW == ENABLED WStep
\* a random schedule keeps the thread that ran last with probability 2/3, some wake-ups are spurious
Choice == LET d == RN(w, Len(hist), 1, 30) sp == w % 3 = 0 IN
  IF sp /\ d < 2 /\ "M" \in waiting THEN "m" ELSE IF sp /\ d \in 2..3 /\ "W" \in waiting THEN "w"
  ELSE IF ~EM THEN "W" ELSE IF ~EW THEN "M" ELSE IF d < 20 THEN last ELSE IF last = "M" THEN "W" ELSE "M"
May(c) == w = 0 \/ Choice = c
GM == pcM # "done" /\ May("M") /\ MStep /\ hist' = Append(hist, "M") /\ last' = "M" /\ Budget("M", EW) /\ UNCHANGED <<spu, w>>
GW == May("W") /\ WStep /\ hist' = Append(hist, "W") /\ last' = "W" /\ Budget("W", EM) /\ UNCHANGED <<spu, w>>
GS(t) == (w = 0 => spu < Spur) /\ May(t) /\ Spurious(IF t = "m" THEN "M" ELSE "W") /\ hist' = Append(hist, t) /\ spu' = spu + 1 /\ UNCHANGED <<last, pre, w>>
GNext == GM \/ GW \/ GS("m") \/ GS("w")
GSpec == GInit /\ [][GNext]_gvars
EmitInv == pcM = "done" => Emit([w |-> w, probs |-> P, sched |-> hist,
                                 \* preemptions inside the computations: thread and number of matrix operations before
                                 fine |-> IF w % 2 = 0 THEN <<>> ELSE [i \in 1..RN(w, 1000, 2, 4) |-> [t |-> RN(w, 1000 + i, 3, 2), at |-> RN(w, 1000 + i, 4, IF i = 1 THEN 300 ELSE 4000)]]])
Safe == RightNullSpace /\ Exclusive /\ JoinedAtEnd
=============================================================================
