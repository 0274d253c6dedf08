----------------------------- MODULE RotationGen -----------------------------
(* Pairs of orientations (the second one is the first one turned by a known    *)
(* rotation), angular velocities, time steps.                                  *)
EXTENDS Rand, TraceIO, Rotation
CONSTANTS Walks
VARIABLES w
R(d, a, b) == RI(w, 0, d, a, b)
Ch(d, s) == RS(w, 0, d, s)
Q1raw == [i \in 1..4 |-> R(10 + i, -9, 9)]
Simple == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, 0, 0, 1>>, <<1, 1, 1, 1>>, <<0, 3, 4, 0>>, <<-1, 0, 0, 0>>, <<2, 0, 1, 0>>, <<-1, 0, 0, 1>> >>
Q1 == IF R(1, 0, 3) = 0 THEN Ch(2, Simple) ELSE IF Q1raw = <<0, 0, 0, 0>> THEN <<1, 0, 0, 0>> ELSE Q1raw
\* the turn: ordinary, tiny, nearly half, half, none
Class == Ch(3, <<"any", "any", "any", "small", "tiny", "nearhalf", "half", "none", "past">>)
PQ == CASE Class = "any" -> <<R(4, 1, 40), R(5, 1, 40)>>
        [] Class = "small" -> <<R(4, 1, 150), 1000>>
        [] Class = "tiny" -> <<1, Ch(5, <<1000, 700, 500, 12, 100>>)>>
        [] Class = "nearhalf" -> <<1000, R(5, 1, 30)>>
        [] Class = "half" -> <<1, 0>>
        [] Class = "past" -> <<R(4, 20, 40), R(5, 1, 20)>>
        [] OTHER -> <<0, 1>>
Turn == [ax |-> R(6, 1, Len(Axes)), p |-> PQ[1] * Ch(7, <<1, -1>>), q |-> PQ[2]]
Dts == << [n |-> 1, d |-> 1], [n |-> 1, d |-> 2], [n |-> 1, d |-> 10], [n |-> 1, d |-> 100], [n |-> 2, d |-> 1], [n |-> 5, d |-> 1], [n |-> 1, d |-> 20] >>
\* a few whole turns on top of an angular velocity
Wind == Ch(9, <<0, 0, 0, 0, 1, -1>>)
Vec(d) == [i \in 1..3 |-> R(d + i, -9, 9)]
Rec == [class |-> Class, q1 |-> Q1, turn |-> Turn, d |-> QOf(Turn), q2 |-> QMul(QOf(Turn), Q1), s1 |-> Ch(20, <<1, 1, -1>>), s2 |-> Ch(21, <<1, 1, -1>>),
        scale |-> Ch(22, <<0, 0, 3, 7>>), dt |-> Ch(23, Dts), wind |-> Wind, body |-> (R(24, 0, 1) = 1),
        om |-> AlongFx(Angle(Turn) + 2 * PiFx * Wind, Turn.ax), rv |-> LogFx(Turn), e |-> Axes[Turn.ax].e, a |-> Axes[Turn.ax].a, u |-> Vec(30), v |-> Vec(40)]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
