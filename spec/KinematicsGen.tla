---------------------------- MODULE KinematicsGen ----------------------------
(* Robots, postures, weights, gains and references for inverse kinematics.     *)
EXTENDS Rand, TraceIO
CONSTANTS Walks, Kind
VARIABLES w
R(s, d, a, b) == RI(w, s, d, a, b)
Ch(s, d, q) == RS(w, s, d, q)
V3(s, d, m) == [i \in 1..3 |-> R(s, d + i, -m, m)]
NL == R(0, 1, 1, 4)                                   \* legs
\* joints of leg i; an extra joint without foot may follow
LL(i) == IF NL >= 3 THEN R(i, 1, 1, 2) ELSE R(i, 1, 1, 3)
Arm == R(0, 2, 0, 2) = 0
Dead == Arm /\ R(0, 3, 0, 1) = 0                       \* the extra joint moves nothing
Start(i) == SeqSum([k \in 1..(i - 1) |-> LL(k)])
NJ == Start(NL + 1) + (IF Arm THEN 1 ELSE 0)
JointOf(i, k) == LET s == 10 * i + k IN
  [up |-> IF k = 1 THEN 0 ELSE Start(i) + k - 1, ax |-> R(s, 20, 1, 3),
   off |-> IF k = 1 THEN << Ch(i, 21, <<-20, 20, 15, -15>>) + R(s, 22, -3, 3), R(s, 23, -15, 15), R(s, 24, -5, 5) >> ELSE << R(s, 25, -3, 3), R(s, 26, -3, 3), -R(s, 27, 8, 20) >>,
   m |-> R(s, 28, 1, 9), c |-> << R(s, 29, -3, 3), R(s, 30, -3, 3), -R(s, 31, 0, 12) >>, i |-> << R(s, 32, 1, 20), R(s, 33, 1, 20), R(s, 34, 1, 9) >>]
LegOf(j) == CHOOSE i \in 1..NL : Start(i) < j /\ j <= Start(i + 1)
ArmJ == [up |-> Ch(0, 4, <<0, 1>>), ax |-> R(0, 5, 1, 3), off |-> V3(0, 6, 15), m |-> IF Dead THEN 0 ELSE R(0, 10, 1, 9), c |-> IF Dead THEN <<0, 0, 0>> ELSE V3(0, 11, 10), i |-> IF Dead THEN <<0, 0, 0>> ELSE <<3, 4, 5>>]
Rob == [base |-> [m |-> R(0, 15, 20, 60), c |-> V3(0, 16, 3), i |-> << R(1, 17, 20, 200), R(2, 17, 20, 200), R(3, 17, 20, 200) >>],
        joints |-> [j \in 1..NJ |-> IF Arm /\ j = NJ THEN ArmJ ELSE LET i == LegOf(j) IN JointOf(i, j - Start(i))],
        feet |-> [i \in 1..NL |-> [j |-> Start(i + 1), off |-> << R(i, 40, -3, 3), R(i, 41, -3, 3), -R(i, 42, 8, 18) >>]]]
Ori(s) == LET c == Ch(s, 50, <<"id", "any", "any", "small">>) IN
  CASE c = "id" -> <<1, 0, 0, 0>>
    [] c = "small" -> << 30, R(s, 51, -3, 3), R(s, 52, -3, 3), R(s, 53, -3, 3) >>
    [] OTHER -> LET q == [i \in 1..4 |-> R(s, 53 + i, -5, 5)] IN IF q = <<0, 0, 0, 0>> THEN <<1, 0, 0, 0>> ELSE q
Pose(s) == [p |-> << R(s, 60, -60, 60), R(s, 61, -60, 60), R(s, 62, 0, 60) >>, o |-> Ori(s), t |-> [j \in 1..NJ |-> << R(s, 70 + j, -6, 6), R(s, 90 + j, 5, 9) >>]]
WV(s, d) == Ch(s, d, <<1, 10, 50, 100, 200, 300, 500>>)
Wt(s) == [lin |-> WV(s, 110), ang |-> WV(s, 111), con |-> WV(s, 112), swi |-> WV(s, 113), reg |-> IF Dead THEN Ch(s, 114, <<0, 20, 1>>) ELSE Ch(s, 114, <<1, 5, 20, 100>>),
          pe |-> R(s, 115, 0, 30), pc |-> R(s, 116, 0, 30), init |-> Ch(s, 117, <<0, 0, 1>>)]
Ref(s, q) == [com |-> [i \in 1..3 |-> q.p[i] + R(s, 120 + i, -10, 10)], lm |-> V3(s, 130, 60), am |-> V3(s, 140, 20),
           ep |-> [f \in 1..NL |-> [i \in 1..3 |-> q.p[i] + R(s, 150 + 5 * f + i, -30, 30)]], ev |-> [f \in 1..NL |-> V3(s, 180 + 5 * f, 60)],
           con |-> [f \in 1..NL |-> R(s, 200 + f, 0, 1)], q |-> IF R(s, 210, 0, 3) = 0 THEN <<>> ELSE [j \in 1..NJ |-> R(s, 210 + j, -60, 60)]]
NCalls == R(0, 220, 1, 4)
\* a call may keep the posture (or the velocity) of the previous one
PoseAt(k) == LET RECURSIVE P(_) P(i) == IF i > 1 /\ R(i, 221, 0, 2) = 0 THEN P(i - 1) ELSE i IN Pose(P(k) + 40)
DqAt(k) == LET RECURSIVE P(_) P(i) == IF i > 1 /\ R(i, 222, 0, 1) = 0 THEN P(i - 1) ELSE i  s == P(k) IN [j \in 1..(6 + NJ) |-> R(s, 230 + j, -30, 30)]
Call(k) == [pose |-> PoseAt(k), dq |-> DqAt(k), w |-> Wt(k + 60), ref |-> Ref(k + 80, PoseAt(k)), fly |-> IF R(k, 250, 0, 3) = 0 THEN 1 ELSE 0]
\* second order: gains, orientation error about an axis shared by base and reference
Wt2(s) == [lin |-> WV(s, 110), ang |-> WV(s, 111), con |-> WV(s, 112), swi |-> WV(s, 113), reg |-> Ch(s, 114, <<1, 5, 20, 100>>),
           pe |-> R(s, 115, 0, 30), de |-> R(s, 116, 0, 20), pc |-> R(s, 117, 0, 30), po |-> R(s, 118, 0, 20), do |-> R(s, 119, 0, 10),
           pm |-> [i \in 1..6 |-> R(s, 120 + i, 0, 20)], pj |-> R(s, 127, 0, 20), dj |-> R(s, 128, 0, 20)]
\* base turned about coordinate axis a by 2*atan(p/q)*2, reference about the same axis
Ax(k) == R(k, 300, 1, 3)
OAx(k, s) == LET p == R(s, 301, -2, 2) IN << R(s, 302, 5, 9), IF Ax(k) = 1 THEN p ELSE 0, IF Ax(k) = 2 THEN p ELSE 0, IF Ax(k) = 3 THEN p ELSE 0 >>
Acc(k) == LET q == [Pose(k + 40) EXCEPT !.o = OAx(k, k + 40)] IN
  [pose |-> q, dq |-> [j \in 1..(6 + NJ) |-> IF j \in 4..6 /\ j # 3 + Ax(k) THEN 0 ELSE R(k, 230 + j, -40, 40)], w |-> Wt2(k + 60),
   ref |-> Ref(k + 80, q), ax |-> Ax(k), ro |-> OAx(k, k + 90), dm |-> [i \in 1..6 |-> R(k, 310 + i, -50, 50)], ea |-> [f \in 1..NL |-> V3(k, 320 + 5 * f, 60)], fly |-> 0]
Free(k) == [Acc(k) EXCEPT !.pose = Pose(k + 40), !.dq = [j \in 1..(6 + NJ) |-> R(k, 230 + j, -40, 40)], !.w.po = 0, !.w.do = 0]
\* own: the caller always passes the same vectors, rewritten in place
Rec == [kind |-> Kind, rob |-> Rob, own |-> R(0, 331, 0, 1), calls |-> [k \in 1..NCalls |-> IF Kind = "vel" THEN Call(k) ELSE IF R(k, 330, 0, 1) = 0 THEN Acc(k) ELSE Free(k)]]
Init == w \in 1..Walks
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
EmitInv == Emit(Rec)
=============================================================================
