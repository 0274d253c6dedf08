---------------------------- MODULE KinPlanGen ----------------------------
(* Robots with a dynamic plan to follow: contacts with flights, momenta, foot  *)
(* references, via points; one or two plans in turn.  Kinds: "plan" (velocity  *)
(* steps), "snd" (accelerations), "init" (only the starting posture).          *)
EXTENDS KinematicsGen
Kn == INSTANCE Kinematics
Nt == IF Kind = "snd" THEN R(0, 400, 4, 5) ELSE R(0, 400, 2, 7)
Dt == IF Kind = "snd" THEN Ch(0, 401, <<25, 30, 45, 50, 90>>) ELSE Ch(0, 401, <<50, 100, 200, 500, 1000, 1250>>)   \* tenths of ms
P0 == LET q == Pose(1) IN [q EXCEPT !.o = Ch(1, 402, << <<1, 0, 0, 0>>, << 30, R(1, 51, -3, 3), R(1, 52, -3, 3), R(1, 53, -3, 3) >> >>)]
PI == [p |-> << R(2, 403, -2, 2), R(3, 403, -2, 2), R(4, 403, 10, 40) >>, o |-> <<1, 0, 0, 0>>, t |-> P0.t]
KofR(rob, p) == TLCEval(Kn!Kin(rob, TLCEval([p |-> Kn!Cm(p.p), R |-> Kn!RotFx(Kn!QMul(p.o, p.o)), cs |-> TLCEval([j \in 1..Len(rob.joints) |-> Kn!CosSin(p.t[j][1], p.t[j][2])])])))
Kof(p) == LET rob == TLCEval(Rob) q == TLCEval(p) IN KofR(rob, q)
ToCm(v) == [i \in 1..3 |-> Kn!TDiv(v[i], 100000)]
Near3(s, d, c, m) == [i \in 1..3 |-> c[i] + R(s, d + i, -m, m)]
\* which steps have no contact at all: never / a stretch / from the start / scattered
Fly(r, k) == LET c == Ch(r, 410, <<"no", "mid", "mid", "start", "some", "end">>)  a == R(r, 411, 2, Nt)  n == R(r, 412, 1, 3) IN
  CASE c = "no" -> FALSE [] c = "mid" -> a <= k /\ k < a + n [] c = "start" -> k <= n [] c = "end" -> k > Nt - n [] OTHER -> R(100 * r + k, 413, 0, 2) = 0
Act(r, k) == IF Fly(r, k) THEN [f \in 1..NL |-> 0] ELSE LET b == R(100 * r + k, 414, 1, NL) IN [f \in 1..NL |-> IF f = b THEN 1 ELSE R(100 * r + k, 415 + f, 0, 1)]
StepOf(K, r, k) == LET s == 100 * r + k IN
  [com |-> Near3(s, 420, ToCm(K.com), 4), lm |-> V3(s, 425, 20), am |-> V3(s, 430, 4), ep |-> [f \in 1..NL |-> Near3(s, 440 + 5 * f, ToCm(K.feet[f]), 4)],
   ev |-> [f \in 1..NL |-> V3(s, 470 + 5 * f, 20)], act |-> Act(r, k)]
Via(r, d, n, dim, m) == [i \in 1..n |-> [at |-> LET len == Nt \div (n + 1) IN i * len, v |-> [j \in 1..dim |-> R(10 * r + i, d + j, -m, m)]]]
NVia(r, d) == LET n == R(r, d, 0, 3) IN IF n <= 2 /\ n > 0 /\ Nt >= 2 * (n + 1) THEN n ELSE 0
W0 == [Wt(3) EXCEPT !.reg = Ch(0, 404, <<1, 1, 5, 20>>), !.init = 0]
Round(K, r) == [st |-> [k \in 1..Nt |-> StepOf(K, r, k)], jv |-> Via(r, 500, NVia(r, 520), NJ, 80), bv |-> Via(r, 530, NVia(r, 540), 3, 15), ro |-> Ch(r, 541, <<1, 5, 30, 100>>), rj |-> R(r, 542, 0, 40)]
\* (bound as a value: evaluated once)
With(f(_)) == LET S == { f(K) : K \in { LET k == Kof(P0) IN [com |-> k.com, feet |-> k.feet] } } IN CHOOSE r \in S : TRUE
PlanOf(K) == [kind |-> Kind, rob |-> Rob, hip |-> [i \in 1..NL |-> Start(i) + 1], nt |-> Nt, dt |-> Dt, pose |-> P0, w |-> W0,
           weight |-> R(0, 405, 1, 20), ini |-> [lm |-> V3(5, 406, 10), am |-> V3(6, 406, 4)], rounds |-> [r \in 1..R(0, 407, 1, 2) |-> Round(K, r)]]
\* cubic courses (coefficients over the whole plan, hundredths)
Cub(s, d, c, m) == [i \in 1..Len(c) |-> << c[i], R(s, d + 4 * i, -m, m), R(s, d + 4 * i + 1, -m, m), R(s, d + 4 * i + 2, -m, m) >>]
Z3 == <<0, 0, 0>>
SndOf(K) == [kind |-> Kind, rob |-> Rob, hip |-> [i \in 1..NL |-> Start(i) + 1], nt |-> Nt, dt |-> Dt, pose |-> P0, w |-> W0, direct |-> R(0, 408, 0, 1), weight |-> 1, jv |-> Via(1, 500, NVia(1, 520), NJ, 80), bv |-> Via(1, 530, NVia(1, 540), 3, 15),
   com |-> Cub(1, 600, ToCm(K.com), 2), lm |-> Cub(2, 600, Z3, 5), am |-> Cub(3, 600, Z3, 2), jp |-> Cub(4, 600, [j \in 1..NJ |-> R(0, 620 + j, -50, 50)], 10), rpy |-> Cub(5, 600, V3(5, 640, 5), 5),
   ep |-> [f \in 1..NL |-> Cub(10 + f, 600, ToCm(K.feet[f]), 2)], ev |-> [f \in 1..NL |-> Cub(20 + f, 600, Z3, 5)], act |-> [k \in 1..Nt |-> Act(1, k)]]
\* a posture that the default joints almost have, on any robot or on a walking one (two or three joints per leg, knees bent)
Walker == R(7, 409, 0, 1) = 1
L3 == R(8, 409, 0, 1)
WalkRob == LET len == 2 + L3 IN
  [base |-> [m |-> R(0, 15, 60, 100), c |-> V3(0, 16, 2), i |-> <<100, 200, 250>>],
   joints |-> [j \in 1..(4 * len) |-> LET i == ((j - 1) \div len) + 1  k == ((j - 1) % len) + 1  m == k - L3 IN
      IF m = 0 THEN [up |-> 0, ax |-> 1, off |-> << IF i <= 2 THEN 19 ELSE -19, IF i % 2 = 1 THEN 8 ELSE -8, 0 >>, m |-> 5, c |-> <<0, 0, 0>>, i |-> <<2, 2, 2>>]
      ELSE IF m = 1 THEN [up |-> IF L3 = 1 THEN j - 1 ELSE 0, ax |-> 2, off |-> IF L3 = 1 THEN << 0, IF i % 2 = 1 THEN 4 ELSE -4, 0 >> ELSE << IF i <= 2 THEN 19 ELSE -19, IF i % 2 = 1 THEN 15 ELSE -15, 0 >>,
                          m |-> R(1, 28, 5, 15), c |-> <<0, 0, -8>>, i |-> <<4, 4, 1>>]
      ELSE [up |-> j - 1, ax |-> 2, off |-> <<0, IF i % 2 = 1 THEN 3 ELSE -3, -16>>, m |-> 3, c |-> <<0, 0, -8>>, i |-> <<1, 1, 1>>]],
   feet |-> [i \in 1..4 |-> [j |-> i * len, off |-> <<0, 0, -16>>]]]
WalkPose == LET len == 2 + L3 b == R(9, 409, 5, 9) IN
  [p |-> PI.p, o |-> <<1, 0, 0, 0>>, t |-> [j \in 1..(4 * len) |-> LET i == ((j - 1) \div len) + 1 m == ((j - 1) % len) + 1 - L3 IN
      IF m = 0 THEN << R(j, 651, -1, 1), 20 >> ELSE IF m = 1 THEN << IF i <= 2 THEN b ELSE -b, 20 >> ELSE << IF i <= 2 THEN -2 * b ELSE 2 * b, 20 >>]]
WDef == [lin |-> 100, ang |-> 100, con |-> 100, swi |-> 100, reg |-> 1, pe |-> 10, pc |-> 10, init |-> 1]
IniR == LET rob == IF Walker THEN WalkRob ELSE Rob  p == IF Walker THEN WalkPose ELSE PI  K == KofR(rob, p) IN
          [kind |-> Kind, rob |-> rob, hip |-> [i \in 1..Len(rob.feet) |-> IF Walker THEN (i - 1) * (2 + L3) + 1 ELSE Start(i) + 1], nt |-> 2, dt |-> 100, pose |-> p, w |-> WDef, weight |-> 1, walker |-> IF Walker THEN 1 ELSE 0,
           com |-> K.com, feet |-> K.feet, bend |-> [j \in 1..Len(rob.joints) |-> R(j, 650, -10, 10)]]
PRec == CASE Kind = "plan" -> With(PlanOf) [] Kind = "snd" -> With(SndOf) [] OTHER -> IniR
EmitPlan == Emit(PRec)
=============================================================================
