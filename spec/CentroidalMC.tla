---------------------------- MODULE CentroidalMC ----------------------------
(* Finite-horizon Riccati recursion of a scalar system x' = a x + b u with     *)
(* stage cost (q x^2 + r u^2)/2 and terminal cost p x^2/2, over exact          *)
(* fractions: no sequence of grid controls beats the cost to go, and the gain  *)
(* attains it.                                                                 *)
EXTENDS Integers, Sequences
CONSTANTS Horizon
VARIABLES a, b, q, r, t, n, d
vars == <<a, b, q, r, t, n, d>>
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Init == a \in {1, 2} /\ b \in {0, 1, 2} /\ q \in 0..2 /\ r \in 1..2 /\ t = 0 /\ n \in 0..2 /\ d = 1
\* V = n/d;  V' = q + a^2 V - (a b V)^2 / (r + b^2 V) = q + a^2 V r / (r + b^2 V)
Den == r * d + b * b * n
NewN == q * Den + a * a * n * r
Back == t < Horizon /\ t' = t + 1 /\ LET g == Gcd(NewN, Den) IN n' = NewN \div g /\ d' = Den \div g
        /\ UNCHANGED <<a, b, q, r>>
Next == Back
Spec == Init /\ [][Next]_vars
\* one step ahead: cost of control u = k/m from state x compared with the new value (times d * m^2)
Beaten(x, k, m) == (q * x * x) * d * m * m + r * k * k * d + n * (a * x * m + b * k) * (a * x * m + b * k)
NewVal(x, m) == IF m = 0 THEN 0 ELSE ((NewN * x * x * m * m * d))      \* times 1/(Den)
Optimal == t < Horizon /\ n < 200 /\ d < 200 => \A x \in -2..2, k \in -6..6, m \in 1..3 : Beaten(x, k, m) * Den >= NewVal(x, m)
\* the gain k = a b n / Den attains it, and leaves a non-negative value
Attained == t < Horizon /\ n < 12 /\ d < 12 => \A x \in -2..2 : Beaten(x, -a * b * n * x, Den) * Den = NewVal(x, Den)
NonNeg == n >= 0 /\ d > 0
=============================================================================
