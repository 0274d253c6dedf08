------------------------------ MODULE Modelling ------------------------------
(* What a program written with the modelling interface means.                 *)
(* lin : lhs - rhs  {<, =, >} 0          (affine forms)                       *)
(* quad: sum c_i q_i^2 + f <= 0          soc: || (q_i) || + f <= 0            *)
(* obj : min sum w_i q_i^2 + f                                                *)
EXTENDS Affine
QVal(ts, x) == VSum([i \in 1..Len(ts) |-> ts[i].c * AVal(ts[i].q, x) * AVal(ts[i].q, x)])
ObjVal(o, x) == QVal(o.ts, x) + AVal(o.f, x)
Holds(c, x) ==
  CASE c.t = "lin" -> (CASE c.s = "<" -> AVal(c.f, x) <= 0 [] c.s = ">" -> AVal(c.f, x) >= 0 [] OTHER -> AVal(c.f, x) = 0)
    [] c.t = "quad" -> QVal(c.ts, x) + AVal(c.f, x) <= 0
    [] c.t = "soc" -> LET r == -AVal(c.f, x)
                          ss == VSum([i \in 1..Len(c.ts) |-> AVal(c.ts[i].q, x) * AVal(c.ts[i].q, x)])
                      IN r >= 0 /\ ss <= r * r
SatAll(cs, x) == \A i \in 1..Len(cs) : Holds(cs[i], x)
=============================================================================
