------------------------------- MODULE LqrLoop -------------------------------
(* The outer loop of the iterative LQR solver: what it does with its           *)
(* regularisation and when it stops.  Regularisations and their multipliers    *)
(* are powers of two, given by their exponents; Off: no regularisation.        *)
EXTENDS Integers, Sequences
Off == -9999
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* g: settings: exponents ini, mul, inc, min, max; iters
\* ph: "top" of an iteration, "lost": no policy, "must": stop for the reason why, "done"
Boot(g) == [lam |-> g.ini, mul |-> g.mul, it |-> 0, ph |-> IF g.iters = 0 THEN "must" ELSE "top", why |-> IF g.iters = 0 THEN "iterations" ELSE "none"]
Up(g, m) == LET k == Mx(m.mul + g.inc, g.inc) IN [m EXCEPT !.mul = k, !.lam = IF m.lam = Off THEN g.min ELSE Mx(m.lam + k, g.min)]
Down(g, m) == LET k == Mn(m.mul - g.inc, -g.inc) IN [m EXCEPT !.mul = k, !.lam = IF m.lam # Off /\ m.lam > g.min THEN m.lam + k ELSE Off]
TooBig(g, m) == m.lam > g.max
\* the iteration is over, for the reason w to stop or "none"
Over(g, m, w) == LET n == m.it + 1 y == IF w = "none" /\ n = g.iters THEN "iterations" ELSE w IN [m EXCEPT !.it = n, !.ph = IF y = "none" THEN "top" ELSE "must", !.why = y]
\* the backward pass fails: more regularisation; beyond the maximum there is no policy
Fail(g, m) == IF m.ph # "top" THEN {} ELSE LET n == Up(g, m) IN { [n EXCEPT !.ph = IF TooBig(g, n) THEN "lost" ELSE "top"] }
\* a step that lowers the cost is taken; one of the shortest length leaves the regularisation as it is
Take(g, m, small) == IF m.ph # "top" THEN {} ELSE
  LET w == IF small THEN "cost" ELSE "none" IN (IF g.alphas > 1 THEN { Over(g, Down(g, m), w) } ELSE {}) \cup { Over(g, m, w) }
\* no step lowers the cost, or there is no policy to try
Refuse(g, m) == IF m.ph \notin {"top", "lost"} THEN {} ELSE LET n == Up(g, m) IN { Over(g, n, IF TooBig(g, n) THEN "regularisation" ELSE "none") }
Stop(g, m, w) == IF (w = "gradient" /\ m.ph = "top") \/ (m.ph = "must" /\ w = m.why) THEN { [m EXCEPT !.ph = "done", !.why = w] } ELSE {}
=============================================================================
